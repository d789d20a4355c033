//! Deviation-bounded choice sequences.
//!
//! A generator asks a `Chooser` for every decision; 0 is the default answer.  All choice
//! sequences with at most `bound` answers other than 0 are explored: first none, then those that
//! leave the default at one place, and so on.
use crate::core::{Ctx, Unit};
use std::sync::Arc;

pub struct Chooser {
    prefix: Vec<usize>,
    taken: Vec<usize>,
    arity: Vec<usize>,
}

impl Chooser {
    pub fn new(prefix: &[usize]) -> Self {
        Self { prefix: prefix.to_vec(), taken: vec![], arity: vec![] }
    }
    /// One of 0..n
    pub fn pick(&mut self, n: usize) -> usize {
        let i = self.taken.len();
        let v = self.prefix.get(i).copied().unwrap_or(0);
        assert!(v < n, "choice {v} of {n} at {i}: the generator is not deterministic");
        self.taken.push(v);
        self.arity.push(n);
        v
    }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.pick(v.len())].clone()
    }
    pub fn yes(&mut self) -> bool {
        self.pick(2) == 1
    }
}

type Gen<T> = dyn Fn(&mut Chooser) -> T + Send + Sync;
type Judge<T> = dyn Fn(&Ctx, &[usize], &T) + Send + Sync;

fn walk<T>(c: &Ctx, gen: &Gen<T>, judge: &Judge<T>, prefix: &[usize], bound: usize) {
    if c.stopped() {
        return;
    }
    let mut ch = Chooser::new(prefix);
    let t = gen(&mut ch);
    judge(c, &ch.taken, &t);
    if bound == 0 {
        return;
    }
    let mut p = ch.taken.clone();
    for i in prefix.len()..p.len() {
        let keep = p.split_off(i);
        for alt in 1..ch.arity[i] {
            p.push(alt);
            walk(c, gen, judge, &p, bound - 1);
            p.pop();
        }
        p.extend(keep);
    }
}

/// Units covering all sequences with at most `bound` deviations from `base`.
pub fn units<T: 'static>(
    name: &str,
    bound: usize,
    gen: impl Fn(&mut Chooser) -> T + Send + Sync + 'static,
    judge: impl Fn(&Ctx, &[usize], &T) + Send + Sync + 'static,
) -> Vec<Unit<'static>> {
    let gen: Arc<Gen<T>> = Arc::new(gen);
    let judge: Arc<Judge<T>> = Arc::new(judge);
    let mut out: Vec<Unit> = vec![];
    fn add<T: 'static>(
        out: &mut Vec<Unit<'static>>,
        name: &str,
        gen: &Arc<Gen<T>>,
        judge: &Arc<Judge<T>>,
        prefix: Vec<usize>,
        bound: usize,
        split: usize,
    ) {
        let (g, j) = (gen.clone(), judge.clone());
        let p = prefix.clone();
        let label = format!("{name}{:?}", prefix).replace(' ', "");
        if bound == 0 || split == 0 {
            out.push(Unit { label, run: Box::new(move |c| walk(c, &*g, &*j, &p, bound)) });
            return;
        }
        out.push(Unit { label, run: Box::new(move |c| walk(c, &*g, &*j, &p, 0)) });
        let mut ch = Chooser::new(&prefix);
        gen(&mut ch);
        for i in prefix.len()..ch.taken.len() {
            for alt in 1..ch.arity[i] {
                let mut p = ch.taken[..i].to_vec();
                p.push(alt);
                add(out, name, gen, judge, p, bound - 1, split - 1);
            }
        }
    }
    // The first deviations are split into units of their own, deepest spaces first.
    add(&mut out, name, &gen, &judge, vec![], bound, 2);
    out
}

/// Sizes for the one-dimensional families: every small one, then around the round numbers.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=40).collect();
    for k in [50, 60, 64, 70, 80, 99, 100, 120, 127, 128, 150, 200, 255, 256, 300, 400, 511, 512, 600, 800, 999, 1000, 1023, 1024, 1100, 1500, 2000, 3000] {
        v.push(k);
        v.push(k + 1);
    }
    v.sort();
    v.dedup();
    v.retain(|k| *k <= max);
    v
}
