//! C03-C06: references.
//!
//! The reference model: a reference is five optional parts; a part is an act, or an inclusive
//! range of labels of one kind.  Labels are (text in data, text in citations, rank in order).
use crate::{
    check,
    core::{differ, Ctx, Tier, Unit},
};
use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        ActIdentifier, AlphabeticIdentifier, ArticleIdentifier, NumericIdentifier,
        PrefixedAlphabeticIdentifier,
    },
    reference::{
        builder::{ReferenceBuilder, ReferenceBuilderSetPart},
        parts::{AnyReferencePart, RefPartArticle, RefPartParagraph, RefPartPoint, RefPartSubpoint},
        Reference,
    },
    util::compact_string::CompactString,
};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Arc;

const ACTS: [(i16, i32, &str); 3] = [
    (2012, 5, "2012. évi V. törvény"),
    (2012, 12, "2012. évi XII. törvény"),
    (2013, 5, "2013. évi V. törvény"),
];
/// kind 0: number with optional letter; kind 1: letter(s)
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Lab {
    kind: u8,
    rank: u8,
    text: &'static str,    // as serialized
    cite: &'static str,    // as cited
    compact: &'static str, // in the compact form
}
const fn lab(kind: u8, rank: u8, text: &'static str, cite: &'static str, compact: &'static str) -> Lab {
    Lab { kind, rank, text, cite, compact }
}
const ARTICLES: [Lab; 6] = [
    lab(0, 0, "1", "1", "1"),
    lab(0, 1, "1/A", "1/A", "1a"),
    lab(0, 2, "2", "2", "2"),
    lab(0, 3, "10", "10", "10"),
    lab(0, 4, "2:1", "2:1", "2.1"),
    lab(0, 5, "12:3/CS", "12:3/CS", "12.3cs"),
];
const PARAGRAPHS: [Lab; 4] = [
    lab(0, 0, "1", "1", "1"),
    lab(0, 1, "2", "2", "2"),
    lab(0, 2, "2a", "2a", "2a"),
    lab(0, 3, "10", "10", "10"),
];
const POINTS: [Lab; 7] = [
    lab(0, 0, "1", "1", "1"),
    lab(0, 1, "1a", "1a", "1a"),
    lab(0, 2, "12", "12", "12"),
    lab(1, 0, "a", "a", "a"),
    lab(1, 1, "c", "c", "c"),
    lab(1, 2, "cs", "cs", "cs"),
    lab(1, 3, "d", "d", "d"),
];
const SUBPOINTS: [Lab; 6] = [
    lab(0, 0, "1", "1", "1"),
    lab(0, 1, "2", "2", "2"),
    lab(1, 0, "a", "a", "a"),
    lab(1, 1, "d", "d", "d"),
    lab(1, 2, "aa", "aa", "aa"),
    lab(1, 3, "ad", "ad", "ad"),
];

pub type Part = Option<(Lab, Lab)>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct M {
    act: Option<usize>,
    /// article, paragraph, point, subpoint
    p: [Part; 4],
}
const EMPTY: M = M { act: None, p: [None; 4] };

fn is_range(p: &Part) -> bool {
    matches!(p, Some((a, b)) if a != b)
}

impl M {
    /// No gaps apart from a missing paragraph, and only the last part is a range.
    fn well_formed(&self) -> bool {
        let has: Vec<bool> = self.p.iter().map(|x| x.is_some()).collect();
        let (art, par, pt, sub) = (has[0], has[1], has[2], has[3]);
        // Going down from the first given part, no level is skipped but the paragraph.
        let below_act = art || par || pt || sub;
        if self.act.is_some() && below_act && !art {
            return false;
        }
        if art && sub && !pt {
            return false;
        }
        if par && sub && !pt {
            return false;
        }
        for i in 0..4 {
            if is_range(&self.p[i]) && (i + 1..4).any(|j| has[j]) {
                return false;
            }
        }
        true
    }
    fn text_of(p: &Part) -> Option<Value> {
        p.map(|(a, b)| if a == b { json!(a.text) } else { json!({"start": a.text, "end": b.text}) })
    }
    fn json(&self) -> Value {
        let mut m = serde_json::Map::new();
        if let Some(a) = self.act {
            m.insert("act".into(), json!({"year": ACTS[a].0, "number": ACTS[a].1}));
        }
        for (name, p) in ["article", "paragraph", "point", "subpoint"].iter().zip(&self.p) {
            if let Some(v) = Self::text_of(p) {
                m.insert(name.to_string(), v);
            }
        }
        Value::Object(m)
    }
    fn compact(&self) -> String {
        let mut s = self.act.map_or(String::new(), |a| format!("{}.{}", ACTS[a].0, ACTS[a].1));
        for p in &self.p {
            s.push('_');
            if let Some((a, b)) = p {
                s.push_str(a.compact);
                if a != b {
                    s.push('-');
                    s.push_str(b.compact);
                }
            }
        }
        s
    }
    fn cite(&self) -> String {
        let mut w: Vec<String> = vec![];
        if let Some(a) = self.act {
            w.push(ACTS[a].2.into());
        }
        let later = |i: usize| (i + 1..4).any(|j| self.p[j].is_some());
        let names = [("§", "§-a"), ("bekezdés", "bekezdése"), ("pont", "pontja"), ("alpont", "alpontja")];
        for i in 0..4 {
            if let Some((a, b)) = self.p[i] {
                let one = |l: &Lab| match (i, l.kind) {
                    (1, _) => format!("({})", l.cite),
                    (_, 0) => format!("{}.", l.cite),
                    _ => format!("{})", l.cite),
                };
                w.push(if a == b {
                    one(&a)
                } else if i != 1 && a.kind == 0 {
                    // numbers share the closing dot
                    format!("{}–{}", a.cite, one(&b))
                } else {
                    format!("{}–{}", one(&a), one(&b))
                });
                w.push(if later(i) { names[i].0 } else { names[i].1 }.to_string());
            }
        }
        w.join(" ")
    }
    fn last(&self) -> Option<usize> {
        (0..4).rev().find(|i| self.p[*i].is_some())
    }
    fn ends(&self, first: bool) -> M {
        let mut r = *self;
        for p in r.p.iter_mut() {
            *p = p.map(|(a, b)| if first { (a, a) } else { (b, b) });
        }
        r
    }
    fn parent(&self) -> M {
        let mut r = *self;
        match self.last() {
            Some(i) => r.p[i] = None,
            None => r.act = None,
        }
        r
    }
    fn without_act(&self) -> M {
        M { act: None, ..*self }
    }
    fn relative_to(&self, o: &M) -> Option<M> {
        let first = if self.act.is_some() { 0 } else { 1 + (0..4).find(|i| self.p[*i].is_some()).unwrap_or(4) };
        let mut r = *self;
        if first > 0 {
            r.act = o.act;
        }
        for i in 0..4 {
            if i + 1 < first {
                r.p[i] = o.p[i];
            }
        }
        r.well_formed().then_some(r)
    }
    fn make_range(a: &M, b: &M) -> Option<M> {
        if a.act != b.act {
            return None;
        }
        let Some(i) = (0..4).find(|i| a.p[*i] != b.p[*i]) else { return Some(*a) };
        if (i + 1..4).any(|j| a.p[j].is_some() || b.p[j].is_some()) {
            return None;
        }
        match (a.p[i], b.p[i]) {
            (Some((lo, x)), Some((_, hi))) if x.kind == hi.kind => {
                let mut r = *a;
                r.p[i] = Some((lo, hi));
                r.well_formed().then_some(r)
            }
            _ => None,
        }
    }
    fn is_parent_of(&self, o: &M) -> bool {
        if self == o || self.act != o.act {
            // An act is the child of nothing: references with and without one do not compare.
            return false;
        }
        match self.last() {
            Some(i) => self.p[..=i] == o.p[..=i],
            None => true,
        }
    }
    fn contains(&self, o: &M) -> bool {
        if self.act != o.act {
            return false;
        }
        let Some(i) = self.last() else { return true };
        let (lo, hi) = self.p[i].unwrap();
        self.p[..i] == o.p[..i]
            && o.p[i].is_some_and(|(a, b)| a.kind == lo.kind && lo.rank <= a.rank && b.rank <= hi.rank)
    }
}

fn parts(labels: &[Lab], reversed: bool) -> Vec<Part> {
    let mut v: Vec<Part> = vec![None];
    for a in labels {
        v.push(Some((*a, *a)));
    }
    for a in labels {
        for b in labels {
            if a.kind == b.kind && (a.rank < b.rank || (reversed && a.rank > b.rank)) {
                v.push(Some((*a, *b)));
            }
        }
    }
    v
}
struct Dom {
    acts: usize,
    art: Vec<Lab>,
    par: Vec<Lab>,
    pt: Vec<Lab>,
    sub: Vec<Lab>,
    reversed: bool,
}
fn pick(l: &[Lab], ix: &[usize]) -> Vec<Lab> {
    ix.iter().map(|i| l[*i]).collect()
}
fn all(d: &Dom) -> Vec<M> {
    let mut v = vec![];
    for act in std::iter::once(None).chain((0..d.acts).map(Some)) {
        for a in parts(&d.art, d.reversed) {
            for b in parts(&d.par, d.reversed) {
                for c in parts(&d.pt, d.reversed) {
                    for e in parts(&d.sub, d.reversed) {
                        v.push(M { act, p: [a, b, c, e] });
                    }
                }
            }
        }
    }
    v
}
fn well_formed(d: &Dom) -> Vec<M> {
    all(d).into_iter().filter(|m| m.well_formed()).collect()
}
/// Two acts, so that each level has a single, a neighbour, a suffix, and ranges over both.
fn dom(tier: Tier, pairs: bool) -> Dom {
    match (tier, pairs) {
        (Tier::Thorough, true) => Dom {
            acts: 3,
            art: ARTICLES.to_vec(),
            par: PARAGRAPHS.to_vec(),
            pt: POINTS.to_vec(),
            sub: SUBPOINTS.to_vec(),
            reversed: false,
        },
        (Tier::Quick, true) => Dom {
            acts: 3,
            art: pick(&ARTICLES, &[0, 1, 2, 4]),
            par: PARAGRAPHS.to_vec(),
            pt: POINTS.to_vec(),
            sub: SUBPOINTS.to_vec(),
            reversed: false,
        },
        (_, false) => Dom {
            acts: 3,
            art: ARTICLES.to_vec(),
            par: PARAGRAPHS.to_vec(),
            pt: POINTS.to_vec(),
            sub: SUBPOINTS.to_vec(),
            reversed: true,
        },
    }
}

// ---- the real thing ----------------------------------------------------------------------
fn act(i: usize) -> ActIdentifier {
    ActIdentifier { year: ACTS[i].0, number: ACTS[i].1 }
}
fn rng<T: std::str::FromStr + hun_law::identifier::IdentifierCommon>(p: (Lab, Lab)) -> IdentifierRange<T>
where
    T::Err: std::fmt::Debug,
{
    IdentifierRangeFrom::from_range(p.0.text.parse().unwrap(), p.1.text.parse().unwrap())
}
fn r_art(p: (Lab, Lab)) -> RefPartArticle {
    rng::<ArticleIdentifier>(p)
}
fn r_par(p: (Lab, Lab)) -> RefPartParagraph {
    rng::<NumericIdentifier>(p)
}
fn r_pt(p: (Lab, Lab)) -> RefPartPoint {
    if p.0.kind == 0 {
        RefPartPoint::Numeric(rng::<NumericIdentifier>(p))
    } else {
        RefPartPoint::Alphabetic(rng::<AlphabeticIdentifier>(p))
    }
}
fn r_sub(p: (Lab, Lab)) -> RefPartSubpoint {
    if p.0.kind == 0 {
        RefPartSubpoint::Numeric(rng::<NumericIdentifier>(p))
    } else {
        RefPartSubpoint::Alphabetic(rng::<PrefixedAlphabeticIdentifier>(p))
    }
}
/// Sets the parts in the order from the outside in.
fn build(m: &M) -> anyhow::Result<Reference> {
    let mut b = ReferenceBuilder::new();
    if let Some(a) = m.act {
        b.set_part(act(a));
    }
    if let Some(p) = m.p[0] {
        b.set_part(r_art(p));
    }
    if let Some(p) = m.p[1] {
        b.set_part(r_par(p));
    }
    if let Some(p) = m.p[2] {
        b.set_part(r_pt(p));
    }
    if let Some(p) = m.p[3] {
        b.set_part(r_sub(p));
    }
    b.build()
}
/// What a reference says, through its data form.
fn read(r: &Reference) -> Result<Value, String> {
    serde_json::to_value(r).map_err(|e| e.to_string())
}
fn same(what: &str, r: &Reference, m: &M) -> Result<(), String> {
    differ(what, &read(r)?, &m.json())
}
fn last_part(m: &M) -> AnyReferencePart {
    match m.last() {
        Some(0) => AnyReferencePart::Article(r_art(m.p[0].unwrap())),
        Some(1) => AnyReferencePart::Paragraph(r_par(m.p[1].unwrap())),
        Some(2) => AnyReferencePart::Point(r_pt(m.p[2].unwrap())),
        Some(_) => AnyReferencePart::Subpoint(r_sub(m.p[3].unwrap())),
        None => m.act.map_or(AnyReferencePart::Empty, |a| AnyReferencePart::Act(act(a))),
    }
}

// ---- C03: only well-formed references exist ----------------------------------------------
pub fn c03(tier: Tier) -> Vec<Unit<'static>> {
    let mut u = vec![];
    let d = match tier {
        Tier::Thorough => Dom {
            acts: 3,
            art: ARTICLES.to_vec(),
            par: PARAGRAPHS.to_vec(),
            pt: POINTS.to_vec(),
            sub: SUBPOINTS.to_vec(),
            reversed: true,
        },
        Tier::Quick => Dom {
            acts: 1,
            art: pick(&ARTICLES, &[0, 1, 4]),
            par: pick(&PARAGRAPHS, &[0, 1, 2]),
            pt: pick(&POINTS, &[0, 1, 2, 3, 5, 6]),
            sub: pick(&SUBPOINTS, &[0, 1, 2, 3, 4, 5]),
            reversed: true,
        },
    };
    // Every combination of parts, from every source: accepted iff well-formed.
    let combos = Arc::new(all(&d));
    let n = 64;
    for k in 0..n {
        let combos = combos.clone();
        u.push(Unit {
            label: format!("sources-{k}"),
            run: Box::new(move |c| {
                for m in combos.iter().skip(k).step_by(n) {
                    c.case(|| format!("parts {}", m.json()), || source_case(c, m));
                }
            }),
        });
    }
    // Builder histories: every sequence of set/reset calls up to a depth.
    let depth = if tier == Tier::Quick { 6 } else { 7 };
    let ops = builder_ops();
    for first in 0..ops.len() {
        for second in 0..ops.len() {
            let ops = builder_ops();
            u.push(Unit {
                label: format!("builder-{first}-{second}"),
                run: Box::new(move |c| {
                    let mut h = vec![first, second];
                    builder_histories(c, &ops, &mut h, depth);
                }),
            });
        }
    }
    // Operations from every well-formed state to every other: the results are well-formed.
    let states = Arc::new(well_formed(&Dom {
        acts: 1,
        art: pick(&ARTICLES, &[0, 2]),
        par: pick(&PARAGRAPHS, &[0, 1]),
        pt: pick(&POINTS, &[0, 2, 3, 5]),
        sub: pick(&SUBPOINTS, &[0, 4]),
        reversed: true,
    }));
    for k in 0..n {
        let states = states.clone();
        u.push(Unit {
            label: format!("closure-{k}"),
            run: Box::new(move |c| {
                let real: Vec<Reference> = states.iter().map(|m| build(m).unwrap()).collect();
                let known: HashMap<String, bool> =
                    states.iter().map(|m| (m.json().to_string(), m.well_formed())).collect();
                let ok = |what: &str, r: &Reference| -> Result<(), String> {
                    c.steps(1);
                    let j = read(r)?.to_string();
                    check!(known.get(&j) == Some(&true), "{what} gives {j}, which is not a well-formed reference over the labels used");
                    Ok(())
                };
                for (x, m) in real.iter().zip(states.iter()).skip(k).step_by(n) {
                    c.case(
                        || format!("operations on {}", m.json()),
                        || {
                            ok("parent", &x.parent())?;
                            ok("without_act", &x.without_act())?;
                            ok("first_in_range", &x.first_in_range())?;
                            ok("last_in_range", &x.last_in_range())?;
                            c.validated();
                            Ok(())
                        },
                    );
                    for (y, o) in real.iter().zip(states.iter()) {
                        c.case(
                            || format!("operations on {} and {}", m.json(), o.json()),
                            || {
                                if let Ok(r) = x.relative_to(y) {
                                    ok("relative_to", &r)?;
                                    c.outcome("resolved");
                                }
                                if let Ok(r) = Reference::make_range(x, y) {
                                    ok("make_range", &r)?;
                                    c.outcome("range made");
                                }
                                c.validated();
                                Ok(())
                            },
                        );
                    }
                }
            }),
        });
    }
    u
}

fn source_case(c: &Ctx, m: &M) -> Result<(), String> {
    let want = m.well_formed();
    let judge = |source: &str, r: Option<Reference>| -> Result<(), String> {
        c.steps(1);
        match r {
            Some(r) if want => same(source, &r, m),
            Some(r) => Err(format!("{source} accepts an ill-formed reference: {}", read(&r)?)),
            None if want => Err(format!("{source} rejects a well-formed reference")),
            None => Ok(()),
        }
    };
    judge("builder", build(m).ok())?;
    judge("JSON", serde_json::from_value(m.json()).ok())?;
    let text = m.json().to_string();
    judge("JSON text", serde_json::from_str(&text).ok())?;
    judge("YAML", serde_yaml::from_str(&text).ok())?;
    judge("compact form", Reference::from_compact_string(m.compact()).ok())?;
    c.validated();
    c.outcome(if want { "well-formed" } else { "ill-formed" });
    Ok(())
}

#[derive(Clone, Copy)]
enum BOp {
    Act(usize),
    Part(usize, (Lab, Lab)),
    Reset(usize),
}
fn builder_ops() -> Vec<BOp> {
    let mut v = vec![BOp::Act(0)];
    let tables: [&[Lab]; 4] = [&ARTICLES, &PARAGRAPHS, &POINTS, &SUBPOINTS];
    for (i, t) in tables.iter().enumerate() {
        v.push(BOp::Part(i, (t[0], t[0])));
        v.push(BOp::Part(i, (t[0], t[1])));
        if i >= 2 {
            v.push(BOp::Part(i, (t[4], t[4])));
        }
        v.push(BOp::Reset(i));
    }
    v
}
fn builder_histories(c: &Ctx, ops: &[BOp], h: &mut Vec<usize>, depth: usize) {
    c.case(
        || format!("builder history {:?}", h.iter().map(|i| show_op(&ops[*i])).collect::<Vec<_>>()),
        || {
            let mut b = ReferenceBuilder::new();
            let mut m = EMPTY;
            for i in h.iter() {
                c.steps(1);
                match ops[*i] {
                    BOp::Act(a) => {
                        b.set_part(act(a));
                        m = M { act: Some(a), ..EMPTY };
                    }
                    BOp::Part(l, p) => {
                        match l {
                            0 => b.set_part(r_art(p)),
                            1 => b.set_part(r_par(p)),
                            2 => b.set_part(r_pt(p)),
                            _ => b.set_part(r_sub(p)),
                        };
                        m.p[l] = Some(p);
                        m.p[l + 1..].fill(None);
                    }
                    BOp::Reset(l) => {
                        match l {
                            0 => b.reset_article(),
                            1 => b.reset_paragraph(),
                            2 => b.reset_point(),
                            _ => b.reset_subpoint(),
                        };
                        m.p[l..].fill(None);
                    }
                }
            }
            c.validated();
            match (b.build(), m.well_formed()) {
                (Ok(r), true) => same("built", &r, &m),
                (Err(_), false) => Ok(()),
                (Ok(r), false) => Err(format!("ill-formed reference built: {}", read(&r)?)),
                (Err(e), true) => Err(format!("well-formed reference refused: {e}")),
            }
        },
    );
    if h.len() < depth {
        for i in 0..ops.len() {
            h.push(i);
            builder_histories(c, ops, h, depth);
            h.pop();
        }
    }
}
fn show_op(o: &BOp) -> String {
    match o {
        BOp::Act(a) => format!("act {}", ACTS[*a].2),
        BOp::Part(l, (a, b)) => format!("part{l} {}..{}", a.text, b.text),
        BOp::Reset(l) => format!("reset{l}"),
    }
}

// ---- C04: text forms ---------------------------------------------------------------------
pub fn c04(tier: Tier) -> Vec<Unit<'static>> {
    let refs = Arc::new(well_formed(&dom(tier, false)));
    let n = 64;
    let mut u: Vec<Unit> = (0..n)
        .map(|k| {
            let refs = refs.clone();
            Unit {
                label: format!("forms-{k}"),
                run: Box::new(move |c: &Ctx| {
                    for m in refs.iter().skip(k).step_by(n) {
                        c.case(|| format!("reference {}", m.json()), || form_case(c, m));
                    }
                }),
            }
        })
        .collect();
    let refs2 = refs.clone();
    u.push(Unit {
        label: "distinct".into(),
        run: Box::new(move |c| {
            // Different references are never written the same way.
            let mut compact: HashMap<String, M> = HashMap::new();
            let mut cite: HashMap<String, M> = HashMap::new();
            for m in refs2.iter() {
                c.case(
                    || format!("text of {} against all others", m.json()),
                    || {
                        let r = build(m).map_err(|e| e.to_string())?;
                        if let Some(o) = compact.insert(r.compact_string().to_string(), *m) {
                            return Err(format!("same compact form as {}", o.json()));
                        }
                        if let Some(o) = cite.insert(r.to_string(), *m) {
                            return Err(format!("same citation {r} as {}", o.json()));
                        }
                        c.steps(2);
                        c.validated();
                        Ok(())
                    },
                );
            }
        }),
    });
    u
}
fn form_case(c: &Ctx, m: &M) -> Result<(), String> {
    let r = build(m).map_err(|e| e.to_string())?;
    differ("citation", &r.to_string(), &m.cite())?;
    differ("compact form", &r.compact_string().to_string(), &m.compact())?;
    let b = Reference::from_compact_string(m.compact()).map_err(|e| format!("compact form rejected: {e}"))?;
    check!(b == r, "compact form read back as {b:?}");
    let j = serde_json::to_string(&r).map_err(|e| e.to_string())?;
    same("JSON", &r, m)?;
    let b: Reference = serde_json::from_str(&j).map_err(|e| format!("JSON rejected: {e}"))?;
    check!(b == r, "JSON read back as {b:?}");
    let y = serde_yaml::to_string(&r).map_err(|e| e.to_string())?;
    let b: Reference = serde_yaml::from_str(&y).map_err(|e| format!("YAML rejected: {e}"))?;
    check!(b == r, "YAML read back as {b:?}");
    c.steps(7);
    c.validated();
    c.outcome(match m.last() {
        None => "act or empty",
        Some(0) => "article",
        Some(1) => "paragraph",
        Some(2) => "point",
        _ => "subpoint",
    });
    Ok(())
}

// ---- C05: containment; C06: operations ---------------------------------------------------
fn pairs(tier: Tier, f: fn(&Ctx, (&M, &Reference), (&M, &Reference)) -> Result<(), String>) -> Vec<Unit<'static>> {
    let refs = Arc::new(well_formed(&dom(tier, true)));
    let n = 256;
    (0..n)
        .map(|k| {
            let refs = refs.clone();
            Unit {
                label: format!("pairs-{k}"),
                run: Box::new(move |c: &Ctx| {
                    let real: Vec<Reference> = refs.iter().map(|m| build(m).unwrap()).collect();
                    for (m, x) in refs.iter().zip(&real).skip(k).step_by(n) {
                        for (o, y) in refs.iter().zip(&real) {
                            c.case(
                                || format!("{} | {}", m.compact(), o.compact()),
                                || f(c, (m, x), (o, y)),
                            );
                        }
                    }
                }),
            }
        })
        .collect()
}
pub fn c05(tier: Tier) -> Vec<Unit<'static>> {
    pairs(tier, |c, (m, x), (o, y)| {
        c.steps(2);
        c.validated();
        let want = m.contains(o);
        let parent = m.is_parent_of(o);
        c.outcome(if parent {
            "parent"
        } else if want {
            "contains"
        } else {
            "neither"
        });
        differ("contains", &x.contains(y), &want)?;
        differ("is_parent_of", &x.is_parent_of(y), &parent)?;
        // Structural order: equality and order agree.
        check!((x == y) == (m == o), "equality");
        Ok(())
    })
}
pub fn c06(tier: Tier) -> Vec<Unit<'static>> {
    let mut u = pairs(tier, |c, (m, x), (o, y)| {
        c.steps(2);
        c.validated();
        let judge = |what: &str, got: anyhow::Result<Reference>, want: Option<M>| -> Result<(), String> {
            match (got, want) {
                (Ok(r), Some(w)) => {
                    let w2 = build(&w).map_err(|e| e.to_string())?;
                    check!(r == w2, "{what}: got {}, the model says {}", r.compact_string(), w.compact());
                    Ok(())
                }
                (Err(_), None) => Ok(()),
                (Ok(r), None) => Err(format!("{what}: got {}, the model refuses", r.compact_string())),
                (Err(e), Some(w)) => Err(format!("{what}: refused ({e}), the model says {}", w.compact())),
            }
        };
        let want = m.relative_to(o);
        c.outcome(if want.is_some() { "resolves" } else { "does not resolve" });
        judge("relative_to", x.relative_to(y), want)?;
        let want = M::make_range(m, o);
        c.outcome(if want.is_some() { "range" } else { "no range" });
        judge("make_range", Reference::make_range(x, y), want)
    });
    let refs = Arc::new(well_formed(&dom(tier, false)));
    let n = 32;
    for k in 0..n {
        let refs = refs.clone();
        u.push(Unit {
            label: format!("single-{k}"),
            run: Box::new(move |c: &Ctx| {
                for m in refs.iter().skip(k).step_by(n) {
                    c.case(
                        || format!("reference {}", m.json()),
                        || {
                            let r = build(m).map_err(|e| e.to_string())?;
                            same("parent", &r.parent(), &m.parent())?;
                            same("without_act", &r.without_act(), &m.without_act())?;
                            same("first_in_range", &r.first_in_range(), &m.ends(true))?;
                            same("last_in_range", &r.last_in_range(), &m.ends(false))?;
                            differ("get_last_part", &r.get_last_part(), &last_part(m))?;
                            let l = r.get_last_part();
                            let k = last_part(m);
                            differ("last act", &l.act(), &(if let AnyReferencePart::Act(x) = k { Some(x) } else { None }))?;
                            differ("last article", &l.article(), &(if let AnyReferencePart::Article(x) = k { Some(x) } else { None }))?;
                            differ("last paragraph", &l.paragraph(), &(if let AnyReferencePart::Paragraph(x) = k { Some(x) } else { None }))?;
                            differ("last numeric point", &l.numeric_point(), &(if let AnyReferencePart::Point(RefPartPoint::Numeric(x)) = k { Some(x) } else { None }))?;
                            differ("last alphabetic point", &l.alphabetic_point(), &(if let AnyReferencePart::Point(RefPartPoint::Alphabetic(x)) = k { Some(x) } else { None }))?;
                            differ("last numeric subpoint", &l.numeric_subpoint(), &(if let AnyReferencePart::Subpoint(RefPartSubpoint::Numeric(x)) = k { Some(x) } else { None }))?;
                            differ("last alphabetic subpoint", &l.alphabetic_subpoint(), &(if let AnyReferencePart::Subpoint(RefPartSubpoint::Alphabetic(x)) = k { Some(x) } else { None }))?;
                            differ("act", &r.act(), &m.act.map(act))?;
                            differ("article", &r.article(), &m.p[0].map(r_art))?;
                            differ("is_act_only", &r.is_act_only(), &m.p[0].is_none())?;
                            if let (Some(a), None) = (m.act, m.last()) {
                                check!(Reference::from(act(a)) == r, "from act");
                            }
                            if m.last() == Some(0) {
                                let p = r_art(m.p[0].unwrap());
                                let f = match m.act {
                                    Some(a) => Reference::from((act(a), p)),
                                    None => Reference::from(p),
                                };
                                check!(f == r, "from article");
                            }
                            c.steps(9);
                            c.validated();
                            Ok(())
                        },
                    );
                }
            }),
        });
    }
    u
}
