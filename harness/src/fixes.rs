//! C19: fixups change exactly the line meant, to exactly the text meant.
use crate::{
    check,
    choose::sizes,
    core::{Ctx, Tier, Unit},
    doc,
};
use hun_law::{
    fixups::{Fixup, Fixups},
    util::indentedline::{IndentedLine, IndentedLinePart},
};

type Chars = Vec<(f64, char, bool)>;

fn chars_of(l: &IndentedLine) -> Chars {
    let text: Vec<char> = l.content().chars().collect();
    text.iter().enumerate().map(|(i, c)| (l.indent_at(i as i64), *c, l.slice(i as i64, Some(i as i64 + 1)).is_bold())).collect()
}
fn make(s: &str, bold: u32, indent: f64, just: bool) -> IndentedLine {
    let steps = [5.0, 2.0, 7.5, 3.0];
    IndentedLine::from_parts(
        s.chars()
            .enumerate()
            .map(|(i, c)| IndentedLinePart { dx: if i == 0 { indent } else { steps[i % 4] }, content: c, bold: bold >> i.min(31) & 1 == 1 })
            .collect(),
        just,
    )
}

/// What replacing the line's text may do to it.
fn judge_line(old: &IndentedLine, new: &str, set_bold: bool, got: &IndentedLine) -> Result<(), String> {
    check!(got.content() == new, "the text became {:?}", got.content());
    let (o, g) = (chars_of(old), chars_of(got));
    let n: Vec<char> = new.chars().collect();
    check!(g.len() == n.len() && got.len() == n.len(), "{} characters", got.len());
    let prefix = o.iter().zip(&n).take_while(|(a, b)| a.1 == **b).count();
    let suffix = o[prefix..].iter().rev().zip(n[prefix..].iter().rev()).take_while(|(a, b)| a.1 == **b).count();
    let uniform = o.first().map(|f| f.2).filter(|b| o.iter().all(|c| c.2 == *b));
    for (i, c) in g.iter().enumerate() {
        let kept = if i < prefix {
            Some(&o[i])
        } else if i >= n.len() - suffix {
            Some(&o[o.len() - (n.len() - i)])
        } else {
            None
        };
        if let Some(k) = kept {
            check!((k.0 - c.0).abs() < 1e-6, "kept character {i} moved from {} to {}", k.0, c.0);
            check!(c.2 == (k.2 || set_bold), "kept character {i} changed its boldness");
        } else {
            check!(!set_bold || c.2, "character {i} is not bold");
            if let (Some(u), false) = (uniform, set_bold) {
                check!(c.2 == u, "new character {i} is not like the line");
            }
        }
        if i > 0 {
            check!(g[i - 1].0 <= c.0 + 1e-6, "character {i} stands before the one preceding it: {:?}", g);
        }
    }
    if prefix == 0 && suffix == 0 && !n.is_empty() && !o.is_empty() {
        check!((g[0].0 - o[0].0).abs() < 1e-6, "the replaced line moved from {} to {}", o[0].0, g[0].0);
    }
    if suffix > 0 {
        check!(got.is_justified() == old.is_justified(), "justification changed");
    }
    check!(got.is_bold() == (g.iter().filter(|c| c.2).count() * 3 > g.len() * 2), "boldness is not that of the characters");
    Ok(())
}

fn strings(alphabet: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut i = 0;
    while i < out.len() {
        if out[i].chars().count() < max {
            for c in alphabet {
                let s = format!("{}{c}", out[i]);
                out.push(s);
            }
        }
        i += 1;
    }
    out
}

fn single(c: &Ctx, old: &str, max_new: usize) {
    let n = old.chars().count() as u32;
    for new in strings(&['a', 'é', ' ', 'x'], max_new) {
        // Lines are trimmed.
        if new.trim() != new {
            continue;
        }
        for bold in 0..1u32 << n {
            for just in [false, true] {
                for set_bold in [false, true] {
                    for indent in [0.0, 31.5] {
                        c.case(
                            || format!("'{old}' -> '{new}' (bold characters {bold:b}, justified {just}, set_bold {set_bold}, indent {indent})"),
                            || {
                                let line = make(old, bold, indent, just);
                                let before = doc::line(20.0, "előtte", false, true);
                                let mut lines = vec![before.clone(), line.clone(), doc::line(20.0, "utána", true, false)];
                                c.steps(1);
                                c.validated();
                                let f = Fixup { after: vec![], old: old.into(), new: new.clone(), set_bold };
                                let r = f.apply(&mut lines);
                                let untouched = lines.len() == 3
                                    && lines[0].content() == "előtte"
                                    && lines[2].content() == "utána"
                                    && !lines[0].is_bold()
                                    && lines[2].is_bold();
                                check!(untouched, "other lines changed");
                                if old == new && !set_bold {
                                    check!(r.is_err(), "a fixup that changes nothing was accepted");
                                    return Ok(());
                                }
                                r.map_err(|e| format!("refused: {e:#}"))?;
                                judge_line(&line, &new, set_bold, &lines[1])
                            },
                        );
                    }
                }
            }
        }
    }
}

/// Lines over a small alphabet, and every fixup of up to `ctx` lines of context.
fn places(c: &Ctx, body: &[&'static str], ctx: usize) {
    const TEXTS: [&str; 4] = ["", "a", "b", "a b"];
    let mut afters: Vec<Vec<&str>> = vec![vec![]];
    let mut i = 0;
    while i < afters.len() {
        if afters[i].len() < ctx {
            for t in TEXTS {
                let mut a = afters[i].clone();
                a.push(t);
                afters.push(a);
            }
        }
        i += 1;
    }
    for after in &afters {
        for old in TEXTS {
            for (new, set_bold) in [("új", false), ("", false), ("b", false), (old, true)] {
                c.case(
                    || format!("lines {body:?}, fixup of '{old}' after {after:?} to '{new}' (set_bold {set_bold})"),
                    || {
                        let lines: Vec<IndentedLine> = body.iter().enumerate().map(|(i, t)| make(t, 0, 20.0 + i as f64, true)).collect();
                        let mut got = lines.clone();
                        let f = Fixup {
                            after: after.iter().map(|s| s.to_string()).collect(),
                            old: old.into(),
                            new: new.into(),
                            set_bold,
                        };
                        c.steps(1);
                        c.validated();
                        let r = f.apply(&mut got);
                        let n = after.len() + 1;
                        let places: Vec<usize> = (n..=body.len())
                            .filter(|end| body[end - n..end - 1] == after[..] && body[end - 1] == old)
                            .map(|end| end - 1)
                            .collect();
                        check!(got.len() == lines.len(), "{} lines", got.len());
                        let ok = places.len() == 1 && (old != new || set_bold);
                        check!(r.is_ok() == ok, "the text is there {} times, and the result is {:?}", places.len(), r.map_err(|e| e.to_string()));
                        for (i, (g, o)) in got.iter().zip(&lines).enumerate() {
                            if ok && i == places[0] {
                                judge_line(o, new, set_bold, g)?;
                            } else {
                                check!(
                                    g.content() == o.content() && g.is_bold() == o.is_bold() && g.is_justified() == o.is_justified(),
                                    "line {i} changed to {:?}",
                                    g.content()
                                );
                                check!(g.indent() == o.indent(), "line {i} moved");
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// Long contexts: every window of every body over two texts (and each window with one line of it
/// changed), of any length.
fn long_contexts(c: &Ctx, n: usize, bits: u32) {
    let body: Vec<&str> = (0..n).map(|i| ["a", "b"][(bits >> i & 1) as usize]).collect();
    for start in 0..n {
        for end in start..n {
            for changed in 0..=end - start + 1 {
                let mut w: Vec<&str> = body[start..=end].to_vec();
                if changed > 0 {
                    w[changed - 1] = if w[changed - 1] == "a" { "b" } else { "a" };
                }
                c.case(
                    || format!("lines {body:?}, fixup of {:?} after {:?}", w[w.len() - 1], &w[..w.len() - 1]),
                    || {
                        let places: Vec<usize> = (w.len()..=n).filter(|e| body[e - w.len()..*e] == w[..]).map(|e| e - 1).collect();
                        let mut got: Vec<IndentedLine> = body.iter().map(|t| make(t, 0, 20.0, true)).collect();
                        let f = Fixup {
                            after: w[..w.len() - 1].iter().map(|s| s.to_string()).collect(),
                            old: w[w.len() - 1].into(),
                            new: "új".into(),
                            set_bold: false,
                        };
                        c.steps(1);
                        c.validated();
                        let r = f.apply(&mut got);
                        check!(r.is_ok() == (places.len() == 1), "the text is there {} times, and the result is {:?}", places.len(), r.map_err(|e| e.to_string()));
                        for (i, g) in got.iter().enumerate() {
                            let want = if places == [i] { "új" } else { body[i] };
                            check!(g.content() == want, "line {i} became {:?} instead of {want:?}", g.content());
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

/// Every list of `depth` fixups, applied in order through `Fixups`.
fn histories(c: &Ctx, body: &[&'static str], depth: usize) {
    const TEXTS: [&str; 3] = ["", "a", "b"];
    let mut menu: Vec<Fixup> = vec![];
    for after in [vec![], vec![""], vec!["a"], vec!["b"]] {
        for old in TEXTS {
            for (new, set_bold) in [("", false), ("a", false), ("b", false), (old, true), ("c", true)] {
                menu.push(Fixup { after: after.iter().map(|s: &&str| s.to_string()).collect(), old: old.into(), new: new.into(), set_bold });
            }
        }
    }
    let id = hun_law::identifier::ActIdentifier { year: 2012, number: 1 };
    let mut list = vec![0usize; depth];
    loop {
        c.case(
            || format!("lines {body:?}, fixups {:?}", list.iter().map(|i| &menu[*i]).collect::<Vec<_>>()),
            || {
                let mut want: Vec<(String, bool)> = body.iter().map(|t| (t.to_string(), false)).collect();
                let mut ok = true;
                for i in &list {
                    let f = &menu[*i];
                    let n = f.after.len() + 1;
                    let places: Vec<usize> = (n..=want.len())
                        .filter(|end| (0..n - 1).all(|k| want[end - n + k].0 == f.after[k]) && want[end - 1].0 == f.old)
                        .map(|end| end - 1)
                        .collect();
                    ok = places.len() == 1 && (f.old != f.new || f.set_bold);
                    if !ok {
                        break;
                    }
                    let w = &mut want[places[0]];
                    *w = (f.new.clone(), !f.new.is_empty() && (w.1 || f.set_bold));
                }
                let mut fixups = Fixups::load_from(id, "/nonexistent-fixups".into()).map_err(|e| format!("{e:#}"))?;
                for i in &list {
                    fixups.add(menu[*i].clone());
                }
                let mut got: Vec<IndentedLine> = body.iter().enumerate().map(|(i, t)| make(t, 0, 20.0 + i as f64, true)).collect();
                c.steps(depth as u64);
                c.validated();
                let r = fixups.apply(&mut got);
                check!(r.is_ok() == ok, "the result is {:?}", r.map_err(|e| e.to_string()));
                if ok {
                    c.outcome("applied");
                    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                        check!(g.content() == w.0, "line {i} became {:?} instead of {:?}", g.content(), w.0);
                        check!(g.is_bold() == w.1, "line {i} became {}bold", if g.is_bold() { "" } else { "not " });
                    }
                    check!(got.len() == want.len(), "{} lines", got.len());
                } else {
                    c.outcome("refused");
                }
                Ok(())
            },
        );
        let mut i = 0;
        while i < depth {
            list[i] += 1;
            if list[i] < menu.len() {
                break;
            }
            list[i] = 0;
            i += 1;
        }
        if i == depth {
            return;
        }
    }
}

/// A document of `n` lines, and fixups near its beginning, middle and end with contexts of every kind
/// of length; the text is there once or, with another context, twice.
fn long_document(c: &Ctx, n: usize) {
    let mut positions = vec![0, 1, n / 3, n / 2, n.saturating_sub(2), n - 1];
    positions.retain(|p| *p < n);
    positions.dedup();
    for &p in &positions {
        let mut lengths = vec![0, 1, 2, 5, 9, 10, 17, 64, p];
        lengths.retain(|l| *l <= p);
        lengths.sort();
        lengths.dedup();
        for &l in &lengths {
            for twin in positions.iter().copied().filter(|q| *q != p).map(Some).chain([None]) {
                // How far from the end the context of the twin is different.
                for apart in [0, 1, 2, l] {
                    if apart > l || (twin.is_none() && apart > 0) {
                        continue;
                    }
                    c.case(
                        || format!("{n} lines, fixup of line {p} after {l} lines, its text is also at {twin:?} with {apart} lines of the same context"),
                        || {
                            let mut body: Vec<String> = (0..n).map(|i| format!("{i}. sor")).collect();
                            if let Some(q) = twin {
                                for k in 0..=apart.min(q).min(p) {
                                    // The original is written last, so that it is whole.
                                    body[q - k] = body[p - k].clone();
                                }
                                for k in 0..=l {
                                    body[p - k] = format!("{}. sor", p - k);
                                }
                            }
                            let mut w: Vec<String> = body[p - l..=p].to_vec();
                            let places: Vec<usize> = (l..n).filter(|e| body[e - l..=*e] == w[..]).collect();
                            let old = w.pop().unwrap();
                            let mut got: Vec<IndentedLine> = body.iter().map(|t| make(t, 0, 20.0, true)).collect();
                            c.steps(1);
                            c.validated();
                            let r = Fixup { after: w, old: old.clone(), new: format!("{old} új"), set_bold: false }.apply(&mut got);
                            check!(r.is_ok() == (places.len() == 1), "the text is there {} times, and the result is {:?}", places.len(), r.map_err(|e| e.to_string()));
                            check!(got.len() == n, "{} lines", got.len());
                            for (i, (g, b)) in got.iter().zip(&body).enumerate() {
                                if places == [i] {
                                    judge_line(&make(b, 0, 20.0, true), &format!("{old} új"), false, g)?;
                                } else {
                                    check!(g.content() == b, "line {i} became {:?} instead of {b:?}", g.content());
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}

/// A line of `n` characters changed near its beginning, middle and end.
fn long_line(c: &Ctx, n: usize) {
    let letters: Vec<char> = "abcő defű ghíj klm".chars().collect();
    let mut old: Vec<char> = (0..n).map(|i| letters[i % letters.len()]).collect();
    old[n - 1] = 'z';
    let text = |v: &[char]| v.iter().collect::<String>();
    let mut news: Vec<String> = vec!["új".into(), format!("{0}{0}", text(&old)), format!("Új{}", text(&old)), format!("{}új", text(&old)), "Q".repeat(n), String::new()];
    for p in [0, 1, n / 3, n / 2, n.saturating_sub(2), n - 1] {
        for removed in [0, 1, 2, n / 2, n] {
            for inserted in ["", "Q", "QÁ", "QRSTUVWXYZQRSTUVWXYZQRSTUVWXYZ"] {
                let (a, b) = (p.min(n), (p + removed).min(n));
                news.push(format!("{}{inserted}{}", text(&old[..a]), text(&old[b..])));
            }
        }
    }
    let old = text(&old);
    news.retain(|x| x.trim() == x);
    news.sort();
    news.dedup();
    for new in news {
        for (bold, just, set_bold) in [(0, true, false), (u32::MAX, false, false), (0, false, true), (0b1010, true, false)] {
            c.case(
                || format!("{n} characters '{old}' -> '{new}' (bold characters {bold:b}, justified {just}, set_bold {set_bold})"),
                || {
                    let line = make(&old, bold, 20.0, just);
                    let mut lines = vec![line.clone()];
                    c.steps(1);
                    c.validated();
                    let r = Fixup { after: vec![], old: old.clone(), new: new.clone(), set_bold }.apply(&mut lines);
                    if old == new && !set_bold {
                        check!(r.is_err(), "a fixup that changes nothing was accepted");
                        return Ok(());
                    }
                    r.map_err(|e| format!("refused: {e:#}"))?;
                    judge_line(&line, &new, set_bold, &lines[0])
                },
            );
        }
    }
}

/// `n` fixups: of a line each, or all of the same line one after another; stored and loaded.
fn many_fixups(c: &Ctx, n: usize) {
    for chain in [false, true] {
        for bad in [None, Some(0), Some(n / 2), Some(n - 1)] {
            c.case(
                || format!("{n} fixups of {}, of which {bad:?} is wrong", if chain { "a line" } else { "a line each" }),
                || {
                    let mut body: Vec<String> = (0..n + 2).map(|i| format!("{i}. sor")).collect();
                    let id = hun_law::identifier::ActIdentifier { year: 2012, number: 1 };
                    let dir = crate::scratch::Dir::new();
                    let mut fixups = Fixups::load_from(id, dir.0.clone()).map_err(|e| format!("{e:#}"))?;
                    for i in 0..n {
                        let (at, old, new) = if chain {
                            (1, if i == 0 { "1. sor".into() } else { format!("{}. szöveg", i - 1) }, format!("{i}. szöveg"))
                        } else {
                            (i + 1, format!("{}. sor", i + 1), format!("{i}. szöveg"))
                        };
                        let old = if bad == Some(i) { "nincs".to_string() } else { old };
                        fixups.add(Fixup { after: vec![body[at - 1].clone()], old, new: new.clone(), set_bold: false });
                        body[at] = new;
                    }
                    fixups.save().map_err(|e| format!("{e:#}"))?;
                    let loaded = Fixups::load_from(id, dir.0.clone()).map_err(|e| format!("{e:#}"))?;
                    c.steps(n as u64);
                    c.validated();
                    for (what, f) in [("added", fixups), ("loaded", loaded)] {
                        let mut got: Vec<IndentedLine> = (0..n + 2).map(|i| make(&format!("{i}. sor"), 0, 20.0, true)).collect();
                        let r = f.apply(&mut got);
                        check!(r.is_ok() == bad.is_none(), "{what}: the result is {:?}", r.map_err(|e| e.to_string()));
                        if r.is_ok() {
                            for (i, (g, b)) in got.iter().zip(&body).enumerate() {
                                check!(g.content() == b, "{what}: line {i} became {:?} instead of {b:?}", g.content());
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

pub fn c19(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    let mut u: Vec<Unit> = vec![];
    for old in strings(&['a', 'é', ' '], if t { 5 } else { 4 }) {
        if old.trim() != old {
            continue;
        }
        u.push(Unit { label: format!("line-'{old}'"), run: Box::new(move |c| single(c, &old, if t { 6 } else { 5 })) });
    }
    fn bodies(n: usize) -> Vec<Vec<&'static str>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = vec![];
        for b in bodies(n - 1) {
            for t in ["", "a", "b"] {
                let mut b = b.clone();
                b.push(t);
                out.push(b);
            }
        }
        out
    }
    for n in 0..=if t { 8 } else { 6 } {
        for (i, chunk) in bodies(n).chunks(9).enumerate() {
            let chunk = chunk.to_vec();
            u.push(Unit {
                label: format!("places-{n}-{i}"),
                run: Box::new(move |c| {
                    for b in &chunk {
                        places(c, b, if t { 4 } else { 3 });
                    }
                }),
            });
        }
    }
    for n in 1..=if t { 14 } else { 11 } {
        for first in (0..1u32 << n).step_by(64) {
            u.push(Unit {
                label: format!("contexts-{n}-{first}"),
                run: Box::new(move |c| {
                    for bits in first..(first + 64).min(1 << n) {
                        long_contexts(c, n, bits);
                    }
                }),
            });
        }
    }
    for n in 0..=if t { 5 } else { 4 } {
        for b in bodies(n) {
            for depth in 1..=if n <= if t { 4 } else { 3 } { 3 } else { 2 } {
                let b = b.clone();
                u.push(Unit { label: format!("history-{depth}-{b:?}"), run: Box::new(move |c| histories(c, &b, depth)) });
            }
        }
    }
    for n in sizes(2000) {
        u.push(Unit { label: format!("document-{n}"), run: Box::new(move |c| long_document(c, n)) });
    }
    for n in sizes(512) {
        u.push(Unit { label: format!("characters-{n}"), run: Box::new(move |c| long_line(c, n)) });
    }
    for n in sizes(400) {
        u.push(Unit { label: format!("fixups-{n}"), run: Box::new(move |c| many_fixups(c, n)) });
    }
    u
}
