//! C07: the algebra of lines (text with positions, boldness and justification).
use crate::{
    choose::sizes,
    core::{differ, Ctx, Tier, Unit},
};
use hun_law::util::indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE};

/// The model of a line: characters at absolute positions.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct ML {
    pub ch: Vec<(f64, char, bool)>,
    pub justified: bool,
}
impl ML {
    fn real(&self) -> IndentedLine {
        let mut x = 0.0;
        let parts = self
            .ch
            .iter()
            .map(|(px, c, b)| {
                let p = IndentedLinePart { dx: px - x, content: *c, bold: *b };
                x = *px;
                p
            })
            .collect();
        IndentedLine::from_parts(parts, self.justified)
    }
    fn text(&self) -> String {
        self.ch.iter().map(|c| c.1).collect()
    }
    fn bold(&self) -> bool {
        // more than two thirds of the characters
        self.ch.iter().filter(|c| c.2).count() * 3 > self.ch.len() * 2
    }
    fn slice(&self, from: usize, to: usize) -> ML {
        let n = self.ch.len();
        if from >= to {
            return ML::default();
        }
        ML { ch: self.ch[from..to].to_vec(), justified: self.justified && to == n }
    }
    fn index(&self, i: i64) -> usize {
        let n = self.ch.len() as i64;
        let i = if i < 0 { n + i } else { i };
        i.max(0).min(n) as usize
    }
    fn concat(ls: &[ML]) -> ML {
        ML {
            ch: ls.iter().flat_map(|l| l.ch.iter().copied()).collect(),
            justified: ls.iter().rev().find(|l| !l.ch.is_empty()).map_or(false, |l| l.justified),
        }
    }
}
/// Everything observable of a line.
pub fn same(what: &str, l: &IndentedLine, m: &ML) -> Result<(), String> {
    differ(&format!("{what}: text"), &l.content(), &m.text().as_str())?;
    differ(&format!("{what}: length"), &l.len(), &m.ch.len())?;
    differ(&format!("{what}: is_empty"), &l.is_empty(), &m.ch.is_empty())?;
    differ(&format!("{what}: justified"), &l.is_justified(), &m.justified)?;
    differ(&format!("{what}: bold"), &l.is_bold(), &m.bold())?;
    differ(&format!("{what}: indent"), &l.indent(), &m.ch.first().map_or(0.0, |c| c.0))?;
    for (i, c) in m.ch.iter().enumerate() {
        differ(&format!("{what}: position of character {i}"), &l.indent_at(i as i64), &c.0)?;
        let one = l.slice(i as i64, Some(i as i64 + 1));
        differ(&format!("{what}: boldness of character {i}"), &one.is_bold(), &c.2)?;
        differ(&format!("{what}: negative index of character {i}"), &l.indent_at(i as i64 - m.ch.len() as i64), &c.0)?;
    }
    Ok(())
}

fn lines_of(len: usize, chars: &[char], f: &mut dyn FnMut(&ML), cur: &mut ML) {
    if cur.ch.len() == len {
        // An empty line has no justification.
        for j in [false, true] {
            if j && len == 0 {
                continue;
            }
            cur.justified = j;
            f(cur);
        }
        return;
    }
    let x = cur.ch.last().map_or(0.0, |c| c.0);
    for c in chars {
        for b in [false, true] {
            for dx in [5.0, 8.0] {
                cur.ch.push((x + dx, *c, b));
                lines_of(len, chars, f, cur);
                cur.ch.pop();
            }
        }
    }
}

fn slice_case(c: &Ctx, m: &ML) {
    c.case(
        || format!("{m:?}"),
        || {
            let l = m.real();
            same("line", &l, m)?;
            let n = m.ch.len() as i64;
            let mut k = 1;
            for from in -n - 2..=n + 2 {
                same("open slice", &l.slice(from, None), &m.slice(m.index(from), n as usize))?;
                for to in -n - 2..=n + 2 {
                    let want = m.slice(m.index(from), m.index(to));
                    same(&format!("slice({from}, {to})"), &l.slice(from, Some(to)), &want)?;
                    k += 1;
                }
            }
            let text = m.text();
            let cuts: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
            for (i, a) in cuts.iter().enumerate() {
                same("open byte slice", &l.slice_bytes(*a, None), &m.slice(i, n as usize))?;
                for (j, b) in cuts.iter().enumerate() {
                    same(&format!("slice_bytes({a}, {b})"), &l.slice_bytes(*a, Some(*b)), &m.slice(i, j))?;
                    k += 1;
                }
                same("byte slice past the end", &l.slice_bytes(*a, Some(text.len() + 3)), &m.slice(i, n as usize))?;
                // Cutting anywhere and joining again gives the line back.
                let (p, q) = (l.slice(0, Some(i as i64)), l.slice(i as i64, None));
                same(&format!("cut at {i} and joined"), &IndentedLine::from_multiple(&[&p, &q]), m)?;
                same("joined with empty lines", &IndentedLine::from_multiple(&[&EMPTY_LINE, &p, &EMPTY_LINE, &q, &EMPTY_LINE]), m)?;
                k += 4;
            }
            if n > 0 {
                let mut b = m.clone();
                b.ch.iter_mut().for_each(|c| c.2 = true);
                same("as_bold", &l.as_bold(), &b)?;
            }
            let j = serde_json::to_string(&l).map_err(|e| e.to_string())?;
            let back: IndentedLine = serde_json::from_str(&j).map_err(|e| e.to_string())?;
            same("serialized and read back", &back, m)?;
            let ind = m.ch.first().map_or(0.0, |c| c.0);
            for d in [-10.0, -1.5, -0.5, 0.0, 0.5, 10.0] {
                // "not more indented", within one point
                let want = ind < ind + d + 1.0;
                differ("indent_less_or_eq", &l.indent_less_or_eq(ind + d), &want)?;
            }
            c.steps(k);
            c.validated();
            c.outcome(if m.bold() { "bold" } else { "not bold" });
            Ok(())
        },
    );
}

fn join_model(words: &[&str]) -> String {
    let mut s = String::new();
    for w in words {
        if !w.is_empty() && !s.is_empty() {
            let glue = s.ends_with('-') && !w.starts_with("és ") && !w.starts_with("vagy ");
            if !glue {
                s.push(' ');
            }
        }
        s.push_str(w);
    }
    s
}
pub fn plain(s: &str) -> IndentedLine {
    IndentedLine::from_parts(
        s.chars().map(|c| IndentedLinePart { dx: 5.0, content: c, bold: false }).collect(),
        true,
    )
}

/// A line of `n` characters, of which those of a part are bold.
fn long_lines(c: &Ctx, n: usize) {
    let letters: Vec<char> = "aé„bc ő”dűx".chars().collect();
    let bolds = [(0, 0), (0, n), (0, 1), (n - 1, n), (0, n / 2), (0, n * 2 / 3), (0, n * 2 / 3 + 1), (n / 3, n), (n - n * 2 / 3, n), (n / 4, n - n / 4)];
    for (from, to) in bolds {
        for justified in [false, true] {
            let m = ML {
                ch: (0..n).map(|i| (20.0 + 5.0 * i as f64 + (i % 3) as f64, letters[i % letters.len()], (from..to).contains(&i))).collect(),
                justified,
            };
            c.case(
                || format!("a line of {n} characters, those from {from} to {to} bold, justified {justified}"),
                || {
                    let l = m.real();
                    same("line", &l, &m)?;
                    let k = n as i64;
                    let mut cuts: Vec<i64> = vec![0, 1, 2, k / 3, k / 2, k - 2, k - 1, k, k + 1, 10_000, 1 << 40];
                    cuts.extend(cuts.clone().iter().map(|c| -c));
                    for &a in &cuts {
                        same("open slice", &l.slice(a, None), &m.slice(m.index(a), n))?;
                        for &b in &cuts {
                            let (x, y) = (m.index(a), m.index(b));
                            let g = l.slice(a, Some(b));
                            let w = m.slice(x, y);
                            differ(&format!("slice({a}, {b}): text"), &g.content(), &w.text().as_str())?;
                            differ(&format!("slice({a}, {b}): length"), &g.len(), &w.ch.len())?;
                            differ(&format!("slice({a}, {b}): indent"), &g.indent(), &w.ch.first().map_or(0.0, |c| c.0))?;
                            differ(&format!("slice({a}, {b}): bold"), &g.is_bold(), &w.bold())?;
                            differ(&format!("slice({a}, {b}): justified"), &g.is_justified(), &w.justified)?;
                        }
                        let i = m.index(a);
                        let (p, q) = (l.slice(0, Some(i as i64)), l.slice(i as i64, None));
                        same(&format!("cut at {i} and joined"), &IndentedLine::from_multiple(&[&p, &q]), &m)?;
                        let bytes: usize = m.ch[..i].iter().map(|c| c.1.len_utf8()).sum();
                        same(&format!("bytes from {bytes}"), &l.slice_bytes(bytes, None), &m.slice(i, n))?;
                        same(&format!("bytes to {bytes}"), &l.slice_bytes(0, Some(bytes)), &m.slice(0, i))?;
                    }
                    let mut b = m.clone();
                    b.ch.iter_mut().for_each(|c| c.2 = true);
                    same("as_bold", &l.as_bold(), &b)?;
                    let j = serde_json::to_string(&l).map_err(|e| e.to_string())?;
                    let back: IndentedLine = serde_json::from_str(&j).map_err(|e| e.to_string())?;
                    same("serialized and read back", &back, &m)?;
                    // Every character a line of its own
                    let ones: Vec<IndentedLine> = (0..k).map(|i| l.slice(i, Some(i + 1))).collect();
                    same("cut to characters and joined", &IndentedLine::from_multiple(&ones.iter().collect::<Vec<_>>()), &m)?;
                    c.steps(cuts.len() as u64);
                    c.validated();
                    Ok(())
                },
            );
        }
    }
    let words = ["szöveg", "szó-", "és vége", "vagy", "", "köz-", "igaz-", "vagy más", "a"];
    for shift in 0..words.len() {
        c.case(
            || format!("{n} lines joined, from {:?} on", words[shift]),
            || {
                let ws: Vec<&str> = (0..n).map(|i| words[(i + shift) % words.len()]).collect();
                let ls: Vec<IndentedLine> = ws.iter().map(|w| plain(w)).collect();
                c.steps(n as u64);
                c.validated();
                differ("join", &IndentedLine::join(&ls), &join_model(&ws))
            },
        );
    }
}

pub fn c07(tier: Tier) -> Vec<Unit<'static>> {
    let mut u: Vec<Unit> = vec![];
    let t = tier == Tier::Thorough;
    let chars: &[char] = &['a', 'é', '„'];
    u.push(Unit {
        label: "short".into(),
        run: Box::new(move |c| {
            for len in 0..=2 {
                lines_of(len, chars, &mut |m| slice_case(c, m), &mut ML::default());
            }
        }),
    });
    for len in 3..=if t { 5 } else { 4 } {
        for first in chars.iter().copied() {
            for bold in [false, true] {
                for second in chars.iter().copied() {
                    u.push(Unit {
                        label: format!("len{len}-{first}{bold}{second}"),
                        run: Box::new(move |c| {
                            let mut cur = ML { ch: vec![(5.0, first, bold), (13.0, second, !bold)], justified: false };
                            lines_of(len, chars, &mut |m| slice_case(c, m), &mut cur);
                        }),
                    });
                }
            }
        }
    }
    // Boldness threshold on longer lines
    u.push(Unit {
        label: "boldness".into(),
        run: Box::new(move |c| {
            for n in 0..=40usize {
                for b in 0..=n {
                    for lead in [true, false] {
                        let m = ML {
                            ch: (0..n).map(|i| (i as f64 * 5.0, 'x', if lead { i < b } else { i >= n - b })).collect(),
                            justified: false,
                        };
                        c.case(
                            || format!("{b} bold characters of {n}"),
                            || {
                                c.steps(1);
                                c.validated();
                                same("line", &m.real(), &m)
                            },
                        );
                    }
                }
            }
        }),
    });
    // Concatenation of several lines
    let frags: Vec<ML> = {
        let mut v = vec![ML::default(), ML { ch: vec![], justified: true }];
        for len in 1..=2 {
            lines_of(len, &['a', 'é'], &mut |m| v.push(m.clone()), &mut ML::default());
        }
        v.truncate(if t { 140 } else { 60 });
        v
    };
    for a in 0..frags.len() {
        let frags = frags.clone();
        u.push(Unit {
            label: format!("concat-{a}"),
            run: Box::new(move |c| {
                for b in &frags {
                    for d in &frags {
                        let ms = [frags[a].clone(), b.clone(), d.clone()];
                        c.case(
                            || format!("concatenation of {ms:?}"),
                            || {
                                let ls: Vec<IndentedLine> = ms.iter().map(|m| m.real()).collect();
                                let r = IndentedLine::from_multiple(&ls.iter().collect::<Vec<_>>());
                                c.steps(1);
                                c.validated();
                                same("concatenation", &r, &ML::concat(&ms))
                            },
                        );
                    }
                }
            }),
        });
    }
    // Joining text
    let words: &[&str] = &[
        "", "a", "a-", "-", "és b", "és", "vagy c", "vagy", "ész", "b- és", " ", "c ", " d", "a–", "é-", "vagy ", "és ",
    ];
    for a in words.iter().copied() {
        u.push(Unit {
            label: format!("join-{a}"),
            run: Box::new(move |c| {
                for b in words.iter().copied() {
                    for d in words.iter().copied() {
                        for e in words.iter().copied() {
                            let ws = [a, b, d, e];
                            c.case(
                                || format!("joining {ws:?}"),
                                || {
                                    let ls: Vec<IndentedLine> = ws.iter().map(|w| plain(w)).collect();
                                    differ("join", &IndentedLine::join(&ls), &join_model(&ws))?;
                                    let mut s = String::new();
                                    for l in &ls {
                                        l.append_to(&mut s);
                                    }
                                    differ("append_to", &s, &join_model(&ws))?;
                                    c.steps(5);
                                    c.validated();
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }),
        });
    }
    // Every end of a line with every start of the next.
    let marks = "-–—−‐/,;:.…!?()[]{}„”“\"'’_+=*%§&@#~|\\<>°0aéÁŐ";
    for mark in marks.chars() {
        u.push(Unit {
            label: format!("join-mark-{}", mark as u32),
            run: Box::new(move |c| {
                for end in [format!("{mark}"), format!("a{mark}"), format!("a {mark}"), format!("a-{mark}"), format!("a{mark} ")] {
                    let starts = [
                        "és", "és ", "vagy", "illetve", "valamint", "avagy", "vagyis", "is", "meg", "de", "És", "Vagy", "ÉS", "es", "ési", "vagyon", "nem",
                    ];
                    let starts = starts.iter().flat_map(|s| {
                        [s.to_string(), format!("{s} b"), format!("{s}, b"), format!("{s}-"), format!(" {s} b"), format!("({s} b")]
                    });
                    let marked = marks.chars().flat_map(|m| [format!("{m}"), format!("{m}b"), format!("{m} b")]);
                    for start in starts.chain(marked) {
                        let ws = [end.as_str(), start.as_str()];
                        c.case(
                            || format!("joining {ws:?}"),
                            || {
                                let ls: Vec<IndentedLine> = ws.iter().map(|w| plain(w)).collect();
                                differ("join", &IndentedLine::join(&ls), &join_model(&ws))?;
                                let mut s = end.clone();
                                ls[1].append_to(&mut s);
                                differ("append_to", &s, &join_model(&ws))?;
                                c.steps(3);
                                c.validated();
                                Ok(())
                            },
                        );
                    }
                }
            }),
        });
    }
    for n in sizes(if t { 1100 } else { 512 }) {
        u.push(Unit { label: format!("long-{n}"), run: Box::new(move |c| long_lines(c, n)) });
    }
    u
}
