//! C12: whatever stands between quotation marks is text, never structure.
use crate::{
    core::{Ctx, Tier, Unit},
    doc::{self, act, join, line, show, L},
    layout::compare,
};
use hun_law::{
    parser::structure::parse_act_structure,
    structure::*,
    util::indentedline::{IndentedLine, EMPTY_LINE},
};

const fn l(text: &'static str) -> L {
    L { indent: 50.0, text, bold: false, just: true }
}
const fn b(text: &'static str) -> L {
    L { indent: 50.0, text, bold: true, just: false }
}

/// Lines that mean something outside of quotation marks.
const QUOTED: &[L] = &[
    l("idézet"),
    l("2. § (1) Szöveg."),
    l("(2) Szöveg:"),
    l("b) szöveg,"),
    l("2. szöveg;"),
    l("ab) szöveg"),
    l("1. § Szöveg"),
    l("(1) Szöveg"),
    l("a) szöveg:"),
    l("aa) szöveg,"),
    l("1. szöveg"),
    l("ELSŐ KÖNYV"),
    l("XII. Fejezet"),
    b("Alcím"),
    b("1. Alcím"),
    l(""),
    l("a „belső” szó"),
    l("„belső idézet"),
    l("belső vége”"),
    l("(zárójel)"),
    l("[zárójel"),
    l("idézet-"),
];

fn depth(s: &str) -> (i32, i32) {
    let (mut d, mut low) = (0, 0);
    for c in s.chars() {
        match c {
            '„' | '“' => d += 1,
            '”' => d -= 1,
            _ => {}
        }
        low = low.min(d);
    }
    (d, low)
}
/// Inner quotation marks are balanced.
fn balanced(v: &[L]) -> bool {
    let mut d = 0;
    for x in v {
        let (k, low) = depth(x.text);
        if d + low < 0 {
            return false;
        }
        d += k;
    }
    d == 0
}

/// With the marks around them, too, the marks do not pair up.
fn unpaired(v: &[L]) -> bool {
    let mut d = 1;
    for x in v {
        let (k, low) = depth(x.text);
        if d + low < 0 {
            return true;
        }
        d += k;
    }
    d != 1
}

const PLACES: usize = 17;

pub fn text<C: ChildrenCommon>(s: impl Into<String>) -> SAEBody<C> {
    SAEBody::Text(s.into())
}
pub fn article(id: &str, children: Vec<Paragraph>) -> ActChild {
    Article { identifier: id.parse().unwrap(), title: None, children, last_change: None }.into()
}
pub fn par(id: &str, body: SAEBody<ParagraphChildren>) -> Paragraph {
    Paragraph {
        identifier: if id.is_empty() { Default::default() } else { id.parse().unwrap() },
        body,
        semantic_info: Default::default(),
        last_change: None,
    }
}
pub fn sae<I: hun_law::identifier::IdentifierCommon + std::str::FromStr, C: ChildrenCommon>(id: &str, body: SAEBody<C>) -> SubArticleElement<I, C>
where
    I::Err: std::fmt::Debug,
{
    SubArticleElement { identifier: id.parse().unwrap(), body, semantic_info: Default::default(), last_change: None }
}
pub fn with<C: ChildrenCommon>(intro: &str, children: C, wrap_up: Option<&str>) -> SAEBody<C> {
    SAEBody::Children { intro: intro.into(), children, wrap_up: wrap_up.map(str::to_string) }
}

struct W {
    lines: Vec<IndentedLine>,
}
impl W {
    fn put(&mut self, indent: f64, s: &str) {
        self.lines.push(line(indent, s, false, true));
    }
    /// A running text with the quoted lines inside; returns the text.
    fn inline(&mut self, head: (f64, &str), before: &str, open: char, q: &[L], after: &str, bold: bool) -> String {
        let mut t: Vec<String> = q.iter().map(|l| l.text.to_string()).collect();
        t[0] = format!("{before}{open}{}", t[0]);
        let n = t.len() - 1;
        t[n] = format!("{}”{after}", t[n]);
        for (i, (x, l)) in t.iter().zip(q).enumerate() {
            if i == 0 {
                self.lines.push(line(head.0, &format!("{}{x}", head.1), bold, true));
            } else if x.is_empty() {
                self.lines.push(EMPTY_LINE);
            } else {
                self.lines.push(line(l.indent, x, bold || l.bold, l.just));
            }
        }
        join(&t)
    }
    /// A quoted block; returns the lines between the marks.
    fn block(&mut self, open: char, q: &[L]) -> Vec<IndentedLine> {
        let n = q.len() - 1;
        let mut out = vec![];
        for (i, l) in q.iter().enumerate() {
            let mut s = l.text.to_string();
            if i == 0 {
                s.insert(0, open);
            }
            if i == n {
                s.push('”');
            }
            if s.is_empty() {
                self.lines.push(EMPTY_LINE);
                out.push(EMPTY_LINE);
                continue;
            }
            let real = line(l.indent, &s, l.bold, l.just);
            // The opening mark goes, and what follows stays where it was.
            out.push(if l.text.is_empty() {
                EMPTY_LINE
            } else {
                // The line the closing mark was cut from no longer reaches the margin.
                line(if i == 0 { l.indent + 5.0 } else { l.indent }, l.text, l.bold, l.just && i != n)
            });
            self.lines.push(real);
        }
        out
    }
}

fn place(k: usize, open: char, q: &[L]) -> (Vec<IndentedLine>, Act) {
    let mut w = W { lines: vec![] };
    let mut preamble = String::new();
    let mut ch: Vec<ActChild> = vec![];
    let second = |w: &mut W, ch: &mut Vec<ActChild>, id: &str| {
        w.put(20.0, &format!("{id}. § Másik szöveg."));
        ch.push(article(id, vec![par("", text("Másik szöveg."))]));
    };
    let block = |lines: Vec<IndentedLine>, intro: Option<&str>, wrap_up: Option<&str>| QuotedBlock {
        intro: intro.map(str::to_string),
        lines,
        wrap_up: wrap_up.map(str::to_string),
    };
    match k {
        0 => {
            preamble = w.inline((20.0, ""), "Az ", open, q, " szerint:", false);
            second(&mut w, &mut ch, "1");
        }
        1 => {
            let t = w.inline((20.0, "1. § "), "Az ", open, q, " szó.", false);
            ch.push(article("1", vec![par("", text(t))]));
            second(&mut w, &mut ch, "2");
        }
        2 | 3 => {
            let first = if k == 2 {
                w.inline((20.0, "1. § (1) "), "Az ", open, q, " szó.", false)
            } else {
                w.put(20.0, "1. § (1) Első szöveg.");
                "Első szöveg.".into()
            };
            let snd = if k == 3 {
                w.inline((20.0, "(2) "), "Az ", open, q, " szó.", false)
            } else {
                w.put(20.0, "(2) Első szöveg.");
                "Első szöveg.".into()
            };
            ch.push(article("1", vec![par("1", text(first)), par("2", text(snd))]));
            second(&mut w, &mut ch, "2");
        }
        4 | 5 | 6 => {
            w.put(20.0, "1. § Bevezető:");
            let a = if k == 4 {
                w.inline((30.0, "a) "), "az ", open, q, " szó,", false)
            } else {
                w.put(30.0, "a) szöveg,");
                "szöveg,".into()
            };
            let bb = if k != 4 {
                w.inline((30.0, "b) "), "az ", open, q, " szó", false)
            } else {
                w.put(30.0, "b) szöveg");
                "szöveg".into()
            };
            let wrap_up = (k == 6).then_some("a záró szöveg.");
            if k == 6 {
                w.put(20.0, "a záró szöveg.");
            }
            let c: Vec<AlphabeticPoint> = vec![sae("a", text(a)), sae("b", text(bb))];
            ch.push(article("1", vec![par("", with("Bevezető:", c.into(), wrap_up))]));
            second(&mut w, &mut ch, "2");
        }
        7 | 8 => {
            w.put(20.0, "1. § (1) Bevezető:");
            w.put(30.0, "a) további:");
            let aa = if k == 7 {
                w.inline((40.0, "aa) "), "az ", open, q, " szó,", false)
            } else {
                w.put(40.0, "aa) szöveg,");
                "szöveg,".into()
            };
            let ab = if k == 8 {
                w.inline((40.0, "ab) "), "az ", open, q, " szó,", false)
            } else {
                w.put(40.0, "ab) szöveg,");
                "szöveg,".into()
            };
            w.put(30.0, "b) szöveg.");
            w.put(20.0, "(2) Szöveg.");
            let s: Vec<AlphabeticSubpoint> = vec![sae("aa", text(aa)), sae("ab", text(ab))];
            let c: Vec<AlphabeticPoint> = vec![sae("a", with("további:", s.into(), None)), sae("b", text("szöveg."))];
            ch.push(article("1", vec![par("1", with("Bevezető:", c.into(), None)), par("2", text("Szöveg."))]));
            second(&mut w, &mut ch, "2");
        }
        9 => {
            w.put(50.0, "I. FEJEZET");
            let t = w.inline((50.0, ""), "AZ ", open, q, " CÍME", false);
            ch.push(
                StructuralElement {
                    identifier: 1.into(),
                    title: t,
                    element_type: StructuralElementType::Chapter,
                    last_change: None,
                }
                .into(),
            );
            second(&mut w, &mut ch, "1");
        }
        10 => {
            w.lines.push(EMPTY_LINE);
            let t = w.inline((50.0, ""), "Az ", open, q, " alcíme", true);
            ch.push(Subtitle { identifier: None, title: t, last_change: None }.into());
            w.lines.push(EMPTY_LINE);
            second(&mut w, &mut ch, "1");
        }
        11 => {
            w.put(20.0, "1. § Szöveg.");
            w.lines.push(line(50.0, "1. Alcím", true, true));
            ch.push(article("1", vec![par("", text("Szöveg."))]));
            let t = w.inline((50.0, ""), "az ", open, q, " folytatása", true);
            ch.push(Subtitle { identifier: Some(1.into()), title: format!("Alcím {t}"), last_change: None }.into());
            second(&mut w, &mut ch, "2");
        }
        12 => {
            w.put(20.0, "1. § Bevezető:");
            let lines = w.block(open, q);
            ch.push(article("1", vec![par("", with("Bevezető:", vec![block(lines, None, None)].into(), None))]));
            second(&mut w, &mut ch, "2");
        }
        13 => {
            w.put(20.0, "1. § (1) Bevezető:");
            let lines = w.block(open, q);
            w.put(20.0, "(2) Szöveg.");
            ch.push(article(
                "1",
                vec![par("1", with("Bevezető:", vec![block(lines, None, None)].into(), None)), par("2", text("Szöveg."))],
            ));
            second(&mut w, &mut ch, "2");
        }
        14 => {
            w.put(20.0, "1. § Bevezető:");
            w.put(20.0, "(Az előtte álló)");
            let lines = w.block(open, q);
            w.put(20.0, "[az utána álló]");
            ch.push(article(
                "1",
                vec![par("", with("Bevezető:", vec![block(lines, Some("Az előtte álló"), Some("az utána álló"))].into(), None))],
            ));
            second(&mut w, &mut ch, "2");
        }
        15 => {
            w.put(20.0, "1. § Bevezető:");
            let first = w.block(open, &[l("első")]);
            let lines = w.block(open, q);
            w.put(20.0, "szöveg lép.");
            ch.push(article(
                "1",
                vec![par("", with("Bevezető:", vec![block(first, None, None), block(lines, None, None)].into(), Some("szöveg lép.")))],
            ));
            second(&mut w, &mut ch, "2");
        }
        16 => {
            w.put(20.0, "1. § Bevezető:");
            let one = w.inline((30.0, "1. "), "az ", open, q, " szó,", false);
            w.put(30.0, "2. további:");
            w.put(40.0, "a) szöveg,");
            let bb = w.inline((40.0, "b) "), "az ", open, q, " szó.", false);
            let s: Vec<AlphabeticSubpoint> = vec![sae("a", text("szöveg,")), sae("b", text(bb))];
            let c: Vec<NumericPoint> = vec![sae("1", text(one)), sae("2", with("további:", s.into(), None))];
            ch.push(article("1", vec![par("", with("Bevezető:", c.into(), None))]));
            second(&mut w, &mut ch, "2");
        }
        _ => unreachable!(),
    }
    (w.lines, act(&preamble, ch))
}

fn walk(c: &Ctx, k: usize, open: char, cur: &mut Vec<L>, len: usize) {
    // A first or last line that is empty stands for a mark alone on its line: only around blocks.
    let edge = cur[0].text.is_empty() || cur[cur.len() - 1].text.is_empty();
    if balanced(cur) && !(edge && !(12..=15).contains(&k)) {
        c.case(
            || format!("place {k}: {}", show(&place(k, open, cur).0)),
            || {
                let (lines, want) = place(k, open, cur);
                c.steps(lines.len() as u64);
                c.validated();
                let raw = doc::raw(lines);
                compare(parse_act_structure(&raw), &want)
            },
        );
    } else if unpaired(cur) && cur.len() < 4 {
        c.case(
            || format!("place {k}, marks that do not pair up: {}", show(&place(k, open, cur).0)),
            || {
                let (lines, _) = place(k, open, cur);
                c.steps(lines.len() as u64);
                c.validated();
                c.outcome("refused");
                match parse_act_structure(&doc::raw(lines)) {
                    Ok(a) => Err(format!("a text whose quotation marks do not pair up was read as {a:?}")),
                    Err(_) => Ok(()),
                }
            },
        );
    }
    if cur.len() < len {
        for l in QUOTED {
            cur.push(*l);
            walk(c, k, open, cur, len);
            cur.pop();
        }
    }
}

/// Long quotes of each kind of line, and quotes in quotes.
fn grown() -> Vec<Unit<'static>> {
    (0..PLACES)
        .map(|k| Unit {
            label: format!("grown-{k}"),
            run: Box::new(move |c: &Ctx| {
                // A subtitle of more than 1500 bytes is refused on purpose.
                for n in crate::layout::sizes(if k == 10 || k == 11 { 18 } else { 120 }) {
                    let mut cases: Vec<Vec<L>> = vec![];
                    for x in QUOTED.iter().filter(|x| depth(x.text) == (0, 0)) {
                        let mut q = vec![*x; n];
                        // The edges are no empty lines, see walk().
                        q.insert(0, l("idézet"));
                        q.push(l("idézet"));
                        cases.push(q);
                    }
                    for x in [l("(2) Szöveg:"), l("2. § (1) Szöveg."), l("b) szöveg,")] {
                        let mut q = vec![l("idézet")];
                        q.extend((0..n).flat_map(|_| [l("„belső idézet"), x]));
                        q.push(x);
                        q.extend((0..n).flat_map(|_| [l("belső vége”"), x]));
                        cases.push(q);
                    }
                    // Many small ones, on one line each or over two.
                    cases.push((0..n).flat_map(|_| [l("„belső idézet"), l("2. § (1) Szöveg."), l("belső vége”"), l("(2) Szöveg:")]).collect());
                    for q in cases {
                        c.case(
                            || format!("place {k}, {} lines: {} ...", q.len(), show(&q[..4.min(q.len())].iter().map(|x| x.real()).collect::<Vec<_>>())),
                            || {
                                let (lines, want) = place(k, '„', &q);
                                c.steps(lines.len() as u64);
                                c.validated();
                                compare(parse_act_structure(&doc::raw(lines)), &want)
                            },
                        );
                    }
                }
            }),
        })
        .collect()
}

pub fn c12(tier: Tier) -> Vec<Unit<'static>> {
    let len = if tier == Tier::Quick { 4 } else { 5 };
    let mut u = grown();
    for k in 0..PLACES {
        for open in ['„', '“'] {
            for (i, first) in QUOTED.iter().enumerate() {
                u.push(Unit {
                    label: format!("place-{k}-{open}-{i}"),
                    run: Box::new(move |c: &Ctx| walk(c, k, open, &mut vec![*first], len)),
                });
            }
        }
    }
    u
}
