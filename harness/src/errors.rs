//! C39: an error about an element names that very element.
//!
//! The wording is free; which elements, fixups and lines are named in it is what counts.
use crate::{
    check,
    core::{Ctx, Tier, Unit},
    doc::{self, act, line, raw},
    quotes::{article, par, sae, text, with},
};
use hun_law::{
    fixups::Fixup,
    identifier::{range::{IdentifierRange, IdentifierRangeFrom}, IdentifierCommon},
    parser::structure::parse_act_structure,
    reference::{structural::{StructuralReference, StructuralReferenceElement}, Reference},
    semantic_info::{self, SpecialPhrase},
    structure::*,
    util::walker::{SAEVisitor, SAEVisitorMut},
};

const ARTICLES: [&str; 4] = ["17", "18/B", "3:19", "1204"];
const PARAGRAPHS: [&str; 4] = ["41", "42", "43a", "44"];

/// Everything the error says.
fn said(e: &anyhow::Error) -> String {
    e.chain().map(|e| e.to_string()).collect::<Vec<_>>().join("\n")
}
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !c.is_alphanumeric() && c != ':' && c != '/').map(|w| w.trim_matches([':', '/'])).collect()
}
/// Exactly these of all the names are mentioned.
fn mentions(e: &anyhow::Error, names: &[&str], all: &[&str]) -> Result<(), String> {
    let said = said(e);
    let w = words(&said);
    for n in names {
        check!(w.contains(n), "{n} is not named in: {said}");
    }
    for n in all {
        check!(names.contains(n) || !w.contains(n), "{n} is named, instead of {names:?}, in: {said}");
    }
    Ok(())
}

/// Acts with amendments of which some cannot be converted.
fn amendments(c: &Ctx, n: usize, structural: bool) {
    let make = |i: usize, k: usize, bad: bool| -> Paragraph {
        let (head, phrase): (&str, SpecialPhrase) = if structural {
            let structural_element = StructuralReferenceElement::Article(IdentifierRange::from_single("5".parse().unwrap()));
            let position = StructuralReference { act: None, book: None, parent: None, structural_element, title_only: false };
            (if bad { "6. § " } else { "5. § " }, semantic_info::StructuralBlockAmendment { position, pure_insertion: false }.into())
        } else {
            let position = doc::reference(true, "5_2");
            (if bad { "(3) " } else { "(2) " }, semantic_info::BlockAmendment { position, pure_insertion: false }.into())
        };
        let block = QuotedBlock { intro: None, lines: vec![line(20.0, &format!("{head}Szöveg."), false, false)], wrap_up: None };
        let mut p = par(PARAGRAPHS[(k + i) % 4], with("A tv. helyébe:", vec![block].into(), None));
        p.semantic_info.special_phrase = Some(phrase);
        p
    };
    let all = [ARTICLES, PARAGRAPHS].concat();
    for bad in 0..1usize << (n * n) {
        c.case(
            || format!("amendments in {n} articles of {n} paragraphs, of which those in {bad:#b} are bad ({structural})"),
            || {
                let is_bad = |i: usize, k: usize| bad >> (i * n + k) & 1 == 1;
                let mut a = act("Bevezetés", (0..n).map(|i| article(ARTICLES[i], (0..n).map(|k| make(i, k, is_bad(i, k))).collect())).collect());
                c.steps((n * n) as u64);
                c.validated();
                let first = (0..n).flat_map(|i| (0..n).map(move |k| (i, k))).find(|(i, k)| is_bad(*i, *k));
                match (first, a.convert_block_amendments()) {
                    (None, Ok(())) => Ok(()),
                    (None, Err(e)) => Err(format!("refused: {e:#}")),
                    (Some(_), Ok(())) => Err("accepted".into()),
                    (Some((i, k)), Err(e)) => mentions(&e, &[ARTICLES[i], PARAGRAPHS[(k + i) % 4]], &all),
                }
            },
        );
    }
}

struct Fails(usize);
impl Fails {
    fn next(&mut self) -> anyhow::Result<()> {
        anyhow::ensure!(self.0 > 0, "ok");
        self.0 -= 1;
        Ok(())
    }
}
impl SAEVisitor for Fails {
    fn on_enter<I: IdentifierCommon, C: ChildrenCommon>(&mut self, _: &Reference, _: &SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.next()
    }
    fn on_exit<I: IdentifierCommon, C: ChildrenCommon>(&mut self, _: &Reference, _: &SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.next()
    }
}
impl SAEVisitorMut for Fails {
    fn on_enter<I: IdentifierCommon, C: ChildrenCommon>(&mut self, _: &Reference, _: &mut SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.next()
    }
    fn on_exit<I: IdentifierCommon, C: ChildrenCommon>(&mut self, _: &Reference, _: &mut SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.next()
    }
}

/// A visitor that fails at each of its calls, on acts with lists of `n` at each level.
fn walks(c: &Ctx, n: usize) {
    const POINTS: [&str; 4] = ["x", "y", "z", "zs"];
    const NUMBERS: [&str; 4] = ["61", "62", "63b", "64"];
    const SUBNUMBERS: [&str; 4] = ["71", "72", "73c", "74"];
    let mut all: Vec<String> = [ARTICLES, PARAGRAPHS, POINTS, NUMBERS, SUBNUMBERS].concat().iter().map(|s| s.to_string()).collect();
    for (kind, unnumbered) in [(0, false), (1, false), (2, false), (3, false), (4, false), (2, true), (0, true)] {
        let mut path: Vec<String> = vec![];
        let mut calls: Vec<Vec<String>> = vec![];
        let mut articles = vec![];
        for a in &ARTICLES[..n] {
            path.push(a.to_string());
            let mut pars = vec![];
            let m = if unnumbered { 1 } else { n };
            for p in &PARAGRAPHS[..m] {
                path.push(if unnumbered { String::new() } else { p.to_string() });
                calls.push(path.clone());
                let sub = |path: &mut Vec<String>, calls: &mut Vec<Vec<String>>, id: &str| {
                    path.push(id.to_string());
                    calls.push(path.clone());
                    calls.push(path.clone());
                    path.pop();
                };
                let body: SAEBody<ParagraphChildren> = match kind {
                    0 => text("Szöveg."),
                    1 | 2 | 3 => {
                        let mut points: Vec<AlphabeticPoint> = vec![];
                        for x in &POINTS[..n.min(3)] {
                            path.push(x.to_string());
                            calls.push(path.clone());
                            points.push(match kind {
                                1 => sae(x, text("szöveg,")),
                                2 => {
                                    let v: Vec<NumericSubpoint> = SUBNUMBERS[..n]
                                        .iter()
                                        .map(|s| {
                                            sub(&mut path, &mut calls, s);
                                            sae(s, text("szöveg,"))
                                        })
                                        .collect();
                                    sae(x, with("szöveg:", v.into(), None))
                                }
                                _ => {
                                    let v: Vec<AlphabeticSubpoint> = ["q", "r", "s", "t"][..n]
                                        .iter()
                                        .map(|s| {
                                            let s = format!("{x}{s}");
                                            all.push(s.clone());
                                            sub(&mut path, &mut calls, &s);
                                            sae(&s, text("szöveg,"))
                                        })
                                        .collect();
                                    sae(x, with("szöveg:", v.into(), None))
                                }
                            });
                            calls.push(path.clone());
                            path.pop();
                        }
                        with("szöveg:", points.into(), None)
                    }
                    _ => {
                        let mut points: Vec<NumericPoint> = vec![];
                        for x in &NUMBERS[..n] {
                            path.push(x.to_string());
                            calls.push(path.clone());
                            let v: Vec<AlphabeticSubpoint> = POINTS[..n.min(3)]
                                .iter()
                                .map(|s| {
                                    sub(&mut path, &mut calls, s);
                                    sae(s, text("szöveg,"))
                                })
                                .collect();
                            points.push(sae(x, with("szöveg:", v.into(), None)));
                            calls.push(path.clone());
                            path.pop();
                        }
                        with("szöveg:", points.into(), None)
                    }
                };
                pars.push(par(if unnumbered { "" } else { p }, body));
                calls.push(path.clone());
                path.pop();
            }
            articles.push(article(a, pars));
            path.pop();
        }
        let mut a = act("Bevezetés", articles);
        let all: Vec<&str> = all.iter().map(String::as_str).collect();
        for (k, path) in calls.iter().enumerate() {
            let names: Vec<&str> = path.iter().map(String::as_str).filter(|s| !s.is_empty()).collect();
            c.case(
                || format!("a visitor failing at call {k}, in {names:?}, of kind {kind} with {n} of each"),
                || {
                    c.steps(2 * k as u64);
                    c.validated();
                    for e in [a.walk_saes(&mut Fails(k)), a.walk_saes_mut(&mut Fails(k))] {
                        match e {
                            Ok(()) => return Err("the error is lost".into()),
                            Err(e) => {
                                check!(words(&said(&e)).contains(&"ok"), "the visitor's own message is not in: {}", said(&e));
                                mentions(&e, &names, &all)?
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

/// Lists of fixups, each of which applies, matches nothing, or matches twice.
fn fixups(c: &Ctx, n: usize) {
    const OLD: [&str; 5] = ["alma", "birs", "citrom", "dinnye", "eper"];
    const NEW: [&str; 5] = ["ananász", "barack", "cseresznye", "datolya", "füge"];
    let all = [OLD, NEW].concat();
    for code in 0..3usize.pow(n as u32) {
        c.case(
            || format!("fixups {code} of {n}"),
            || {
                let kind = |i: usize| code / 3usize.pow(i as u32) % 3;
                let mut lines = vec![];
                let mut list = vec![];
                for i in 0..n {
                    // Found once, never, or twice
                    for _ in 0..[1, 0, 2][kind(i)] {
                        lines.push(line(20.0, OLD[i], false, false));
                    }
                    list.push(Fixup { after: vec![], old: OLD[i].into(), new: NEW[i].into(), set_bold: false });
                }
                c.steps(n as u64);
                c.validated();
                let mut failed = None;
                for (i, f) in list.iter().enumerate() {
                    if let Err(e) = f.apply(&mut lines) {
                        failed = Some((i, e));
                        break;
                    }
                }
                match ((0..n).find(|i| kind(*i) != 0), failed) {
                    (None, None) => Ok(()),
                    (None, Some((_, e))) => Err(format!("refused: {e:#}")),
                    (Some(i), None) => Err(format!("fixup {i} was not refused")),
                    (Some(i), Some((k, e))) => {
                        check!(i == k, "fixup {k} is refused instead of {i}");
                        let w = words(&said(&e)).contains(&NEW[i]);
                        mentions(&e, if w { vec![OLD[i], NEW[i]] } else { vec![OLD[i]] }.as_slice(), &all)
                    }
                }
            },
        );
    }
}

/// Lines of which one closes a quotation that is not open.
fn quotes(c: &Ctx, n: usize) {
    let plain: Vec<String> = (0..n).map(|i| format!("szó{i}")).collect();
    let names: Vec<&str> = plain.iter().map(String::as_str).collect();
    for opened in 0..n {
        for k in 0..n {
            c.case(
                || format!("{n} lines, a quotation opened and closed in {opened}, a closing mark too many in {k}"),
                || {
                    let lines = (0..n)
                        .map(|i| {
                            let q = if i == opened { "„idézet” " } else { "" };
                            let head = if i == 0 { "1. § " } else { "" };
                            line(20.0, &format!("{head}{q}{}{}", plain[i], if i == k { "”" } else { "" }), false, false)
                        })
                        .collect();
                    c.steps(n as u64);
                    c.validated();
                    match parse_act_structure(&raw(lines)) {
                        Ok(_) => Err("accepted".into()),
                        Err(e) => mentions(&e, &[&plain[k]], &names),
                    }
                },
            );
        }
    }
}

pub fn c39(tier: Tier) -> Vec<Unit<'static>> {
    let big = tier == Tier::Thorough;
    let mut u: Vec<Unit> = vec![];
    for n in 1..=if big { 4 } else { 3 } {
        for structural in [false, true] {
            u.push(Unit { label: format!("amendments-{n}-{structural}"), run: Box::new(move |c| amendments(c, n, structural)) });
        }
    }
    for n in 1..=4 {
        u.push(Unit { label: format!("walks-{n}"), run: Box::new(move |c| walks(c, n)) });
    }
    for n in 1..=5 {
        u.push(Unit { label: format!("fixups-{n}"), run: Box::new(move |c| fixups(c, n)) });
    }
    for n in 1..=30 {
        u.push(Unit { label: format!("quotes-{n}"), run: Box::new(move |c| quotes(c, n)) });
    }
    u
}
