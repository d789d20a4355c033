//! Spelling out references: from what is meant to the text of the law, with the place of every reference in it.
use std::collections::BTreeMap;

use hun_law::{identifier::ActIdentifier, semantic_info::SemanticInfo};
use serde_json::{json, Value};

use crate::{check, choose::Chooser};

/// (year, number in Roman numerals, number)
pub type ActNo = (u32, &'static str, u32);

/// One identifier, or a range of them
#[derive(Debug, Clone, PartialEq)]
pub struct Part(pub &'static str, pub Option<&'static str>);

pub const ARTICLE: usize = 0;
pub const PARAGRAPH: usize = 1;
pub const POINT: usize = 2;
pub const SUBPOINT: usize = 3;
const NAMES: [&str; 4] = ["article", "paragraph", "point", "subpoint"];

/// What is being referred to at a place of the text
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Meant {
    pub act: Option<ActNo>,
    pub parts: [Option<Part>; 4],
}

impl Meant {
    /// Setting a level leaves the outer ones as they are, and there is nothing below.
    pub fn set(&mut self, level: usize, p: Part) {
        self.parts[level] = Some(p);
        for l in level + 1..4 {
            self.parts[l] = None;
        }
    }
    pub fn data(&self) -> Value {
        let mut m = serde_json::Map::new();
        if let Some(a) = &self.act {
            m.insert("act".into(), json!({"year": a.0, "number": a.2}));
        }
        for (n, p) in NAMES.iter().zip(&self.parts) {
            match p {
                Some(Part(a, None)) => m.insert(n.to_string(), json!(data_id(a))),
                Some(Part(a, Some(b))) => m.insert(n.to_string(), json!({"start": data_id(a), "end": data_id(b)})),
                None => None,
            };
        }
        Value::Object(m)
    }
}

/// "31/a" and "31a" are the same point, written "31a" in data.
pub fn data_id(s: &str) -> String {
    match s.split_once('/') {
        Some((n, l)) if l.chars().all(|c| c.is_lowercase()) => format!("{n}{l}"),
        _ => s.to_string(),
    }
}

/// A text that grows, with the references in it
#[derive(Debug, Clone, Default)]
pub struct Text {
    pub s: String,
    pub refs: Vec<(usize, usize, Value)>,
    /// Ends of references that need what follows: "5." of "5. és 6. §"
    pub open: Vec<usize>,
    pub abbreviations: BTreeMap<&'static str, ActNo>,
}

impl Text {
    pub fn put(&mut self, s: &str) -> &mut Self {
        self.s += s;
        self
    }
    pub fn at(&self) -> usize {
        self.s.len()
    }
    pub fn note(&mut self, start: usize, what: &Meant) {
        self.refs.push((start, self.s.len(), what.data()));
    }
}

/// How a reference is written: from its outermost to its deepest level, a list of parts each. Only the last of a list
/// goes on to the next level.
#[derive(Debug, Clone)]
pub struct Spelling {
    pub levels: Vec<Level>,
    /// What stands before a level instead of a space: (level index, text)
    pub joint: Option<(usize, &'static str)>,
}

#[derive(Debug, Clone)]
pub struct Level {
    pub level: usize,
    /// Points and subpoints: by numbers, not letters
    pub numeric: bool,
    pub parts: Vec<Part>,
    pub suffix: &'static str,
    pub dash: &'static str,
    /// Of ranges: 0: in full, 1: the short form (a–c), 1. §–3. §)
    pub form: usize,
    pub separators: Vec<&'static str>,
}

impl Level {
    fn part(&self, t: &mut Text, p: &Part) {
        let d = self.dash;
        let s = match (self.level, self.numeric, p) {
            (ARTICLE, _, Part(a, None)) => format!("{a}."),
            (ARTICLE, _, Part(a, Some(b))) => {
                let short = b.split_once(':').map_or(*b, |x| x.1);
                match self.form {
                    0 => format!("{a}{d}{short}."),
                    1 => format!("{a}. §{d}{short}."),
                    _ => format!("{a}{d}{b}."),
                }
            }
            (PARAGRAPH, _, Part(a, None)) => format!("({a})"),
            (PARAGRAPH, _, Part(a, Some(b))) => format!("({a}){d}({b})"),
            (_, true, Part(a, None)) => format!("{a}."),
            (_, true, Part(a, Some(b))) => format!("{a}{d}{b}."),
            (_, false, Part(a, None)) => format!("{a})"),
            (l, false, Part(a, Some(b))) if l == POINT && self.form == 1 => format!("{a}{d}{b})"),
            (_, false, Part(a, Some(b))) => format!("{a}){d}{b})"),
        };
        t.put(&s);
    }
}

impl Spelling {
    /// Writes the reference after what `cur` refers to, and notes every element it names.
    pub fn write(&self, t: &mut Text, cur: &mut Meant) {
        let mut start = t.at();
        for (n, l) in self.levels.iter().enumerate() {
            match self.joint {
                Some((j, text)) if j == n => t.put(text),
                _ if n > 0 => t.put(" "),
                _ => t,
            };
            if n == 0 {
                start = t.at();
            }
            for (i, p) in l.parts.iter().enumerate() {
                if i > 0 {
                    // What came before stands for itself.
                    t.note(start, cur);
                    t.open.push(t.at());
                    t.put(l.separators[(i - 1) % l.separators.len()]);
                    start = t.at();
                }
                l.part(t, p);
                cur.set(l.level, p.clone());
            }
            t.put(" ").put(l.suffix);
        }
        t.note(start, cur);
    }
}

pub const SEPARATORS: &[&str] = &[" és ", ", ", " vagy ", ", valamint ", "; ", " illetve ", ", és ", ", a ", " és az ", " valamint a "];

fn labels(level: usize, numeric: bool) -> &'static [&'static str] {
    match (level, numeric) {
        (ARTICLE, _) => &["5", "12", "113/A", "3:17", "6:5/B", "1"],
        (PARAGRAPH, _) => &["2", "11", "2a", "3b", "1"],
        (POINT, true) => &["3", "24", "5a", "31/a", "1"],
        (POINT, false) => &["b", "m", "ny", "sz", "a"],
        (_, true) => &["2", "14", "1"],
        (_, false) => &["bc", "ba", "c"],
    }
}

fn ranges(level: usize, numeric: bool) -> &'static [(&'static str, &'static str)] {
    match (level, numeric) {
        (ARTICLE, _) => &[("7", "9"), ("15/A", "15/D"), ("2:42", "2:54")],
        (PARAGRAPH, _) => &[("3", "10"), ("4", "5a"), ("2b", "2f")],
        (POINT, true) => &[("4", "6"), ("5a", "5c")],
        (POINT, false) => &[("c", "e"), ("n", "sz")],
        (_, true) => &[("3", "9")],
        (_, false) => &[("bb", "bd")],
    }
}

fn suffixes(level: usize) -> &'static [&'static str] {
    match level {
        ARTICLE => &["§", "§-a", "§-ában", "§-ának"],
        PARAGRAPH => &["bekezdés", "bekezdése", "bekezdésében", "bekezdésének"],
        POINT => &["pont", "pontja", "pontjában", "pontjai"],
        _ => &["alpont", "alpontja", "alpontjában"],
    }
}

/// (level, numeric) from the outermost to the deepest
pub type Shape = &'static [(usize, bool)];
pub const SHAPES: &[Shape] = &[
    &[(0, false)],
    &[(0, false), (1, false)],
    &[(0, false), (1, false), (2, false)],
    &[(0, false), (1, false), (2, true)],
    &[(0, false), (2, false)],
    &[(0, false), (2, true)],
    &[(0, false), (1, false), (2, false), (3, false)],
    &[(0, false), (1, false), (2, true), (3, false)],
    &[(0, false), (1, false), (2, false), (3, true)],
    &[(0, false), (1, false), (2, true), (3, true)],
    &[(0, false), (2, false), (3, false)],
    &[(0, false), (2, true), (3, true)],
    &[(1, false)],
    &[(1, false), (2, false)],
    &[(1, false), (2, true)],
    &[(1, false), (2, false), (3, false)],
    &[(2, false)],
    &[(2, true)],
    &[(2, false), (3, false)],
    &[(2, true), (3, false)],
    &[(3, false)],
    &[(3, true)],
];

/// Which shapes may follow in a list of references when `cur` is what the previous one referred to. Nothing below a
/// range, and no level but the paragraph left out.
pub fn shapes_after(cur: &Meant) -> Vec<Shape> {
    let range_at = (0..4).find(|l| matches!(&cur.parts[*l], Some(Part(_, Some(_)))));
    SHAPES
        .iter()
        .copied()
        .filter(|s| {
            let top = s[0].0;
            if range_at.is_some_and(|r| top > r) {
                return false;
            }
            match top {
                0 => true,
                1 => cur.parts[0].is_some() || cur.act.is_none() && cur.parts[POINT].is_none() && cur.parts[SUBPOINT].is_none(),
                2 => cur.parts[0].is_some() || cur.parts[1].is_some() || cur.act.is_none() && cur.parts[SUBPOINT].is_none(),
                _ => cur.parts[POINT].is_some() || cur.act.is_none() && cur.parts[..3].iter().all(|p| p.is_none()),
            }
        })
        .collect()
}

/// The letters of subpoints repeat the letter of their point: only then do they fit.
fn fit(levels: &mut [Level], cur: &Meant) {
    let point = match levels.iter().find(|l| l.level == POINT) {
        Some(l) => Some((l.numeric, l.parts.last().unwrap().0)),
        None => cur.parts[POINT].as_ref().map(|p| (p.0.starts_with(|c: char| c.is_ascii_digit()), p.0)),
    };
    if let (Some((numeric, _)), Some(l)) = (point, levels.iter_mut().find(|l| l.level == SUBPOINT && !l.numeric)) {
        if numeric {
            for p in &mut l.parts {
                *p = match p {
                    Part(_, None) => Part("c", None),
                    Part(..) => Part("d", Some("f")),
                };
            }
        }
    }
}

/// Any way of writing a reference of this shape
pub fn spelling(ch: &mut Chooser, shape: Shape, cur: &Meant) -> Spelling {
    let mut levels = vec![];
    for (i, &(level, numeric)) in shape.iter().enumerate() {
        let last = i + 1 == shape.len();
        let (ls, rs) = (labels(level, numeric), ranges(level, numeric));
        let one = |n: usize| Part(ls[n % ls.len()], None);
        let range = |n: usize| Part(rs[n % rs.len()].0, Some(rs[n % rs.len()].1));
        // 0: the first label; then the others; then lists and ranges
        let kinds = ls.len() + if last { 5 + rs.len() } else { 3 };
        let k = ch.pick(kinds);
        let parts = if k < ls.len() {
            vec![one(k)]
        } else if last {
            match k - ls.len() {
                0 => vec![one(0), one(1)],
                1 => vec![one(ls.len() - 1), range(0)],
                2 => vec![range(0), one(1)],
                3 => vec![one(ls.len() - 1), one(0), one(1)],
                4 => vec![one(ls.len() - 1), one(0), range(1), one(2)],
                n => vec![range(n - 5)],
            }
        } else {
            match k - ls.len() {
                0 => vec![one(0), one(1)],
                1 => vec![range(0), one(1)],
                _ => vec![one(ls.len() - 1), one(0), one(2)],
            }
        };
        let has_range = parts.iter().any(|p| p.1.is_some());
        let separators = if parts.len() > 2 {
            vec![", ", ch.of(SEPARATORS)]
        } else if parts.len() > 1 {
            vec![ch.of(SEPARATORS)]
        } else {
            vec![" "]
        };
        let dash = if has_range { ch.of(&["–", "-", "−"]) } else { "–" };
        let form = if has_range { ch.pick(if level == ARTICLE { 3 } else { 2 }) } else { 0 };
        let suffix = ch.of(suffixes(level));
        levels.push(Level { level, numeric, parts, suffix, dash, form, separators });
    }
    fit(&mut levels, cur);
    Spelling { levels, joint: None }
}

pub const ACTS: &[ActNo] = &[(2012, "C", 100), (1991, "XLIX", 49), (2013, "CXCIX", 199), (1878, "V", 5)];

/// Known before the sentence
pub const KNOWN: &[(&str, ActNo)] = &[
    ("Btk.", (2012, "C", 100)),
    ("Bv. tv.", (2013, "CCXL", 240)),
    ("új Be.", (2017, "XC", 90)),
    ("Alaptörvény", (2011, "CCII", 202)),
    ("Bv.", (1979, "XI", 11)),
    ("Kkt", (2012, "LXXV", 75)),
];

pub fn known() -> BTreeMap<String, ActIdentifier> {
    KNOWN.iter().map(|(k, a)| (k.to_string(), id(a))).collect()
}

pub fn id(a: &ActNo) -> ActIdentifier {
    ActIdentifier { year: a.0 as _, number: a.2 as _ }
}

/// Writes a reference to an act: an abbreviation, or a number with or without a definition.
pub fn act(ch: &mut Chooser, t: &mut Text, cur: &mut Meant, allow_definition: bool) {
    let n = ch.pick(KNOWN.len() + ACTS.len());
    *cur = Meant::default();
    let start = t.at();
    if n < KNOWN.len() {
        cur.act = Some(*t.abbreviations.get(KNOWN[n].0).unwrap_or(&KNOWN[n].1));
        t.put(KNOWN[n].0);
        t.note(start, cur);
        return;
    }
    let a = ACTS[n - KNOWN.len()];
    cur.act = Some(a);
    let suffix = ch.of(&["törvény", "tv.", "törvénynek"]);
    t.put(&format!("{}. évi {}. {suffix}", a.0, a.1));
    t.note(start, cur);
    if allow_definition {
        let d = ch.pick(5);
        // A name is not given a new meaning after it was used with the old one in the same sentence.
        let names = ["", "Xtv.", "régi Xtv.", if t.s.contains("Btk.") { "Ytv." } else { "Btk." }, "Xtv."];
        if d > 0 {
            t.put(&format!(" (a továbbiakban{} {})", if d == 4 { "" } else { ":" }, names[d]));
            t.abbreviations.insert(names[d], a);
        }
    }
}

pub fn compare(info: &SemanticInfo, t: &Text) -> Result<(), String> {
    let got: Vec<(usize, usize, Value)> =
        info.outgoing_references.iter().map(|r| (r.start, r.end, serde_json::to_value(&r.reference).unwrap())).collect();
    let show = |v: &[(usize, usize, Value)]| {
        v.iter().map(|(s, e, d)| format!("{d} at {s}..{e} {:?}", t.s.get(*s..*e))).collect::<Vec<_>>().join("; ")
    };
    check!(got == t.refs, "the references found are [{}], those written are [{}]", show(&got), show(&t.refs));
    let got: Vec<(String, ActIdentifier)> = info.new_abbreviations.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let want: Vec<(String, ActIdentifier)> = t.abbreviations.iter().map(|(k, v)| (k.to_string(), id(v))).collect();
    check!(got == want, "the abbreviations found are {got:?}, those defined are {want:?}");
    Ok(())
}
