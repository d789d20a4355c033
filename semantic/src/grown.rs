//! One-dimensional families for C26-C31: every label, and sentences and lists that are large in one way.
use std::collections::BTreeMap;

use hun_law::{identifier::ActIdentifier, structure::Act};
use serde_json::{json, Value};

use crate::{
    check,
    choose::sizes,
    core::{Ctx, Unit},
    own,
    phrases::Phrase,
    spell::{self, ActNo, Level, Meant, Part, Spelling, Text, ARTICLE, PARAGRAPH, POINT, SUBPOINT},
};

pub fn keep(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

pub fn roman(mut n: usize) -> String {
    let mut out = String::new();
    for (v, s) in [
        (1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I"),
    ] {
        while n >= v {
            n -= v;
            out += s;
        }
    }
    out
}

const LETTERS: &[&str] = &[
    "a", "b", "c", "cs", "d", "dz", "e", "f", "g", "gy", "h", "i", "j", "k", "l", "ly", "m", "n", "ny", "o", "p", "q", "r", "s", "sz", "t", "ty", "u", "v", "w",
    "x", "y", "z", "zs",
];

/// Series of labels, each in order
fn series(level: usize, numeric: bool) -> Vec<Vec<&'static str>> {
    let numbers = |max: usize| (1..=max).map(|n| keep(n.to_string())).collect::<Vec<_>>();
    let upper = |p: &str| ('A'..='Z').map(|l| keep(format!("{p}/{l}"))).collect::<Vec<_>>();
    let lower = |p: &str| LETTERS.iter().map(|l| keep(format!("{p}{l}"))).collect::<Vec<_>>();
    match (level, numeric) {
        (ARTICLE, _) => {
            let mut v = vec![numbers(1300), upper("1"), upper("5"), upper("113"), upper("6:5")];
            for book in 1..=20 {
                v.push([1, 2, 9, 10, 17, 99, 100, 130, 600].map(|n| keep(format!("{book}:{n}"))).to_vec());
            }
            v
        }
        (PARAGRAPH, _) => vec![numbers(200), lower("1"), lower("2"), lower("13")],
        (POINT, true) => vec![numbers(300), lower("5"), lower("31"), lower("31/"), lower("100")],
        (POINT, false) => vec![LETTERS.to_vec()],
        (_, true) => vec![numbers(200)],
        (_, false) => ('a'..='z')
            .map(|f| ('a'..='z').map(|l| keep(format!("{f}{l}"))).collect())
            .chain([('a'..='z').map(|l| keep(l.to_string())).collect()])
            .collect(),
    }
}

/// The levels above a label
fn above(level: usize) -> &'static [spell::Shape] {
    match level {
        ARTICLE => &[&[]],
        PARAGRAPH => &[&[(0, false)], &[]],
        POINT => &[&[(0, false), (1, false)], &[(0, false)], &[]],
        _ => &[&[(0, false), (1, false), (2, false)], &[]],
    }
}

const SUFFIX: [&str; 4] = ["§-a", "bekezdése", "pontja", "alpontja"];
const WITH: [&str; 4] = ["§-sal", "bekezdéssel", "ponttal", "alponttal"];
const INSIDE: [&str; 4] = ["§", "bekezdés", "pont", "alpont"];

fn one(level: usize, numeric: bool, parts: Vec<Part>, suffix: &'static str) -> Level {
    Level { level, numeric, parts, suffix, dash: "–", form: 0, separators: vec![", "] }
}

fn outer(shape: spell::Shape) -> Vec<Level> {
    shape.iter().map(|&(l, n)| one(l, n, vec![Part(["5", "2", "b", "bc"][l], None)], INSIDE[l])).collect()
}

/// Labels alone, with the next one, and up to the next one
fn parts(series: &[&'static str], i: usize) -> Vec<(Vec<Part>, Part)> {
    let a = series[i];
    let mut out = vec![(vec![Part(a, None)], Part(a, None))];
    if let Some(b) = series.get(i + 1) {
        out.push((vec![Part(a, None), Part(b, None)], Part(a, Some(b))));
        out.push((vec![Part(a, Some(b))], Part(a, Some(b))));
    }
    out
}

/// A reference as the last level of every shape, with every label
fn references() -> Vec<(String, Vec<(Vec<Level>, Part)>)> {
    let mut out = vec![];
    for (level, numeric) in [(ARTICLE, false), (PARAGRAPH, false), (POINT, false), (POINT, true), (SUBPOINT, false), (SUBPOINT, true)] {
        for (n, s) in series(level, numeric).iter().enumerate() {
            let mut v = vec![];
            for shape in above(level) {
                for i in 0..s.len() {
                    for (ps, whole) in parts(s, i) {
                        let mut levels = outer(shape);
                        levels.push(one(level, numeric, ps, SUFFIX[level]));
                        v.push((levels, whole));
                    }
                }
            }
            out.push((format!("labels {level} {numeric} {n}"), v));
        }
    }
    out
}

fn judge(c: &Ctx, known: &BTreeMap<String, ActIdentifier>, p: &Phrase, name: &'static str) {
    c.case(
        || format!("{:?}", p.t.s.chars().take(4000).collect::<String>()),
        || {
            c.steps(1);
            c.validated();
            c.outcome(name);
            let info = own::extract(known, &p.t.s).map_err(|e| format!("{e:#}"))?;
            let got = serde_json::to_value(&info.special_phrase).unwrap();
            check!(got == p.phrase, "it is taken for {got}, and means {}", p.phrase);
            spell::compare(&info, &p.t)
        },
    )
}

fn unit(label: String, name: &'static str, make: impl Fn() -> Vec<Phrase> + Send + Sync + 'static) -> Unit<'static> {
    let known = spell::known();
    Unit {
        label,
        run: Box::new(move |c| {
            for p in make() {
                if c.stopped() {
                    return;
                }
                judge(c, &known, &p, name);
            }
        }),
    }
}

fn plain(t: Text) -> Phrase {
    Phrase { t, phrase: Value::Null }
}

type Large = (&'static str, usize, fn(usize) -> Phrase);

fn family(kinds: &'static [Large]) -> Vec<Unit<'static>> {
    let mut out = vec![];
    for (kind, max, f) in kinds {
        for n in sizes(*max) {
            out.push(unit(format!("{kind} {n}"), kind, move || vec![f(n)]));
        }
    }
    out
}

/// n labels of a level
fn some(level: usize, numeric: bool, n: usize) -> Vec<Part> {
    series(level, numeric)[0][..n].iter().map(|l| Part(l, None)).collect()
}

fn listed(shape: spell::Shape, level: usize, numeric: bool, n: usize) -> Text {
    let mut t = Text::default();
    t.put("A ");
    let mut levels = outer(shape);
    levels.push(one(level, numeric, some(level, numeric, n), SUFFIX[level]));
    Spelling { levels, joint: None }.write(&mut t, &mut Meant::default());
    t.put(" szerint.");
    t
}

fn the_act(t: &mut Text) -> Meant {
    let start = t.at();
    t.put("Btk.");
    let cur = Meant { act: Some((2012, "C", 100)), ..Default::default() };
    t.note(start, &cur);
    t.put(" ");
    cur
}

fn whole_ref(levels: &[Level]) -> Spelling {
    Spelling { levels: levels.to_vec(), joint: None }
}

fn simple(t: &mut Text, cur: &mut Meant, shape: spell::Shape, labels: &[&'static str]) {
    let levels = shape.iter().zip(labels).map(|(&(l, n), s)| one(l, n, vec![Part(s, None)], SUFFIX[l])).collect::<Vec<_>>();
    whole_ref(&levels).write(t, cur);
}

fn act_by_number(t: &mut Text, a: ActNo) -> Meant {
    let start = t.at();
    t.put(&format!("{}. évi {}. törvény", a.0, a.1));
    let cur = Meant { act: Some(a), ..Default::default() };
    t.note(start, &cur);
    cur
}

const SENTENCES: &[Large] = &[
    ("articles listed", 300, |n| plain(listed(&[], ARTICLE, false, n))),
    ("paragraphs listed", 200, |n| plain(listed(&[(0, false)], PARAGRAPH, false, n))),
    ("points listed", 34, |n| plain(listed(&[(0, false), (1, false)], POINT, false, n))),
    ("numbered points listed", 200, |n| plain(listed(&[(0, false), (1, false)], POINT, true, n))),
    ("numbered subpoints listed", 150, |n| plain(listed(&[(0, false), (2, false)], SUBPOINT, true, n))),
    ("references listed", 200, |n| {
        let mut t = Text::default();
        t.put("A ");
        let mut cur = Meant::default();
        for i in 0..n {
            if i > 0 {
                t.put(", a ");
            }
            simple(&mut t, &mut cur, &[(0, false), (1, false)], &[keep((i + 1).to_string()), "2"]);
        }
        t.put(" szerint.");
        plain(t)
    }),
    ("references of an act listed", 200, |n| {
        let mut t = Text::default();
        t.put("A ");
        let mut cur = the_act(&mut t);
        for i in 0..n {
            if i > 0 {
                t.put(", a ");
            }
            simple(&mut t, &mut cur, &[(0, false), (1, false), (2, false)], &[keep((i + 1).to_string()), "2", "c"]);
        }
        t.put(" szerint.");
        plain(t)
    }),
    ("references apart", 200, |n| {
        let mut t = Text::default();
        for i in 0..n {
            t.put("Ha a ");
            simple(&mut t, &mut Meant::default(), &[(0, false), (1, false)], &[keep((i + 1).to_string()), "3"]);
            t.put(" szerint kell, ");
        }
        t.put("akkor jó.");
        plain(t)
    }),
    ("acts", 200, |n| {
        let mut t = Text::default();
        for i in 0..n {
            t.put("A ");
            let mut cur = act_by_number(&mut t, (1900 + i as u32, keep(roman(i + 1)), i as u32 + 1));
            t.put(" ");
            simple(&mut t, &mut cur, &[(0, false)], &["7"]);
            t.put(" szerint kell, ");
        }
        t.put("akkor jó.");
        plain(t)
    }),
    ("definitions", 100, |n| {
        let mut t = Text::default();
        for i in 0..n {
            let a = (1900 + i as u32, keep(roman(i + 1)), i as u32 + 1);
            t.put("A ");
            act_by_number(&mut t, a);
            let name = keep(format!("T{}tv.", roman(i + 1).to_lowercase()));
            t.put(&format!(" (a továbbiakban: {name}) kell, a "));
            t.abbreviations.insert(name, a);
            let start = t.at();
            t.put(name);
            let mut cur = Meant { act: Some(a), ..Default::default() };
            t.note(start, &cur);
            t.put(" ");
            simple(&mut t, &mut cur, &[(0, false)], &["7"]);
            t.put(" is. ");
        }
        t.s.pop();
        plain(t)
    }),
    ("letters of a name", 200, |n| {
        let mut t = Text::default();
        let a = (1995, "CXVII", 117);
        t.put("A ");
        act_by_number(&mut t, a);
        let name = keep(format!("{}.", "Nőá".chars().cycle().take(n).collect::<String>()));
        t.put(&format!(" (a továbbiakban: {name}) kell, a "));
        t.abbreviations.insert(name, a);
        let start = t.at();
        t.put(name);
        let mut cur = Meant { act: Some(a), ..Default::default() };
        t.note(start, &cur);
        t.put(" ");
        simple(&mut t, &mut cur, &[(0, false)], &["7"]);
        t.put(" is.");
        plain(t)
    }),
    ("words before", 1000, |n| {
        let mut t = Text::default();
        t.put("Ha ").put(&"az eljárás közben ".repeat(n)).put("a ");
        simple(&mut t, &mut Meant::default(), &[(0, false), (1, false)], &["5", "2"]);
        t.put(" szerint.");
        plain(t)
    }),
    ("letters before", 1000, |n| {
        let mut t = Text::default();
        t.put("Az ").put(&"őrűlt".chars().cycle().take(n).collect::<String>()).put(" a ");
        let mut cur = the_act(&mut t);
        simple(&mut t, &mut cur, &[(0, false), (1, false)], &["5", "2"]);
        t.put(" szerint.");
        plain(t)
    }),
    ("quotes before", 100, |n| {
        let mut t = Text::default();
        t.put("Ha ").put(&"a „5. § (2) bekezdése” és ".repeat(n)).put(" a ");
        simple(&mut t, &mut Meant::default(), &[(0, false), (1, false)], &["5", "2"]);
        t.put(" szerint.");
        plain(t)
    }),
    ("letters of a quote", 1000, |n| {
        let mut t = Text::default();
        t.put("Ha a „").put(&"5. § a".chars().cycle().take(n).collect::<String>()).put("” szöveg a ");
        simple(&mut t, &mut Meant::default(), &[(0, false), (1, false)], &["5", "2"]);
        t.put(" szerint.");
        plain(t)
    }),
    ("quotes in quotes", 40, |n| {
        let mut t = Text::default();
        t.put("Ha ").put(&"„egy 5. § ".repeat(n)).put(&"két 3. § ”".repeat(n)).put(" a ");
        simple(&mut t, &mut Meant::default(), &[(0, false), (1, false)], &["5", "2"]);
        t.put(" szerint.");
        plain(t)
    }),
];

fn every_label() -> Vec<Unit<'static>> {
    references()
        .into_iter()
        .map(|(label, refs)| {
            unit(label, "every label", move || {
                refs.iter()
                    .flat_map(|(levels, _)| {
                        [false, true].map(|with_act| {
                            let mut t = Text::default();
                            t.put("A ");
                            // Elements of an act are named from the article down.
                            let mut cur = if with_act && levels[0].level == ARTICLE { the_act(&mut t) } else { Meant::default() };
                            whole_ref(levels).write(&mut t, &mut cur);
                            t.put(" szerint.");
                            plain(t)
                        })
                    })
                    .collect()
            })
        })
        .collect()
}

fn every_act() -> Vec<Unit<'static>> {
    vec![
        unit("numbers of acts".into(), "every act", || {
            (1..=399)
                .map(|n| {
                    let mut t = Text::default();
                    t.put("A ");
                    let mut cur = act_by_number(&mut t, (2012, keep(roman(n)), n as u32));
                    t.put(" ");
                    simple(&mut t, &mut cur, &[(0, false)], &["7"]);
                    t.put(" szerint.");
                    plain(t)
                })
                .collect()
        }),
        unit("years of acts".into(), "every act", || {
            (1800..=2100)
                .map(|y| {
                    let mut t = Text::default();
                    t.put("A ");
                    let mut cur = act_by_number(&mut t, (y, "XLIX", 49));
                    t.put(" ");
                    simple(&mut t, &mut cur, &[(0, false)], &["7"]);
                    t.put(" szerint.");
                    plain(t)
                })
                .collect()
        }),
    ]
}

/// Abbreviations that were known before
fn many_known() -> Vec<Unit<'static>> {
    sizes(400)
        .into_iter()
        .map(|n| Unit {
            label: format!("known {n}"),
            run: Box::new(move |c| {
                let acts: Vec<(&'static str, ActNo)> =
                    (1..=n).map(|i| (keep(format!("{}tv.", "XYZUV".chars().nth(i % 5).unwrap().to_string() + &"abcdefghij".chars().cycle().skip(i % 7).take(i / 5 + 1).collect::<String>())), (1900 + (i % 100) as u32, "I", i as u32))).collect();
                let known: BTreeMap<String, ActIdentifier> = acts.iter().map(|(k, a)| (k.to_string(), spell::id(a))).collect();
                for at in [0, n / 2, n - 1] {
                    let mut t = Text::default();
                    t.put("A ");
                    let start = t.at();
                    t.put(acts[at].0);
                    let a = known[acts[at].0];
                    let mut cur = Meant { act: Some((a.year as _, "", a.number as _)), ..Default::default() };
                    t.note(start, &cur);
                    t.put(" ");
                    simple(&mut t, &mut cur, &[(0, false)], &["7"]);
                    t.put(" szerint.");
                    judge(c, &known, &plain(t), "many known");
                }
            }),
        })
        .collect()
}

pub fn c26() -> Vec<Unit<'static>> {
    let mut u = every_label();
    u.extend(every_act());
    u.extend(many_known());
    u.extend(family(SENTENCES));
    u
}

// ---- amendments

fn position(act: &Meant, levels: &[Level], last: &Part) -> Meant {
    let mut whole = Meant { act: act.act, ..Default::default() };
    for l in levels {
        whole.set(l.level, l.parts[0].clone());
    }
    whole.set(levels.last().unwrap().level, last.clone());
    whole
}

fn block(whole: &Meant, pure_insertion: bool) -> Value {
    let v = whole.data();
    if whole.parts[1..].iter().all(|p| p.is_none()) {
        json!({"StructuralBlockAmendment": {"position": {"act": v["act"], "structural_element": {"Article": v["article"]}}, "pure_insertion": pure_insertion}})
    } else {
        json!({"BlockAmendment": {"position": v, "pure_insertion": pure_insertion}})
    }
}

pub fn c28() -> Vec<Unit<'static>> {
    let mut out: Vec<Unit> = references()
        .into_iter()
        .map(|(label, refs)| {
            unit(label, "every label", move || {
                let mut out = vec![];
                for (levels, last) in &refs {
                    if levels[0].level != ARTICLE {
                        continue;
                    }
                    for insertion in [false, true] {
                        let mut t = Text::default();
                        t.put("A ");
                        let mut cur = the_act(&mut t);
                        let whole = position(&cur, levels, last);
                        let mut levels = levels.clone();
                        let end = levels.len() - 1;
                        if insertion {
                            levels[end].suffix = WITH[levels[end].level];
                        }
                        let joint = insertion.then_some((end, if end == 0 { "a következő " } else { " a következő " }));
                        Spelling { levels, joint }.write(&mut t, &mut cur);
                        t.put(if insertion { " egészül ki:" } else { " helyébe a következő rendelkezés lép:" });
                        out.push(Phrase { t, phrase: block(&whole, insertion) });
                    }
                }
                out
            })
        })
        .collect();
    out.push(unit("structure".into(), "every structural element", || {
        let mut out = vec![];
        let mut add = |name: String, ending: (&str, &str), data: Value| {
            for insertion in [false, true] {
                let mut t = Text::default();
                t.put("A ");
                let cur = the_act(&mut t);
                let act = cur.data()["act"].clone();
                if insertion {
                    t.put("a következő ").put(&name).put(ending.1).put(" egészül ki:");
                } else {
                    t.put(&name).put(ending.0).put(" helyébe a következő rendelkezés lép:");
                }
                out.push(Phrase { t, phrase: json!({"StructuralBlockAmendment": {"position": {"act": act, "structural_element": data}, "pure_insertion": insertion}}) });
            }
        };
        for n in 1..=399 {
            add(format!("{}. Fejezet", roman(n)), ("e", "tel"), json!({"Chapter": n.to_string()}));
            add(format!("{}. Cím", roman(n)), ("e", "mel"), json!({"Title": n.to_string()}));
            add(format!("{n}. alcím"), ("e", "mel"), json!({"SubtitleId": n.to_string()}));
            if n > 1 {
                add(format!("{}–{n}. alcím", n - 1), ("e", "mel"), json!({"SubtitleRange": {"start": (n - 1).to_string(), "end": n.to_string()}}));
            }
        }
        for l in 'A'..='Z' {
            let low = l.to_ascii_lowercase();
            add(format!("XL/{l}. Fejezet"), ("e", "tel"), json!({"Chapter": format!("40{low}")}));
            add(format!("V/{l}. Cím"), ("e", "mel"), json!({"Title": format!("5{low}")}));
            add(format!("12/{l}. alcím"), ("e", "mel"), json!({"SubtitleId": format!("12{low}")}));
        }
        for (i, o) in ORDINALS.iter().enumerate() {
            let capital: String = o.chars().take(1).flat_map(|c| c.to_uppercase()).chain(o.chars().skip(1)).collect();
            for name in [format!("{capital} rész"), format!("{} RÉSZ", o.to_uppercase()), format!("{capital} Rész")] {
                add(name, ("e", "szel"), json!({"Part": (i + 1).to_string()}));
            }
        }
        out
    }));
    out.push(unit("books".into(), "every structural element", || {
        let mut out = vec![];
        for (i, o) in ORDINALS.iter().enumerate() {
            for insertion in [false, true] {
                let mut t = Text::default();
                t.put("A ");
                let cur = the_act(&mut t);
                let capital: String = o.chars().take(1).flat_map(|c| c.to_uppercase()).chain(o.chars().skip(1)).collect();
                t.put(&capital).put(" Könyv ");
                t.put(if insertion { "a következő III. Fejezettel egészül ki:" } else { "III. Fejezete helyébe a következő rendelkezés lép:" });
                let position = json!({"act": cur.data()["act"], "book": (i + 1).to_string(), "structural_element": {"Chapter": "3"}});
                out.push(Phrase { t, phrase: json!({"StructuralBlockAmendment": {"position": position, "pure_insertion": insertion}}) });
            }
        }
        out
    }));
    out.extend(family(BLOCKS));
    out
}

const ORDINALS: [&str; 19] = [
    "első", "második", "harmadik", "negyedik", "ötödik", "hatodik", "hetedik", "nyolcadik", "kilencedik", "tizedik", "tizenegyedik", "tizenkettedik",
    "tizenharmadik", "tizennegyedik", "tizenötödik", "tizenhatodik", "tizenhetedik", "tizennyolcadik", "tizenkilencedik",
];

const BLOCKS: &[Large] = &[
    ("articles replaced", 200, |n| {
        let mut t = Text::default();
        t.put("A ");
        let mut cur = the_act(&mut t);
        let ps = some(ARTICLE, false, n);
        let whole = Part(ps[0].0, (n > 1).then(|| ps[n - 1].0));
        let levels = vec![one(ARTICLE, false, ps, "§-a")];
        let at = position(&cur, &levels, &whole);
        whole_ref(&levels).write(&mut t, &mut cur);
        t.put(" helyébe a következő rendelkezések lépnek:");
        Phrase { t, phrase: block(&at, false) }
    }),
    ("paragraphs added", 100, |n| {
        let mut t = Text::default();
        t.put("A ");
        let mut cur = the_act(&mut t);
        let ps = some(PARAGRAPH, false, n);
        let whole = Part(ps[0].0, (n > 1).then(|| ps[n - 1].0));
        let levels = vec![one(ARTICLE, false, vec![Part("5", None)], "§-a"), one(PARAGRAPH, false, ps, "bekezdéssel")];
        let at = position(&cur, &levels, &whole);
        Spelling { levels, joint: Some((1, " a következő ")) }.write(&mut t, &mut cur);
        t.put(" egészül ki:");
        Phrase { t, phrase: block(&at, true) }
    }),
    ("words of the title of the act", 200, |n| {
        let mut t = Text::default();
        t.put("A ").put(&"csodákról és a varázslatról, ".repeat(n)).put("más dolgokról szóló ");
        let mut cur = act_by_number(&mut t, (2001, "CXII", 112));
        t.put(" ");
        let levels = vec![one(ARTICLE, false, vec![Part("5", None)], "§"), one(PARAGRAPH, false, vec![Part("2", None)], "bekezdése")];
        let at = position(&cur, &levels, &Part("2", None));
        whole_ref(&levels).write(&mut t, &mut cur);
        t.put(" helyébe a következő rendelkezés lép:");
        Phrase { t, phrase: block(&at, false) }
    }),
    ("letters of the title of a subtitle", 400, |n| {
        let mut t = Text::default();
        t.put("A ");
        let cur = the_act(&mut t);
        let title: String = "Őrzés, ".chars().cycle().take(n).collect::<String>().trim().to_string();
        t.put(&format!("„{title}” alcíme helyébe a következő rendelkezés lép:"));
        Phrase {
            t,
            phrase: json!({"StructuralBlockAmendment": {"position": {"act": cur.data()["act"], "structural_element": {"SubtitleTitle": title}}, "pure_insertion": false}}),
        }
    }),
];

// ---- texts and repeals

fn sae(refs: &[(usize, usize, Value)]) -> Vec<Value> {
    refs.iter().map(|r| json!({"SAE": {"reference": r.2}})).collect()
}

fn texts(t: Text, before: usize, pairs: &[(String, String)]) -> Phrase {
    let mut t = t;
    let refs = sae(&t.refs[before..]);
    for (i, (from, to)) in pairs.iter().enumerate() {
        t.put(if i == 0 { " a " } else { " szöveg, a " }).put(&format!("„{from}” szövegrész helyébe a „{to}”"));
    }
    t.put(" szöveg lép.");
    let phrase: Vec<Value> = refs.iter().flat_map(|r| pairs.iter().map(move |(f, to)| json!({"reference": r, "from": f, "to": to}))).collect();
    Phrase { t, phrase: json!({"TextAmendment": phrase}) }
}

fn repeal(t: Text, before: usize) -> Phrase {
    let mut t = t;
    t.put(".");
    let phrase: Vec<Value> = t.refs[before..].iter().map(|r| json!({"Reference": r.2})).collect();
    Phrase { t, phrase: json!({"Repeal": phrase}) }
}

fn many(n: usize, repealed: bool) -> (Text, usize) {
    let mut t = Text::default();
    t.put(if repealed { "Hatályát veszti a " } else { "A " });
    let mut cur = the_act(&mut t);
    let before = t.refs.len();
    for i in 0..n {
        if i > 0 {
            t.put(", ");
        }
        simple(&mut t, &mut cur, &[(0, false), (1, false)], &[keep((i + 1).to_string()), "2"]);
    }
    (t, before)
}

fn pairs(n: usize) -> Vec<(String, String)> {
    (0..n).map(|i| (format!("régi {i}."), format!("új „{i}” szöveg"))).collect()
}

const TEXTS: &[Large] = &[
    ("targets of a text amendment", 200, |n| {
        let (t, at) = many(n, false);
        texts(t, at, &pairs(2))
    }),
    ("texts of a text amendment", 150, |n| {
        let (t, at) = many(2, false);
        texts(t, at, &pairs(n))
    }),
    ("letters of a replaced text", 1000, |n| {
        let (t, at) = many(1, false);
        let long: String = "ős, az 5. § (2) bekezdés".chars().cycle().take(n).collect();
        texts(t, at, &[(long.trim().into(), "új".into()), ("régi".into(), format!("{}x", long))])
    }),
    ("targets of a repeal", 200, |n| {
        let (t, at) = many(n, true);
        repeal(t, at)
    }),
    ("articles of a repeal", 200, |n| {
        let mut t = Text::default();
        t.put("Hatályát veszti a ");
        let mut cur = the_act(&mut t);
        let at = t.refs.len();
        whole_ref(&[one(ARTICLE, false, some(ARTICLE, false, n), "§-a")]).write(&mut t, &mut cur);
        repeal(t, at)
    }),
    ("texts of a repeal", 150, |n| {
        let (mut t, at) = many(1, true);
        let refs = sae(&t.refs[at..]);
        let mut phrase = vec![];
        for i in 0..n {
            t.put(if i == 0 { " a " } else { ", a " }).put(&format!("„régi {i}.” szövegrész"));
            phrase.push(json!({"reference": refs[0], "from": format!("régi {i}."), "to": ""}));
        }
        t.put(".");
        Phrase { t, phrase: json!({"TextAmendment": phrase}) }
    }),
];

pub fn c29() -> Vec<Unit<'static>> {
    let mut out: Vec<Unit> = references()
        .into_iter()
        .map(|(label, refs)| {
            unit(label, "every label", move || {
                let mut out = vec![];
                for (levels, _) in refs.iter().filter(|r| r.0[0].level == ARTICLE) {
                    for repealed in [false, true] {
                        let mut t = Text::default();
                        t.put(if repealed { "Hatályát veszti a " } else { "A " });
                        let mut cur = the_act(&mut t);
                        let at = t.refs.len();
                        whole_ref(levels).write(&mut t, &mut cur);
                        out.push(if repealed { repeal(t, at) } else { texts(t, at, &pairs(1)) });
                    }
                }
                out
            })
        })
        .collect();
    out.extend(family(TEXTS));
    out
}

// ---- dates

const MONTHS: [&str; 12] =
    ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"];

fn days(year: usize, month: usize) -> usize {
    let leap = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
    [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month]
}

fn in_force(at: &[Value], t: &mut Text, when: &str, date: Value) -> Value {
    t.put(when).put(" lép hatályba.");
    if at.is_empty() {
        json!({"EnforcementDate": {"is_default": true, "date": date}})
    } else {
        json!({"EnforcementDate": {"positions": at, "date": date}})
    }
}

const DATES: &[Large] = &[
    ("places in force", 200, |n| {
        let mut t = Text::default();
        t.put("Az ");
        let mut cur = Meant::default();
        for i in 0..n {
            if i > 0 {
                t.put(", ");
            }
            simple(&mut t, &mut cur, &[(0, false), (1, false)], &[keep((i + 1).to_string()), "2"]);
        }
        let at: Vec<Value> = t.refs.iter().map(|r| r.2.clone()).collect();
        let phrase = in_force(&at, &mut t, " 2013. május 9-én", json!({"Date": "2013-05-09"}));
        Phrase { t, phrase }
    }),
    ("articles in force", 200, |n| {
        let mut t = Text::default();
        t.put("Az ");
        whole_ref(&[one(ARTICLE, false, some(ARTICLE, false, n), "§")]).write(&mut t, &mut Meant::default());
        let at: Vec<Value> = t.refs.iter().map(|r| r.2.clone()).collect();
        let phrase = in_force(&at, &mut t, " 2013. május 9-én", json!({"Date": "2013-05-09"}));
        Phrase { t, phrase }
    }),
    ("days", 3001, |n| {
        let mut t = Text::default();
        t.put("Ez a törvény ");
        let phrase = in_force(&[], &mut t, &format!("a kihirdetését követő {n}. napon"), json!({"DaysAfterPublication": n}));
        Phrase { t, phrase }
    }),
    ("exceptions", 100, |n| {
        let mut t = Text::default();
        t.put("Ez a törvény – a ");
        // These are not references of the sentence.
        let mut inner = Text::default();
        whole_ref(&[one(PARAGRAPH, false, some(PARAGRAPH, false, n), "bekezdésben")]).write(&mut inner, &mut Meant::default());
        t.put(&inner.s).put(" foglalt kivétellel – ");
        let phrase = in_force(&[], &mut t, "2013. május 9-én", json!({"Date": "2013-05-09"}));
        Phrase { t, phrase }
    }),
];

pub fn c30() -> Vec<Unit<'static>> {
    let mut out: Vec<Unit> = references()
        .into_iter()
        .map(|(label, refs)| {
            unit(label, "every label", move || {
                refs.iter()
                    .map(|(levels, _)| {
                        let mut t = Text::default();
                        t.put("Az ");
                        whole_ref(levels).write(&mut t, &mut Meant::default());
                        let at: Vec<Value> = t.refs.iter().map(|r| r.2.clone()).collect();
                        let phrase = in_force(&at, &mut t, " a kihirdetését követő napon", json!({"DaysAfterPublication": 1}));
                        Phrase { t, phrase }
                    })
                    .collect()
            })
        })
        .collect();
    for year in 1900..=2100usize {
        out.push(unit(format!("days of {year}"), "every day", move || {
            let mut out = vec![];
            for month in 0..12 {
                for day in 1..=days(year, month) {
                    // All days of some years, the ends of the months of all
                    if !matches!(year, 1900 | 1999 | 2000 | 2012 | 2013 | 2024 | 2100) && day != 1 && day < 28 {
                        continue;
                    }
                    for end in ["-én", ". napján"] {
                        let mut t = Text::default();
                        t.put("Ez a törvény ");
                        let iso = format!("{year}-{:02}-{day:02}", month + 1);
                        let phrase = in_force(&[], &mut t, &format!("{year}. {} {day}{end}", MONTHS[month]), json!({"Date": iso}));
                        out.push(Phrase { t, phrase });
                        let mut t = Text::default();
                        t.put(&format!("Ez a törvény 1899. május 9-én lép hatályba, és {year}. {} {day}{end} hatályát veszti.", MONTHS[month]));
                        out.push(Phrase {
                            t,
                            phrase: json!({"EnforcementDate": {"is_default": true, "date": {"Date": "1899-05-09"}, "inline_repeal": iso}}),
                        });
                    }
                }
            }
            out
        }));
    }
    out.extend(family(DATES));
    out
}

// ---- whole acts

fn make(paragraphs: Vec<Vec<Value>>) -> Act {
    let articles: Vec<Value> =
        paragraphs.into_iter().enumerate().map(|(i, p)| json!({"Article": {"identifier": (i + 1).to_string(), "children": p}})).collect();
    serde_json::from_value(json!({
        "identifier": {"year": 2345, "number": 13}, "subject": "A tesztelésről", "preamble": "", "publication_date": "2345-06-07",
        "contained_abbreviations": spell::KNOWN.iter().map(|(k, a)| (k.to_string(), json!({"year": a.0, "number": a.2}))).collect::<serde_json::Map<_, _>>(),
        "children": articles,
    }))
    .unwrap()
}

/// Everything that is found, in the order of the text: (the text it is in, references, phrase)
fn found(v: &Value, out: &mut Vec<(String, Value)>) {
    match v {
        Value::Object(m) => {
            if let Some(b) = m.get("body") {
                let text = b.as_str().or_else(|| b["intro"].as_str()).unwrap_or("").to_string();
                out.push((text, m.get("semantic_info").cloned().unwrap_or(Value::Null)));
            }
            for (_, x) in m.iter().filter(|x| x.0 != "semantic_info") {
                found(x, out);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| found(x, out)),
        _ => (),
    }
}

/// An act, and for texts in it: what they say
type Stated = (Vec<Vec<Value>>, Vec<(String, Vec<(usize, usize, Value)>, Value)>);
type LargeAct = (&'static str, usize, fn(usize) -> Stated);

/// "A Btk. 5. §-a" over and over, the number telling which one it is
fn said(i: usize, lead: &str) -> (String, Vec<(usize, usize, Value)>) {
    let mut t = Text::default();
    t.put(lead);
    let mut cur = the_act(&mut t);
    simple(&mut t, &mut cur, &[(0, false)], &[keep((i + 1).to_string())]);
    t.put(" szerint");
    (t.s, t.refs)
}

fn point_ids(n: usize) -> Vec<String> {
    (1..=n).map(|i| i.to_string()).collect()
}

const ACTS: &[LargeAct] = &[
    ("points of a list", 300, |n| {
        let mut want = vec![];
        let points: Vec<Value> = point_ids(n)
            .iter()
            .enumerate()
            .map(|(i, id)| {
                let (s, refs) = said(i, "a ");
                want.push((s.clone(), refs, Value::Null));
                json!({"identifier": id, "body": s})
            })
            .collect();
        (vec![vec![json!({"identifier": "1", "body": {"intro": "Nem kell, ha", "children": {"NumericPoint": points}}})]], want)
    }),
    ("repeals in a list", 300, |n| {
        let mut want = vec![];
        let points: Vec<Value> = point_ids(n)
            .iter()
            .enumerate()
            .map(|(i, id)| {
                let (s, refs) = said(i, "");
                let s = s.trim_end_matches(" szerint").to_string();
                let phrase = json!({"Repeal": [{"Reference": refs[1].2}]});
                want.push((s.clone(), refs, phrase));
                json!({"identifier": id, "body": s})
            })
            .collect();
        (vec![vec![json!({"identifier": "1", "body": {"intro": "Hatályát veszti a", "children": {"NumericPoint": points}}})]], want)
    }),
    ("subpoints of a list", 200, |n| {
        let mut want = vec![];
        let points: Vec<Value> = point_ids(n)
            .iter()
            .enumerate()
            .map(|(i, id)| {
                let (s, refs) = said(i, "a ");
                want.push((s.clone(), refs, Value::Null));
                json!({"identifier": id, "body": s})
            })
            .collect();
        let point = json!({"identifier": "a", "body": {"intro": "egy", "children": {"NumericSubpoint": points}}});
        let (s, refs) = said(n, "b ");
        want.push((s.clone(), refs, Value::Null));
        let last = json!({"identifier": "b", "body": s});
        (vec![vec![json!({"identifier": "1", "body": {"intro": "Nem kell, ha", "children": {"AlphabeticPoint": [point, last]}, "wrap_up": "és kész."}})]], want)
    }),
    ("paragraphs", 300, |n| {
        let mut want = vec![];
        let paragraphs = (0..n)
            .map(|i| {
                let (s, refs) = said(i, "A ");
                want.push((s.clone(), refs, Value::Null));
                json!({"identifier": (i + 1).to_string(), "body": s})
            })
            .collect();
        (vec![paragraphs], want)
    }),
    ("articles", 600, |n| {
        let mut want = vec![];
        let articles = (0..n)
            .map(|i| {
                let (s, refs) = said(i, "A ");
                want.push((s.clone(), refs, Value::Null));
                vec![json!({"body": s})]
            })
            .collect();
        (articles, want)
    }),
    ("letters of the intro", 1000, |n| {
        let (s, refs) = said(0, "a ");
        let intro: String = "ő, és ".chars().cycle().take(n).collect();
        let point = json!({"identifier": "a", "body": s});
        (
            vec![vec![json!({"identifier": "1", "body": {"intro": format!("A{intro}x"), "children": {"AlphabeticPoint": [point, {"identifier": "b", "body": "más"}]}}})]],
            vec![(s, refs, Value::Null)],
        )
    }),
    ("letters of the wrap-up", 1000, |n| {
        let (s, refs) = said(0, "a ");
        let wrap: String = "ő, és ".chars().cycle().take(n).collect();
        let point = json!({"identifier": "a", "body": s});
        (
            vec![vec![
                json!({"identifier": "1", "body": {"intro": "Nem kell, ha", "children": {"AlphabeticPoint": [point, {"identifier": "b", "body": "más"}]}, "wrap_up": format!("x{wrap}.")}}),
            ]],
            vec![(s, refs, Value::Null)],
        )
    }),
];

fn info_value(refs: &[(usize, usize, Value)], phrase: &Value) -> (Vec<Value>, Value) {
    (refs.iter().map(|r| json!([r.0, r.1, r.2])).collect(), phrase.clone())
}

pub fn c31() -> Vec<Unit<'static>> {
    let mut out = vec![];
    for (kind, max, f) in ACTS {
        for n in sizes(*max) {
            out.push(Unit {
                label: format!("{kind} {n}"),
                run: Box::new(move |c| {
                    let (paragraphs, want) = f(n);
                    c.case(
                        || format!("{kind}: {n}"),
                        || {
                            c.steps(want.len() as u64);
                            c.validated();
                            c.outcome(kind);
                            let mut act = make(paragraphs.clone());
                            act.add_semantic_info().map_err(|e| format!("{e:#}"))?;
                            let mut all = vec![];
                            found(&serde_json::to_value(&act).unwrap(), &mut all);
                            let all: BTreeMap<String, Value> = all.into_iter().collect();
                            for (s, refs, phrase) in &want {
                                let got: hun_law::semantic_info::SemanticInfo = match &all[s] {
                                    Value::Null => Default::default(),
                                    v => serde_json::from_value(v.clone()).map_err(|e| e.to_string())?,
                                };
                                let got_refs: Vec<Value> = got.outgoing_references.iter().map(|r| json!([r.start, r.end, r.reference])).collect();
                                let (want_refs, want_phrase) = info_value(refs, phrase);
                                check!(got_refs == want_refs, "the references of {s:?} are {got_refs:?}, those written are {want_refs:?}");
                                let got_phrase = serde_json::to_value(&got.special_phrase).unwrap();
                                check!(got_phrase == want_phrase, "{s:?} is taken for {got_phrase}, and means {want_phrase}");
                            }
                            Ok(())
                        },
                    );
                }),
            });
        }
    }
    out
}

/// Acts that define many abbreviations and use them later
pub fn c27() -> Vec<Unit<'static>> {
    let mut out = vec![];
    for n in sizes(300) {
        for kind in 0..3 {
            out.push(Unit {
                label: format!("definitions {kind} {n}"),
                run: Box::new(move |c| {
                    c.case(
                        || format!("{n} definitions, arranged as {kind}"),
                        || {
                            c.steps(n as u64);
                            c.validated();
                            c.outcome("many definitions");
                            let name = |i: usize| format!("T{}tv.", roman(i + 1).to_lowercase());
                            let id = |i: usize| (1900 + (i % 120) as u32, i as u32 + 1);
                            let define = |i: usize| format!("A {}. évi {}. törvény (a továbbiakban: {}) kell.", id(i).0, roman(i + 1), name(i));
                            let used = |i: usize| format!("A {} 7. §-a szerint.", name(i));
                            let texts: Vec<String> = match kind {
                                // All definitions first; or each before its use; or one name, defined again and again
                                0 => (0..n).map(define).chain((0..n).map(used)).collect(),
                                1 => (0..n).flat_map(|i| [define(i), used(i)]).collect(),
                                _ => (0..n).flat_map(|i| [define(i).replace(&name(i), "Xtv."), "A Xtv. 7. §-a szerint.".into()]).collect(),
                            };
                            let want: Vec<Option<usize>> = match kind {
                                0 => (0..n).map(|_| None).chain((0..n).map(Some)).collect(),
                                _ => (0..n).flat_map(|i| [None, Some(i)]).collect(),
                            };
                            let mut act = make(texts.iter().map(|t| vec![json!({"body": t})]).collect());
                            act.add_semantic_info().map_err(|e| format!("{e:#}"))?;
                            for (article, (text, want)) in act.articles().zip(texts.iter().zip(&want)) {
                                let Some(i) = want else { continue };
                                let got: Vec<Value> =
                                    article.children[0].semantic_info.outgoing_references.iter().map(|r| serde_json::to_value(&r.reference).unwrap()).collect();
                                let a = json!({"year": id(*i).0, "number": id(*i).1});
                                let want = vec![json!({"act": a}), json!({"act": a, "article": "7"})];
                                check!(got == want, "{text:?} refers to {got:?}, and means {want:?}");
                            }
                            let known = act.contained_abbreviations.len() - spell::KNOWN.len();
                            let should = if kind == 2 { 1 } else { n };
                            check!(known == should, "{known} new abbreviations are known, {should} are defined");
                            // Once more: nothing changes.
                            let before = serde_json::to_value(&act).unwrap();
                            if kind != 2 {
                                let r = act.add_semantic_info().map_err(|e| format!("{e:#}"))?;
                                check!(r == hun_law::parser::semantic_info::AbbreviationsChanged::No, "nothing changed, and it says it did");
                                check!(serde_json::to_value(&act).unwrap() == before, "reading the act again gives something else");
                            }
                            Ok(())
                        },
                    );
                }),
            });
        }
    }
    out
}
