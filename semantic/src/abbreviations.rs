//! C27: abbreviations over the life of an act.
use std::collections::BTreeMap;

use hun_law::{
    identifier::{ActIdentifier, ArticleIdentifier},
    parser::semantic_info::AbbreviationsChanged,
    semantic_info::SemanticInfo,
    structure::{Act, SAEBody},
};
use serde_json::{json, Value};

use crate::{
    check,
    core::{Ctx, Tier, Unit},
};

type A = (i32, i32);
type Cache = BTreeMap<&'static str, A>;

/// A sentence, and what is in it: definitions first, then references (start, what is meant by it if known).
#[derive(Clone, Copy)]
enum Bit {
    Text(&'static str),
    /// An act by its number, with an abbreviation or without
    Act(A, &'static str, Option<&'static str>),
    /// Used; where it is not known, it is a word.
    Short(&'static str),
    /// An article after whatever was before
    Article(&'static str),
}
use Bit::*;

const MENU: &[&[Bit]] = &[
    &[Text("Semmi sem.")],
    &[Text("A "), Act((2001, 2), "II", Some("Xtv.")), Text(" "), Article("5"), Text(" kell.")],
    &[Text("A csodákról szóló "), Act((1999, 2), "II", Some("Xtv.")), Text(" nem kell.")],
    &[Text("A "), Act((2001, 2), "II", Some("Ytv.")), Text(" és ez.")],
    &[Text("Az "), Short("Xtv."), Text(" "), Article("5"), Text(" és a "), Short("Ytv."), Text(" "), Article("12"), Text(" kell.")],
    &[Text("Az "), Short("Xtv."), Text(" "), Article("6"), Text(" szerint a "), Act((2010, 9), "IX", Some("Ytv.")), Text(" "), Article("7"), Text(".")],
    &[Text("A "), Act((2012, 100), "C", Some("Xtv. II.")), Text(" "), Article("1"), Text(".")],
    &[Text("Az "), Short("Xtv. II."), Text(" "), Article("4"), Text(" kell.")],
    &[Text("Hatályát veszti az "), Short("Xtv."), Text(" "), Article("8"), Text(".")],
    &[Text("A "), Act((2001, 2), "II", None), Text(" "), Article("3"), Text(" kell.")],
    &[
        Text("A "), Act((2001, 5), "V", Some("Xtv.")), Text(" "), Article("3"), Text(" és a "), Act((2010, 9), "IX", Some("Ytv.")), Text(" "), Article("2"),
        Text("."),
    ],
];

fn text(bits: &[Bit]) -> String {
    bits.iter()
        .map(|b| match b {
            Text(s) | Short(s) => s.to_string(),
            Act(a, roman, None) => format!("{}. évi {roman}. törvény", a.0),
            Act(a, roman, Some(s)) => format!("{}. évi {roman}. törvény (a továbbiakban: {s})", a.0),
            Article(n) => format!("{n}. §-a"),
        })
        .collect()
}

#[derive(Debug, Clone, Default, PartialEq)]
struct Info {
    refs: Vec<(usize, usize, Value)>,
    new: Vec<(&'static str, A)>,
    repeals: bool,
}

fn act_ref(a: A) -> Value {
    json!({"year": a.0, "number": a.1})
}

/// The model: what one sentence says when these abbreviations are known
fn read(bits: &'static [Bit], cache: &mut Cache) -> Info {
    let mut info = Info::default();
    for b in bits {
        if let Act(a, _, Some(s)) = b {
            cache.insert(s, *a);
            info.new.push((s, *a));
        }
    }
    let mut at = 0;
    let mut current: Option<A> = None;
    for b in bits {
        let len = text(&[*b]).len();
        match b {
            Text(" ") => (),
            Text(_) => current = None,
            Act(a, roman, _) => {
                info.refs.push((at, at + format!("{}. évi {roman}. törvény", a.0).len(), json!({"act": act_ref(*a)})));
                current = Some(*a);
            }
            Short(s) => {
                // The longest one that is known
                current = None;
                if let Some((k, a)) = cache.iter().filter(|(k, _)| s.starts_with(**k)).max_by_key(|(k, _)| k.len()) {
                    info.refs.push((at, at + k.len(), json!({"act": act_ref(*a)})));
                    if k == s {
                        current = Some(*a);
                    }
                }
            }
            Article(n) => {
                let mut v = json!({"article": n});
                if let Some(a) = current {
                    v["act"] = act_ref(a);
                    info.repeals = matches!(bits[0], Text("Hatályát veszti az "));
                }
                info.refs.push((at, at + len, v));
            }
        }
        at += len;
    }
    info
}

fn view(i: &SemanticInfo) -> Value {
    json!({
        "refs": i.outgoing_references.iter().map(|r| json!([r.start, r.end, r.reference])).collect::<Vec<_>>(),
        "new": i.new_abbreviations,
        "phrase": i.special_phrase,
    })
}

fn view_model(i: &Info) -> Value {
    let new: serde_json::Map<String, Value> = i.new.iter().map(|(k, a)| (k.to_string(), act_ref(*a))).collect();
    let phrase = if i.repeals { json!({"Repeal": [{"Reference": i.refs.last().unwrap().2}]}) } else { Value::Null };
    json!({"refs": i.refs.iter().map(|r| json!([r.0, r.1, r.2])).collect::<Vec<_>>(), "new": new, "phrase": phrase})
}

#[derive(Debug, Clone, Copy)]
enum Op {
    All,
    Article(usize),
    Missing,
    Write(usize, usize),
}

/// Paragraphs 0 and 1 are of article 1, paragraph 2 is of article 2.
const HOME: [usize; 3] = [0, 0, 1];

#[derive(Clone)]
struct Model {
    texts: [usize; 3],
    infos: [Info; 3],
    cache: Cache,
}

fn make(texts: &[usize; 3], cache: &Cache) -> Act {
    let p = |id: &str, n: usize| {
        let mut v = json!({"body": text(MENU[texts[n]])});
        if !id.is_empty() {
            v["identifier"] = json!(id);
        }
        v
    };
    let known: serde_json::Map<String, Value> = cache.iter().map(|(k, a)| (k.to_string(), act_ref(*a))).collect();
    serde_json::from_value(json!({
        "identifier": {"year": 2345, "number": 13}, "subject": "", "preamble": "", "publication_date": "2345-06-07",
        "contained_abbreviations": known,
        "children": [
            {"Article": {"identifier": "1", "children": [p("1", 0), p("2", 1)]}},
            {"Subtitle": {"title": "Egy alcím a 2001. évi II. törvényről (a továbbiakban: Xtv.)"}},
            {"Article": {"identifier": "2/A", "children": [p("", 2)]}},
        ],
    }))
    .unwrap()
}

fn compare(act: &Act, m: &Model) -> Result<(), String> {
    let got: Vec<Value> = act.articles().flat_map(|a| a.children.iter().map(|p| view(&p.semantic_info))).collect();
    let want: Vec<Value> = m.infos.iter().map(view_model).collect();
    check!(got == want, "the paragraphs say {}, the model {}", json!(got), json!(want));
    let got: BTreeMap<String, ActIdentifier> = act.contained_abbreviations.clone();
    let want: BTreeMap<String, ActIdentifier> =
        m.cache.iter().map(|(k, a)| (k.to_string(), ActIdentifier { year: a.0 as _, number: a.1 as _ })).collect();
    check!(got == want, "the act knows {got:?}, the model {want:?}");
    Ok(())
}

fn step(act: &mut Act, m: &mut Model, op: Op) -> Result<(), String> {
    let ids: [ArticleIdentifier; 3] = ["1".parse().unwrap(), "2/A".parse().unwrap(), "2".parse().unwrap()];
    match op {
        Op::Write(p, n) => {
            let article = act.articles_mut().nth(HOME[p]).unwrap();
            article.children[if p == 1 { 1 } else { 0 }].body = SAEBody::Text(text(MENU[n]));
            m.texts[p] = n;
            Ok(())
        }
        Op::Missing => {
            check!(act.add_semantic_info_to_article(ids[2]).is_err(), "an article that is not there is accepted");
            Ok(())
        }
        Op::All | Op::Article(_) => {
            let before = m.cache.clone();
            for p in 0..3 {
                if matches!(op, Op::Article(a) if a != HOME[p]) {
                    continue;
                }
                m.infos[p] = read(MENU[m.texts[p]], &mut m.cache);
            }
            let r = match op {
                Op::Article(a) => act.add_semantic_info_to_article(ids[a]),
                _ => act.add_semantic_info(),
            };
            let changed = r.map_err(|e| format!("{e:#}"))? == AbbreviationsChanged::Yes;
            // A change that is undone on the way may count as one.
            check!(changed || before == m.cache, "the abbreviations changed, and it says they did not");
            let redefined = m.cache != before || m.infos.iter().any(|i| i.new.iter().any(|(k, a)| before.get(k) != Some(a)))
                || m.infos.iter().flat_map(|i| &i.new).any(|(k, a)| m.cache.get(k) != Some(a));
            check!(!changed || redefined, "nothing is defined anew, and it says so");
            Ok(())
        }
    }
}

fn explore(c: &Ctx, first: [usize; 3], cache: &Cache, ops: &[Op], depth: usize) {
    let m0 = Model { texts: first, infos: Default::default(), cache: cache.clone() };
    let mut path: Vec<Op> = vec![];
    fn go(c: &Ctx, first: &[usize; 3], cache: &Cache, ops: &[Op], depth: usize, path: &mut Vec<Op>, act: &Act, m: &Model) {
        if depth == 0 || c.stopped() {
            return;
        }
        for &op in ops {
            // Writing is seen only by what follows.
            if depth == 1 && matches!(op, Op::Write(..)) {
                continue;
            }
            let (mut act, mut m) = (act.clone(), m.clone());
            path.push(op);
            let mut ok = false;
            c.case(
                || format!("texts {first:?}, known {cache:?}, then {path:?}"),
                || {
                    c.steps(1);
                    c.validated();
                    c.outcome(match op {
                        Op::All => "the whole act",
                        Op::Article(_) => "an article",
                        Op::Missing => "an article that is not there",
                        Op::Write(..) => "a text changes",
                    });
                    step(&mut act, &mut m, op)?;
                    compare(&act, &m)?;
                    ok = true;
                    Ok(())
                },
            );
            if ok {
                go(c, first, cache, ops, depth - 1, path, &act, &m);
            }
            path.pop();
        }
    }
    go(c, &first, cache, ops, depth, &mut path, &make(&first, cache), &m0);
}

/// Places of a text in an act, in the order of reading; 1 to 8 are of one list, 14 and 15 of another.
const PLACES: usize = 16;
/// Here, nothing is defined: quotations, new text of other acts, titles.
const FOREIGN: [usize; 4] = [9, 10, 11, 12];
const WRAP_UPS: [usize; 2] = [6, 8];

fn in_list(p: usize) -> bool {
    (1..=8).contains(&p)
}

fn furnished(at: &dyn Fn(usize) -> String, cache: &Cache) -> Act {
    let known: serde_json::Map<String, Value> = cache.iter().map(|(k, a)| (k.to_string(), act_ref(*a))).collect();
    let line = |s: &str| serde_json::to_value(hun_law::util::indentedline::IndentedLine::from_test_str(s)).unwrap();
    serde_json::from_value(json!({
        "identifier": {"year": 2345, "number": 13}, "subject": "", "preamble": "", "publication_date": "2345-06-07",
        "contained_abbreviations": known,
        "children": [
            {"Article": {"identifier": "1", "children": [
                {"identifier": "1", "body": at(0)},
                {"identifier": "2", "body": {"intro": at(1), "wrap_up": at(8), "children": {"AlphabeticPoint": [
                    {"identifier": "a", "body": at(2)},
                    {"identifier": "b", "body": {"intro": at(3), "wrap_up": at(6), "children": {"AlphabeticSubpoint": [
                        {"identifier": "ba", "body": at(4)}, {"identifier": "bb", "body": at(5)}]}}},
                    {"identifier": "c", "body": at(7)}]}}},
                {"identifier": "3", "body": {"intro": "Az eskü:", "children": {"QuotedBlock": [{"lines": [line(&at(9))]}]}}},
                {"identifier": "4", "body": {"intro": "Ez lesz:", "children": {"BlockAmendment": {"children": {"Paragraph": [{"identifier": "2", "body": at(10)}]}}}}},
            ]}},
            {"Subtitle": {"title": at(11)}},
            {"Article": {"identifier": "2/A", "title": at(12), "children": [
                {"identifier": "1", "body": at(13)},
                {"identifier": "2", "body": {"intro": at(14), "children": {"NumericPoint": [{"identifier": "1", "body": at(15)}, {"identifier": "2", "body": "vége"}]}}}]}},
        ],
    }))
    .unwrap()
}

/// What is found in the text of each place
fn found(act: &Act) -> Vec<Option<SemanticInfo>> {
    let mut out: Vec<Option<SemanticInfo>> = vec![None; PLACES];
    let articles: Vec<_> = act.articles().collect();
    out[0] = Some(articles[0].children[0].semantic_info.clone());
    let v = serde_json::to_value(act).unwrap();
    let at = |path: &str| -> Option<SemanticInfo> {
        Some(v.pointer(path).and_then(|e| e.get("semantic_info")).map(|i| serde_json::from_value(i.clone()).unwrap()).unwrap_or_default())
    };
    let list = "/children/0/Article/children/1";
    out[1] = at(list);
    for (n, p) in [(2, "0"), (3, "1"), (4, "1/body/children/AlphabeticSubpoint/0"), (5, "1/body/children/AlphabeticSubpoint/1"), (7, "2")] {
        out[n] = at(&format!("{list}/body/children/AlphabeticPoint/{p}"));
    }
    out[13] = at("/children/2/Article/children/0");
    out[14] = at("/children/2/Article/children/1");
    out[15] = at("/children/2/Article/children/1/body/children/NumericPoint/0");
    out
}

/// Up to two definitions and a use, each at every place
fn places() -> Vec<Unit<'static>> {
    let known: [Cache; 2] = [Cache::new(), [("Xtv.", (2001, 1))].into()];
    (0..PLACES)
        .map(|first| {
            let known = known.clone();
            Unit {
                label: format!("defined at {first}"),
                run: Box::new(move |c| {
                    for second in first..PLACES {
                        // Two in one list are not asked about.
                        if (in_list(first) && in_list(second) && first != second) || (first, second) == (14, 15) {
                            continue;
                        }
                        for used in (0..PLACES).filter(|u| *u != first && *u != second && !FOREIGN.contains(u) && !WRAP_UPS.contains(u)) {
                            // Nor whether what is defined at the end of a list holds within it
                            if [first, second].iter().any(|d| WRAP_UPS.contains(d) && in_list(used) && used < *d) {
                                continue;
                            }
                            for known in &known {
                                for whole in [true, false] {
                                    place(c, first, second, used, known, whole);
                                }
                            }
                        }
                    }
                }),
            }
        })
        .collect()
}

fn place(c: &Ctx, first: usize, second: usize, used: usize, known: &Cache, whole: bool) {
    c.case(
        || format!("defined at {first} and {second}, used at {used}, known {known:?}, as a whole {whole}"),
        || {
            c.steps(2);
            c.validated();
            c.outcome("places");
            let text = |p: usize| match p {
                _ if p == used => "az Xtv. 7. §-a szerint kell".to_string(),
                _ if p == first => "a 2001. évi II. törvény (a továbbiakban: Xtv.) szerint kell".to_string(),
                _ if p == second => "a 2003. évi IV. törvény (a továbbiakban: Xtv.) szerint kell".to_string(),
                _ => "ez kell".to_string(),
            };
            let mut act = furnished(&text, known);
            let mut cache = known.clone();
            for round in 0..2 {
                if whole {
                    act.add_semantic_info().map_err(|e| format!("{e:#}"))?;
                } else {
                    for id in ["1", "2/A"] {
                        act.add_semantic_info_to_article(id.parse().unwrap()).map_err(|e| format!("{e:#}"))?;
                    }
                }
                let infos = found(&act);
                let mut want: Option<A> = cache.get("Xtv.").copied();
                for (p, a) in [(first, (2001, 2)), (second, (2003, 4))] {
                    // The first of two at one place is what stands there.
                    if FOREIGN.contains(&p) || (p == first && a != (2001, 2)) {
                        continue;
                    }
                    if p < used {
                        want = Some(a);
                    }
                    cache.insert("Xtv.", a);
                    if let Some(i) = &infos[p] {
                        let got = serde_json::to_value(&i.new_abbreviations).unwrap();
                        check!(got == json!({"Xtv.": act_ref(a)}), "round {round}: the text at {p} defines {got}");
                    }
                }
                let got: Vec<Value> = infos[used].as_ref().unwrap().outgoing_references.iter().map(|r| json!([r.start, r.end, r.reference])).collect();
                let want = match want {
                    Some(a) => vec![json!([3, 7, {"act": act_ref(a)}]), json!([8, 15, {"act": act_ref(a), "article": "7"}])],
                    None => vec![json!([8, 15, {"article": "7"}])],
                };
                check!(got == want, "round {round}: it refers to {got:?}, and means {want:?}");
                let got = serde_json::to_value(&act.contained_abbreviations).unwrap();
                let want: serde_json::Map<String, Value> = cache.iter().map(|(k, a)| (k.to_string(), act_ref(*a))).collect();
                check!(got == Value::from(want.clone()), "round {round}: the act knows {got}, and defines {want:?}");
            }
            Ok(())
        },
    );
}

pub fn units(tier: Tier) -> Vec<Unit<'static>> {
    let mut out: Vec<Unit> = vec![];
    let n = MENU.len();
    let depth = if tier == Tier::Quick { 3 } else { 4 };
    let known: [Cache; 3] = [Cache::new(), [("Xtv.", (2024, 1))].into(), [("Xtv.", (2001, 2)), ("Xtv. II.", (2024, 1)), ("Z", (2000, 1))].into()];
    for a in 0..n {
        for b in 0..n {
            let known = known.clone();
            out.push(Unit {
                label: format!("texts {a} {b}"),
                run: Box::new(move |c| {
                    for third in 0..n {
                        for k in &known {
                            let mut ops = vec![Op::All, Op::Article(0), Op::Article(1), Op::Missing];
                            // All texts for one paragraph, a few for the others
                            for p in 0..3 {
                                for m in if p == 0 { 0..n } else { 0..3 } {
                                    ops.push(Op::Write(p, m));
                                }
                            }
                            let depth = if third == 4 || third == 7 { depth } else { depth - 1 };
                            explore(c, [a, b, third], k, &ops, depth);
                        }
                    }
                }),
            });
        }
    }
    out.extend(places());
    out.extend(crate::grown::c27());
    out
}
