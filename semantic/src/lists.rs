//! C31: sentences that are broken into lists.
use hun_law::{
    semantic_info::SemanticInfo,
    structure::{Act, ParagraphChildren, SAEBody},
};
use serde_json::{json, Value};

use crate::{
    check,
    choose::{self, Chooser},
    core::{Ctx, Tier, Unit},
    own, phrases,
    sentences,
    spell::{self, Text},
};

struct Case {
    t: Text,
    phrase: Value,
}

fn case(kind: usize, ch: &mut Chooser) -> Case {
    let p = match kind {
        0 => return Case { t: sentences::sentence(ch), phrase: Value::Null },
        1 => phrases::text_amendment(ch),
        2 => phrases::repeal(ch),
        _ => phrases::enforcement(ch),
    };
    Case { t: p.t, phrase: p.phrase }
}

fn act(paragraphs: Value) -> Act {
    serde_json::from_value(json!({
        "identifier": {"year": 2345, "number": 13},
        "subject": "A tesztelésről",
        "preamble": "",
        "publication_date": "2345-06-07",
        "contained_abbreviations": spell::KNOWN.iter().map(|(k, a)| (k.to_string(), json!({"year": a.0, "number": a.2}))).collect::<serde_json::Map<_, _>>(),
        "children": [{"Article": {"identifier": "1", "children": paragraphs}}],
    }))
    .unwrap()
}

fn refs(info: &SemanticInfo) -> Vec<(usize, usize, Value)> {
    info.outgoing_references.iter().map(|r| (r.start, r.end, serde_json::to_value(&r.reference).unwrap())).collect()
}

/// The references that end between these places
fn within(t: &Text, from: usize, to: usize) -> Vec<(usize, usize, Value)> {
    t.refs.iter().filter(|r| r.1 > from && r.1 <= to).map(|r| (r.0.saturating_sub(from), r.1 - from, r.2.clone())).collect()
}

fn judge(what: &str, info: &SemanticInfo, want: &[(usize, usize, Value)], phrase: Option<&Value>) -> Result<(), String> {
    let got = refs(info);
    check!(got == want, "the references of {what} are {got:?}, those written are {want:?}");
    if let Some(p) = phrase {
        let got = serde_json::to_value(&info.special_phrase).unwrap();
        check!(got == *p, "{what} is taken for {got}, and means {p}");
    }
    Ok(())
}

/// Whether the text up to here says the same without the rest
fn whole(t: &Text, at: usize) -> bool {
    let inside = t.refs.iter().any(|r| r.0 < at && at < r.1);
    let last = t.refs.iter().filter(|r| r.1 <= at).map(|r| r.1).max();
    let count = |x: &str| t.s[..at].matches(x).count();
    !inside && !last.is_some_and(|l| t.open.contains(&l)) && !t.s[..at].ends_with('(') && !t.s[..at].ends_with("Btk,") && count("„") == count("”") && count("(") <= count(")")
}

const JUNK: &[&str] = &["", ", és", ";", ",", " vagy", ", valamint", " és", "; továbbá", ", illetve"];
const ENDS: &[&str] = &[" a", " és", " valamint", " illetve", " vagy", " továbbá", ";", ","];

fn spoils(middle: &str) -> bool {
    ENDS.iter().any(|e| middle.ends_with(e))
}

fn after() -> (Value, Vec<(usize, usize, Value)>) {
    let text = "A 7. § (3) bekezdése szerint.";
    (json!({"identifier": "2", "body": text}), vec![(2, 2 + "7. § (3) bekezdése".len(), json!({"article": "7", "paragraph": "3"}))])
}

fn run(c: &Ctx, k: &Case, levels: usize) {
    let s = &k.t.s;
    let cuts: Vec<usize> = s.char_indices().filter(|x| x.1 == ' ').map(|x| x.0).collect();
    let (next, next_refs) = after();
    let is_sentence = k.phrase.is_null();
    for (x, &i) in cuts.iter().enumerate() {
        for &j in cuts[x + 1..].iter().chain([&s.len()]) {
            let (intro, middle) = (&s[..i], &s[i + 1..j]);
            let wrap = if j == s.len() { None } else { Some(&s[j + 1..]) };
            // Only the last point of a list may lack its full stop.
            if middle.trim().is_empty() || spoils(middle) || (wrap.is_some() && !s.ends_with('.')) {
                continue;
            }
            // One level
            c.case(
                || format!("{intro:?} {middle:?} {wrap:?}"),
                || {
                    c.validated();
                    c.steps(6);
                    c.outcome(if wrap.is_some() { "with a wrap-up" } else { "without a wrap-up" });
                    let mut points: Vec<Value> = vec![];
                    let ends: Vec<&&str> = if wrap.is_some() || !middle.ends_with(['.', ':', '!', '?']) { JUNK.iter().collect() } else { vec![&JUNK[0]] };
                    for (n, e) in ends.iter().enumerate() {
                        points.push(json!({"identifier": ((b'a' + n as u8) as char).to_string(), "body": format!("{middle}{e}")}));
                    }
                    let mut a = act(json!([
                        {"identifier": "1", "body": {"intro": intro, "children": {"AlphabeticPoint": points}, "wrap_up": wrap}},
                        next,
                    ]));
                    a.add_semantic_info().map_err(|e| format!("{e:#}"))?;
                    let article = a.articles().next().unwrap();
                    let p = &article.children[0];
                    let SAEBody::Children { children: ParagraphChildren::AlphabeticPoint(points), .. } = &p.body else { panic!() };
                    let want = within(&k.t, i + 1, j);
                    for (n, point) in points.iter().enumerate() {
                        judge(&format!("the point ending with {:?}", ends[n]), &point.semantic_info, &want, Some(&k.phrase))?;
                    }
                    if is_sentence && whole(&k.t, i) {
                        judge("the intro", &p.semantic_info, &within(&k.t, 0, i), None)?;
                    }
                    check!(p.semantic_info.special_phrase.is_none(), "the intro alone is taken for {:?}", p.semantic_info.special_phrase);
                    judge("the next paragraph", &article.children[1].semantic_info, &next_refs, Some(&Value::Null))
                },
            );
            if levels < 2 {
                continue;
            }
            // Two levels: the middle is an intro and points itself
            let inner: Vec<usize> = cuts.iter().copied().filter(|p| *p > i + 1 && *p < j).collect();
            // The wrap-up follows the inner intro too, so it cannot start inside a reference.
            let inner = if wrap.is_some() && (!whole(&k.t, j) || s.contains("melléklet")) { vec![] } else { inner };
            for (y, &i2) in inner.iter().enumerate() {
                let deep = c.thorough() || y % 2 == 0;
                for &j2 in inner[y + 1..].iter().chain([&j]) {
                    let (intro2, middle2) = (&s[i + 1..i2], &s[i2 + 1..j2]);
                    if intro2.trim().is_empty() || middle2.trim().is_empty() || spoils(middle2) || !deep {
                        continue;
                    }
                    if j2 != j && wrap.is_none() && !s.ends_with('.') {
                        continue;
                    }
                    let wrap2 = if j2 == j { None } else { Some(&s[j2 + 1..j]) };
                    if wrap2.is_some_and(|w| w.trim().is_empty()) {
                        continue;
                    }
                    c.case(
                        || format!("{intro:?} {intro2:?} {middle2:?} {wrap2:?} {wrap:?}"),
                        || {
                            c.validated();
                            c.steps(5);
                            c.outcome("two levels");
                            let e = if wrap.is_some() || wrap2.is_some() { ", és" } else { "" };
                            let mut a = act(json!([
                                {"identifier": "1", "body": {"intro": intro, "children": {"AlphabeticPoint": [
                                    {"identifier": "a", "body": {"intro": intro2, "children": {"AlphabeticSubpoint": [
                                        {"identifier": "aa", "body": format!("{middle2}{e}")},
                                        {"identifier": "ab", "body": middle2},
                                    ]}, "wrap_up": wrap2}},
                                    {"identifier": "b", "body": &s[i + 1..j]},
                                ]}, "wrap_up": wrap}},
                                next,
                            ]));
                            a.add_semantic_info().map_err(|e| format!("{e:#}"))?;
                            let v = serde_json::to_value(&a).unwrap();
                            let info = |v: &Value| -> SemanticInfo {
                                v.get("semantic_info").map(|x| serde_json::from_value(x.clone()).unwrap()).unwrap_or_default()
                            };
                            let ps = &v["children"][0]["Article"]["children"];
                            let points = &ps[0]["body"]["children"]["AlphabeticPoint"];
                            let subs = &points[0]["body"]["children"]["AlphabeticSubpoint"];
                            let want = within(&k.t, i2 + 1, j2);
                            judge("the first subpoint", &info(&subs[0]), &want, Some(&k.phrase))?;
                            judge("the second subpoint", &info(&subs[1]), &want, Some(&k.phrase))?;
                            judge("the point after", &info(&points[1]), &within(&k.t, i + 1, j), Some(&k.phrase))?;
                            if is_sentence && whole(&k.t, i2) && wrap.is_none() {
                                judge("the inner intro", &info(&points[0]), &within(&k.t, i + 1, i2), None)?;
                            }
                            judge("the next paragraph", &info(&ps[1]), &next_refs, Some(&Value::Null))
                        },
                    );
                }
            }
        }
    }
}

pub fn units(tier: Tier) -> Vec<Unit<'static>> {
    let mut out = own::examples(&["data_add_semantic_info"]);
    for (kind, name) in ["references", "texts", "repeals", "dates"].into_iter().enumerate() {
        if tier == Tier::Quick {
            out.extend(choose::units(&format!("{name} in two levels"), 1, move |ch| case(kind, ch), |c, _, k: &Case| run(c, k, 2)));
            out.extend(choose::units(name, 2, move |ch| case(kind, ch), |c, _, k: &Case| run(c, k, 1)));
        } else {
            out.extend(choose::units(name, 2, move |ch| case(kind, ch), |c, _, k: &Case| run(c, k, 2)));
        }
    }
    out.extend(crate::grown::c31());
    out
}
