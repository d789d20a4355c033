//! C28-C30: the phrases that change the law, from what they mean to how they are written.
use std::sync::OnceLock;

use hun_law::{
    semantic_info::SemanticInfo,
    structure::{Act, SAEBody},
    util::indentedline::IndentedLine,
};
use serde_json::{json, Value};

use crate::{
    check,
    choose::{self, Chooser},
    core::{Tier, Unit},
    own,
    spell::{self, Level, Meant, Part, Spelling, Text, ARTICLE, PARAGRAPH, POINT, SUBPOINT},
};

pub struct Phrase {
    pub t: Text,
    pub phrase: Value,
}

/// What stands between the article and the act. None of it is what gets changed.
const TITLES: &[&str] = &[
    "",
    "csodákról és a varázslatról szóló ",
    "Polgári Törvénykönyvről szóló 2013. évi V. törvény hatálybalépésével összefüggő szabályokról szóló ",
    "Btk. módosításáról és az 5. § (2) bekezdése szerinti jelentésről szóló ",
    "„Ügyek” és más „idézett” dolgokról, a 3. mellékletről szóló ",
];

fn the_act(ch: &mut Chooser, t: &mut Text, cur: &mut Meant, lead: &str) {
    t.put(lead).put(ch.of(TITLES));
    spell::act(ch, t, cur, true);
    t.put(" ");
}

fn act_data(cur: &Meant) -> Value {
    let a = cur.act.unwrap();
    json!({"year": a.0, "number": a.2})
}

/// Structural elements: how they are named (without the last inflection), their data
struct Element {
    name: &'static str,
    data: Value,
    /// The inflected endings of the possessive, and with -val/-vel
    of: &'static [&'static str],
    with: &'static str,
    subtitle: bool,
    book_ok: bool,
}

fn element(ch: &mut Chooser, subtitles: bool) -> Element {
    let of: &[&str] = &["e", "ének"];
    let e = |name, data, with, subtitle, book_ok| Element { name, data, of, with, subtitle, book_ok };
    match ch.pick(if subtitles { 12 } else { 7 }) {
        0 => e("XXIV. Fejezet", json!({"Chapter": "24"}), "tel", false, true),
        1 => e("III/A. fejezet", json!({"Chapter": "3a"}), "tel", false, true),
        2 => e("I. FEJEZET", json!({"Chapter": "1"}), "tel", false, true),
        3 => e("KILENCEDIK RÉSZ", json!({"Part": "9"}), "szel", false, true),
        4 => e("Tizenkettedik rész", json!({"Part": "12"}), "szel", false, true),
        5 => e("VIII/B. Cím", json!({"Title": "8b"}), "mel", false, true),
        6 => e("XL. Cím", json!({"Title": "40"}), "mel", false, true),
        7 => e("11/A. alcím", json!({"SubtitleId": "11a"}), "mel", true, false),
        8 => e("7. alcím", json!({"SubtitleId": "7"}), "mel", true, false),
        9 => e("10–12. alcím", json!({"SubtitleRange": {"start": "10", "end": "12"}}), "mel", true, false),
        10 => e("„A kényszermunka” alcím", json!({"SubtitleTitle": "A kényszermunka"}), "mel", true, false),
        _ => e("„Egy „idézett” cím” című alcím", json!({"SubtitleTitle": "Egy „idézett” cím"}), "mel", true, false),
    }
}

const BOOKS: &[(&str, &str)] = &[("Harmadik Könyv ", "3"), ("NYOLCADIK KÖNYV ", "8"), ("Első könyv ", "1")];

/// One level of an amended or inserted reference: a list that covers what is between its first and last.
fn level(ch: &mut Chooser, level: usize, numeric: bool, list: bool, suffix: &'static [&'static str]) -> (Level, Part) {
    type P = (&'static str, Option<&'static str>);
    let table: &[(&[P], P)] = match (level, numeric) {
        (ARTICLE, _) => &[
            (&[("5", None)], ("5", None)),
            (&[("113/A", None)], ("113/A", None)),
            (&[("3:17", None)], ("3:17", None)),
            (&[("5", None), ("6", None)], ("5", Some("6"))),
            (&[("7", Some("9"))], ("7", Some("9"))),
            (&[("15/A", Some("15/D")), ("16", None)], ("15/A", Some("16"))),
            (&[("5", None), ("5/A", None), ("6", Some("12"))], ("5", Some("12"))),
            (&[("6", None), ("5", None)], ("5", Some("6"))),
            (&[("2:42", Some("2:54"))], ("2:42", Some("2:54"))),
        ],
        (PARAGRAPH, _) => &[
            (&[("2", None)], ("2", None)),
            (&[("11a", None)], ("11a", None)),
            (&[("2", None), ("3", None)], ("2", Some("3"))),
            (&[("9", None), ("10", None)], ("9", Some("10"))),
            (&[("3", Some("10"))], ("3", Some("10"))),
            (&[("2a", Some("2c")), ("3", None)], ("2a", Some("3"))),
            (&[("1", None), ("2", Some("5a")), ("6", None)], ("1", Some("6"))),
            (&[("4", None), ("2", None), ("3", None)], ("2", Some("4"))),
        ],
        (POINT, true) => &[
            (&[("3", None)], ("3", None)),
            (&[("31/a", None)], ("31/a", None)),
            (&[("9", None), ("10", None)], ("9", Some("10"))),
            (&[("4", Some("6"))], ("4", Some("6"))),
            (&[("5a", Some("5c")), ("6", None)], ("5a", Some("6"))),
        ],
        (POINT, false) => &[
            (&[("b", None)], ("b", None)),
            (&[("ny", None)], ("ny", None)),
            (&[("g", None), ("gy", None)], ("g", Some("gy"))),
            (&[("c", Some("e"))], ("c", Some("e"))),
            (&[("n", Some("sz")), ("t", None)], ("n", Some("t"))),
            (&[("d", None), ("b", None)], ("b", Some("d"))),
        ],
        (_, true) => &[
            (&[("2", None)], ("2", None)),
            (&[("14", None)], ("14", None)),
            (&[("9", None), ("10", None)], ("9", Some("10"))),
            (&[("3", Some("5"))], ("3", Some("5"))),
        ],
        (_, false) => &[
            (&[("bc", None)], ("bc", None)),
            (&[("c", None)], ("c", None)),
            (&[("bc", None), ("bd", None)], ("bc", Some("bd"))),
            (&[("ba", Some("bc"))], ("ba", Some("bc"))),
        ],
    };
    let singles = table.iter().take_while(|x| x.0.len() == 1 && x.0[0].1.is_none()).count();
    let (parts, whole) = table[ch.pick(if list { table.len() } else { singles })];
    let parts: Vec<Part> = parts.iter().map(|p| Part(p.0, p.1)).collect();
    let separators = match parts.len() {
        1 => vec![" "],
        2 => vec![ch.of(&[" és ", ", ", " valamint a "])],
        _ => vec![", ", ch.of(&[" és ", ", illetve "])],
    };
    let has_range = parts.iter().any(|p| p.1.is_some());
    let dash = if has_range { ch.of(&["–", "-"]) } else { "–" };
    let form = if has_range { ch.pick(2) } else { 0 };
    let suffix = ch.of(suffix);
    (Level { level, numeric, parts, suffix, dash, form, separators }, Part(whole.0, whole.1))
}

/// Suffixes of a level inside a reference, and at its end
const INSIDE: [&[&str]; 4] = [&["§", "§-ának"], &["bekezdés", "bekezdésének"], &["pont"], &["alpont"]];
const OF: [&[&str]; 4] = [&["§-a", "§-ának"], &["bekezdése", "bekezdésének"], &["pontja"], &["alpontja", "alpontjának"]];
const WITH: [&[&str]; 4] = [&["§-sal", "§-okkal"], &["bekezdéssel", "bekezdésekkel"], &["ponttal", "pontokkal"], &["alponttal"]];

/// A reference of this shape, a list only at its end. What it covers is in the Meant.
fn reference(ch: &mut Chooser, shape: spell::Shape, end: &[&'static [&'static str]; 4], cur: &Meant) -> (Spelling, Meant) {
    let mut whole = cur.clone();
    let mut levels = vec![];
    for (i, &(l, numeric)) in shape.iter().enumerate() {
        let last = i + 1 == shape.len();
        let (level, part) = level(ch, l, numeric, last, if last { end[l] } else { INSIDE[l] });
        whole.set(l, part);
        levels.push(level);
    }
    // Under a numbered point, subpoints are simple letters.
    if let [.., p, s] = &mut levels[..] {
        if (p.level, p.numeric, s.level, s.numeric) == (POINT, true, SUBPOINT, false) {
            s.parts = vec![Part("c", None)];
            whole.set(SUBPOINT, Part("c", None));
        }
    }
    (Spelling { levels, joint: None }, whole)
}

fn amendment(ch: &mut Chooser, whole: &Meant, parent: Option<Value>, pure_insertion: bool) -> Value {
    let _ = ch;
    if whole.parts[1..].iter().all(|p| p.is_none()) {
        let a = whole.parts[0].as_ref().unwrap();
        let article = match a {
            Part(a, None) => json!(a),
            Part(a, Some(b)) => json!({"start": a, "end": b}),
        };
        let mut position = json!({"act": act_data(whole), "structural_element": {"Article": article}});
        if let Some(p) = parent {
            position["parent"] = p;
        }
        json!({"StructuralBlockAmendment": {"position": position, "pure_insertion": pure_insertion}})
    } else {
        json!({"BlockAmendment": {"position": whole.data(), "pure_insertion": pure_insertion}})
    }
}

const REPLACED: &[&str] = &[
    "helyébe a következő rendelkezés lép",
    "helyébe a következő rendelkezések lépnek",
    "helyébe az alábbi rendelkezés lép",
    "a következő szöveggel lép hatályba",
    "az alábbiak szerint módosul",
];
const ADDED: &[&str] = &["egészül ki", "kiegészülve lép hatályba"];
const FOLLOWING: &[&str] = &["a következő ", "az alábbi ", "következő "];

/// Shapes that start at an article
const FULL: &[spell::Shape] = &[
    &[(1, false)],
    &[],
    &[(1, false), (2, false)],
    &[(1, false), (2, true)],
    &[(2, false)],
    &[(2, true)],
    &[(1, false), (2, false), (3, false)],
    &[(1, false), (2, true), (3, false)],
    &[(1, false), (2, true), (3, true)],
    &[(2, false), (3, false)],
];

fn with_article(s: spell::Shape) -> spell::Shape {
    spell::SHAPES.iter().find(|x| x.len() == s.len() + 1 && x[0].0 == 0 && x[1..] == *s).unwrap()
}

/// Where the new elements stand after: "a következő" comes before this level of the reference.
fn insertion_joint(ch: &mut Chooser, shape: spell::Shape) -> (usize, &'static str) {
    match shape.len() {
        1 => (0, ch.of(FOLLOWING)),
        2 if shape[1].0 == PARAGRAPH && ch.yes() => (0, "a következő "),
        n => (n - 1, ch.of(&[" a következő ", " az alábbi ", " ezzel egyidejűleg a következő "])),
    }
}

fn block(ch: &mut Chooser) -> Phrase {
    let mut t = Text::default();
    let mut cur = Meant::default();
    let lead = ch.of(&["A ", "Az ", "a "]);
    the_act(ch, &mut t, &mut cur, lead);
    let parent = if ch.yes() {
        let e = element(ch, true);
        if ch.yes() && e.book_ok {
            t.put(BOOKS[0].0);
        }
        t.put(e.name).put(e.of[0]).put(" ");
        Some(e.data)
    } else {
        None
    };
    let kind = ch.pick(3);
    let shape = with_article(ch.of(FULL));
    let phrase;
    match kind {
        0 => {
            let (r, whole) = reference(ch, shape, &OF, &cur);
            r.write(&mut t, &mut cur);
            t.put(" ").put(ch.of(REPLACED)).put(":");
            phrase = amendment(ch, &whole, parent, false);
        }
        1 => {
            let joint = insertion_joint(ch, shape);
            let (mut r, whole) = reference(ch, shape, &WITH, &cur);
            r.joint = Some(joint);
            r.write(&mut t, &mut cur);
            t.put(" ").put(ch.of(ADDED)).put(":");
            phrase = amendment(ch, &whole, parent, true);
        }
        _ => {
            // What is there is replaced, and new elements of the same kind follow.
            let (r, mut whole) = reference(ch, shape, &OF, &cur);
            r.write(&mut t, &mut cur);
            t.put(" ").put(ch.of(REPLACED)).put(ch.of(&[", és ", " és ", ", valamint ezzel egyidejűleg ", ", ", " "]));
            let last = *shape.last().unwrap();
            match ch.pick(3) {
                1 => {
                    t.put("a ").put("Btk. ");
                }
                2 if last.0 == PARAGRAPH => {
                    t.put("a § ");
                }
                _ => (),
            }
            t.put("a következő ");
            let (to, new): (&'static str, _) = match last {
                (ARTICLE, _) if whole.parts[ARTICLE].as_ref().unwrap().0.contains(':') => ("4:1", vec![Part("4:1", None)]),
                (ARTICLE, _) => ("213/B", vec![Part("200", None), Part("213/B", None)]),
                (PARAGRAPH, _) => ("13", vec![Part("12", Some("13"))]),
                (POINT, true) => ("41", vec![Part("41", None)]),
                (POINT, false) => ("zs", vec![Part("z", None), Part("zs", None)]),
                (_, true) => ("15", vec![Part("15", None)]),
                (_, false) if whole.parts[SUBPOINT].as_ref().unwrap().0 == "c" => ("d", vec![Part("d", None)]),
                (_, false) => ("be", vec![Part("be", None)]),
            };
            // Only these name their own level alone.
            let bare = matches!(last.0, ARTICLE | PARAGRAPH | POINT);
            let whole_part = whole.parts[last.0].clone().unwrap();
            let deepest = Level {
                level: last.0,
                numeric: last.1,
                parts: new,
                suffix: WITH[last.0][0],
                dash: "–",
                form: 0,
                separators: vec![" és "],
            };
            let levels = if bare {
                vec![deepest]
            } else {
                // "az 5. § b) pontja a következő bc) alponttal"
                t.s.truncate(t.s.len() - "a következő ".len());
                let mut ls = r.levels[..r.levels.len() - 1].to_vec();
                ls.push(deepest);
                ls
            };
            let joint = if bare { None } else { Some((levels.len() - 1, " a következő ")) };
            Spelling { levels, joint }.write(&mut t, &mut cur);
            whole.set(last.0, Part(whole_part.0, Some(to)));
            t.put(" ").put(ch.of(ADDED)).put(":");
            phrase = amendment(ch, &whole, parent, false);
        }
    }
    Phrase { t, phrase }
}

fn structural(ch: &mut Chooser) -> Phrase {
    let mut t = Text::default();
    let mut cur = Meant::default();
    the_act(ch, &mut t, &mut cur, "A ");
    let insertion = ch.yes();
    let mut position = json!({"act": act_data(&cur)});
    let e = element(ch, true);
    // 0: the act itself; 1: within a book; 2: within another element; 3: after or before an article
    let place = ch.pick(4);
    if place == 3 && insertion && !e.subtitle {
        // The element itself tells where it goes; this is not even a reference.
        t.put("a 34. §-t követően ");
    } else if place == 2 && (insertion || !e.subtitle) {
        let p = element(ch, insertion);
        t.put(p.name).put(if insertion { p.of[0] } else { "" }).put(" ");
        position["parent"] = p.data;
    } else if place == 1 && e.book_ok {
        let (name, id) = ch.of(BOOKS);
        t.put(name);
        position["book"] = json!(id);
    }
    position["structural_element"] = e.data;
    if insertion {
        t.put(ch.of(FOLLOWING)).put(e.name).put(e.with).put(" ").put(ch.of(ADDED));
    } else {
        t.put(e.name);
        let title_only = !e.subtitle && ch.yes();
        if title_only {
            t.put(ch.of(&[" címe", " címének"]));
            position["title_only"] = json!(true);
        } else {
            t.put(ch.of(e.of));
        }
        t.put(" ");
        let mut ends = REPLACED.to_vec();
        ends.insert(1, if e.subtitle { "helyébe a következő alcím lép" } else { "helyébe a következő cím lép" });
        if !e.subtitle {
            ends.extend(["helyébe a következő fejezet lép", "helyébe az alábbi Fejezet lép", "helyébe a következő rész lép"]);
        }
        t.put(ch.of(&ends));
    }
    t.put(":");
    Phrase { t, phrase: json!({"StructuralBlockAmendment": {"position": position, "pure_insertion": insertion}}) }
}

/// Subtitles, and the articles they stand at
fn subtitle(ch: &mut Chooser) -> Phrase {
    let mut t = Text::default();
    let mut cur = Meant::default();
    the_act(ch, &mut t, &mut cur, "A ");
    let mut position = json!({"act": act_data(&cur)});
    if ch.yes() {
        let p = element(ch, false);
        t.put(p.name).put(p.of[0]).put(" ");
        position["parent"] = p.data;
    }
    let article = |ch: &mut Chooser, t: &mut Text, cur: &mut Meant, suffix: &str| {
        let a: &'static str = ch.of(&["349", "12/B", "3:17"]);
        let start = t.at();
        t.put(&format!("{a}. §{suffix}"));
        cur.set(ARTICLE, Part(a, None));
        t.note(start, cur);
        a
    };
    let kind = ch.pick(8);
    // An article right after its act's chapter: "a következő …" has to come first.
    let insertion = kind >= 4;
    let element = match kind {
        0 => {
            let a = article(ch, &mut t, &mut cur, "-a");
            t.put(" és ").put(ch.of(&["az azt", "a", "a §-t"])).put(" megelőző ").put(ch.of(&["alcím", "alcíme", "alcím-megjelölése", "alcím címe"]));
            json!({"SubtitleBeforeArticleInclusive": a})
        }
        1 => {
            let a = article(ch, &mut t, &mut cur, ch_suffix(0));
            t.put(" megelőző ").put(ch.of(&["alcím", "alcíme", "alcím címe"]));
            json!({"SubtitleBeforeArticle": a})
        }
        2 => {
            t.put(ch.of(&["a ", ""]));
            let a = article(ch, &mut t, &mut cur, ch_suffix(0));
            t.put(ch.of(&[" követő ", " követően "])).put("alcím");
            json!({"SubtitleAfterArticle": a})
        }
        3 => {
            article(ch, &mut t, &mut cur, "-át");
            t.put(" megelőző alcím címe és ");
            let b = article(ch, &mut t, &mut cur, "-a");
            json!({"SubtitleBeforeArticleInclusive": b})
        }
        4 => {
            t.put(ch.of(FOLLOWING));
            let a = article(ch, &mut t, &mut cur, "-sal");
            t.put(" és ").put(ch.of(&["az azt", "a"])).put(" megelőző ").put(ch.of(&["alcímmel", "alcím címmel"]));
            json!({"SubtitleBeforeArticleInclusive": a})
        }
        5 | 6 => {
            let before = kind == 6;
            t.put(ch.of(&["a ", ""]));
            let a = article(ch, &mut t, &mut cur, "-t");
            t.put(if before { ch.of(&[" megelőzően", " előtti"]) } else { " követően" }).put(" ").put(ch.of(FOLLOWING));
            t.put(ch.of(&["", "„Járművezetés eltiltás alatt” ", "5/A. "])).put(ch.of(&["alcímmel", "alcím címmel"]));
            if ch.yes() {
                t.put(" és ");
                let b = article(ch, &mut t, &mut cur, "-sal");
                json!({"SubtitleBeforeArticleInclusive": b})
            } else if before {
                json!({"SubtitleBeforeArticle": a})
            } else {
                json!({"SubtitleAfterArticle": a})
            }
        }
        _ => {
            t.put(ch.of(FOLLOWING));
            match ch.pick(3) {
                0 => {
                    t.put("alcímmel");
                    json!("SubtitleUnknown")
                }
                1 => {
                    t.put("„Tesztelés” alcímmel");
                    json!({"SubtitleTitle": "Tesztelés"})
                }
                _ => {
                    t.put("61/C. alcímmel");
                    json!({"SubtitleId": "61c"})
                }
            }
        }
    };
    position["structural_element"] = element;
    t.put(" ");
    if insertion {
        t.put(ch.of(ADDED));
    } else {
        t.put(ch.of(&[
            "helyébe a következő rendelkezés lép",
            "helyébe a következő alcím lép",
            "helyébe a következő rendelkezés és alcím lép",
            "helyébe a következő alcím és rendelkezés lép",
            "helyébe az alábbi alcím cím lép",
        ]));
    }
    t.put(":");
    Phrase { t, phrase: json!({"StructuralBlockAmendment": {"position": position, "pure_insertion": insertion}}) }
}

fn ch_suffix(n: usize) -> &'static str {
    ["-át", "-t"][n]
}

// ---- text amendments and repeals

/// What a text amendment or a repeal of texts names. Adds to `out`.
fn targets(ch: &mut Chooser, t: &mut Text, cur: &mut Meant, out: &mut Vec<Value>, whole_only: bool) {
    let n = 1 + ch.pick(3);
    let act = act_data(cur);
    let mut after_attachment = false;
    for i in 0..n {
        if i > 0 {
            t.put(ch.of(&[", ", " és ", ", valamint a "]));
        }
        let mut kinds = vec![0, 1, 2, 3, 4, 5];
        if !whole_only {
            kinds.extend([6, 7]);
        }
        if after_attachment {
            // Parts and chapters would be taken for those of the attachment.
            kinds = vec![0, 2];
        }
        let kind = ch.of(&kinds);
        after_attachment = kind == 3;
        match kind {
            0 => {
                // Levels after the first may be taken from the one before.
                let shapes = spell::shapes_after(cur);
                let shapes: Vec<_> = if cur.parts[0].is_none() { shapes.into_iter().filter(|s| s[0].0 == 0).collect() } else { shapes };
                let shape = ch.of(&shapes);
                let before = t.refs.len();
                spell::spelling(ch, shape, cur).write(t, cur);
                let part = if whole_only { 0 } else { ch.pick(3) };
                if part > 0 {
                    t.put([" nyitó ", " záró "][part - 1]).put(ch.of(&["szövegrésze", "szövegrészében"]));
                }
                for (_, _, r) in &t.refs[before..] {
                    let mut v = json!({"reference": r});
                    if part > 0 {
                        v["amended_part"] = json!(["IntroOnly", "WrapUpOnly"][part - 1]);
                    }
                    out.push(json!({"SAE": v}));
                }
            }
            1 => {
                let book = ch.yes();
                let e = element(ch, false);
                let mut s = json!({"act": act, "structural_element": e.data});
                if book {
                    t.put(BOOKS[1].0);
                    s["book"] = json!(BOOKS[1].1);
                }
                t.put(e.name);
                if !whole_only && ch.yes() {
                    t.put(ch.of(&[" címében", " címe"]));
                    s["title_only"] = json!(true);
                } else {
                    t.put(e.of[0]);
                }
                out.push(json!({"Structural": s}));
            }
            2 => {
                // The subtitle at an article
                let a: &'static str = ch.of(&["27", "12/B", "6:130"]);
                let start = t.at();
                t.put(&format!("{a}. §-át"));
                cur.set(ARTICLE, Part(a, None));
                t.note(start, cur);
                let after = ch.yes();
                t.put(if after { " követő " } else { " megelőző " }).put(ch.of(&["alcíme", "alcímében", "„Valami más” alcím címében", "5. alcíme"]));
                // What follows names its article again.
                cur.parts = Default::default();
                out.push(json!({"Structural": {"act": act, "structural_element":
                    if after { json!({"SubtitleAfterArticle": a}) } else { json!({"SubtitleBeforeArticle": a}) }}}));
            }
            3 => {
                t.put(ch.of(&["1. melléklet 8. pontja", "7. számú melléklete", "2. melléklet I. fejezet 3. pontja"]));
                cur.parts = Default::default();
            }
            4 => {
                let (text, data): (_, Vec<Value>) = match ch.pick(4) {
                    0 => ("5. alcíme", vec![json!({"SubtitleId": "5"})]),
                    1 => ("11/A. és 12. alcíme", vec![json!({"SubtitleId": "11a"}), json!({"SubtitleId": "12"})]),
                    2 => ("3., 5–7. alcíme", vec![json!({"SubtitleId": "3"}), json!({"SubtitleRange": {"start": "5", "end": "7"}})]),
                    _ => ("„Kényszermunka” című alcíme", vec![json!({"SubtitleTitle": "Kényszermunka"})]),
                };
                t.put(text);
                out.extend(data.iter().map(|d| json!({"Structural": {"act": act, "structural_element": d}})));
            }
            5 => {
                let p = element(ch, false);
                let e = element(ch, false);
                t.put(p.name).put(" ").put(e.name).put(e.of[0]);
                out.push(json!({"Structural": {"act": act, "parent": p.data, "structural_element": e.data}}));
            }
            6 => {
                let a: &'static str = ch.of(&["27", "12/B", "6:130"]);
                let start = t.at();
                t.put(&format!("{a}. §"));
                cur.set(ARTICLE, Part(a, None));
                t.note(start, cur);
                t.put(ch.of(&[" címében", " szakaszcímében", " címe"]));
                let r = cur.data();
                out.push(json!({"ArticleTitle": r}));
            }
            _ => {
                t.put("5. alcím címében");
                out.push(json!({"Structural": {"act": act, "structural_element": {"SubtitleId": "5"}, "title_only": true}}));
            }
        }
    }
}

const TEXTS: &[&str] = &["nyolc évig", "a 25. § (1) bekezdésének c)–d) pontjában", "idézőjelek „idézőjelekben” is", "Btk.", ", és", "x lép hatályba."];

pub fn text_amendment(ch: &mut Chooser) -> Phrase {
    let mut t = Text::default();
    let mut cur = Meant::default();
    let lead = ch.of(&["A ", "Az "]);
    the_act(ch, &mut t, &mut cur, lead);
    let mut refs = vec![];
    targets(ch, &mut t, &mut cur, &mut refs, false);
    let n = 1 + ch.pick(2);
    let with = ch.yes();
    let mut parts = vec![];
    t.put(ch.of(&[" ", ", "]));
    for i in 0..n {
        let (from, to) = (ch.of(TEXTS), ch.of(&["x", "a „y” z", "2012. évi C. törvény 5. §-a", ""]));
        t.put(ch.of(&["a ", "az ", ""])).put("„").put(from).put("” ").put(ch.of(&["szövegrész", "szövegrészek", "szöveg"]));
        t.put(if with { " helyett a „" } else { " helyébe a „" }).put(to).put("”");
        parts.push((from, to));
        if i + 1 < n {
            t.put(ch.of(&[" szöveg, ", ", ", " szöveg, valamint ", " szöveg és "]));
        } else {
            t.put(if with { " szöveggel" } else { " szöveg" });
        }
    }
    t.put(if with { " lép hatályba" } else { " lép" }).put(ch.of(&[".", ""]));
    let phrase: Vec<Value> =
        refs.iter().flat_map(|r| parts.iter().map(move |(f, to)| json!({"reference": r, "from": f, "to": to}))).collect();
    Phrase { t, phrase: json!({"TextAmendment": phrase}) }
}

pub fn repeal(ch: &mut Chooser) -> Phrase {
    let mut t = Text::default();
    let mut cur = Meant::default();
    let lead = ch.of(&["Hatályát veszti a ", "Nem lép hatályba az ", "Hatályát veszíti a "]);
    the_act(ch, &mut t, &mut cur, lead);
    let kind = ch.pick(3);
    let mut refs = vec![];
    let phrase = match kind {
        // The whole act
        2 => {
            t.s.pop();
            json!({"Repeal": [{"Reference": cur.data()}]})
        }
        // Elements
        0 => {
            targets(ch, &mut t, &mut cur, &mut refs, true);
            let phrase: Vec<Value> = refs
                .iter()
                .map(|r| match r.get("SAE") {
                    Some(s) => json!({"Reference": s["reference"]}),
                    None => json!({"StructuralReference": r["Structural"]}),
                })
                .collect();
            json!({"Repeal": phrase})
        }
        // Texts in them
        _ => {
            targets(ch, &mut t, &mut cur, &mut refs, false);
            let n = 1 + ch.pick(2);
            let mut texts = vec![];
            for i in 0..n {
                let x = ch.of(TEXTS);
                t.put(ch.of(if i == 0 { &[" a ", " az ", " "] } else { &[", a ", " és az ", " "] }));
                t.put("„").put(x).put("”").put(ch.of(&[" szövegrész", " szövegrésze", ""]));
                texts.push(x);
            }
            let phrase: Vec<Value> =
                refs.iter().flat_map(|r| texts.iter().map(move |x| json!({"reference": r, "from": x, "to": ""}))).collect();
            json!({"TextAmendment": phrase})
        }
    };
    // Every sentence ends with a stop, or gets one.
    if !t.s.ends_with('.') {
        t.put(ch.of(&[".", ""]));
    }
    Phrase { t, phrase }
}

// ---- enforcement dates

const MONTHS: [&str; 12] = [
    "január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december",
];
const ORDINALS: &[(&str, u16)] = &[
    ("első", 1), ("második", 2), ("harmadik", 3), ("negyedik", 4), ("ötödik", 5), ("hatodik", 6), ("hetedik", 7), ("nyolcadik", 8),
    ("kilencedik", 9), ("tizedik", 10), ("tizenegyedik", 11), ("tizenkettedik", 12), ("tizenharmadik", 13), ("tizennegyedik", 14),
    ("tizenötödik", 15), ("tizenhatodik", 16), ("tizenhetedik", 17), ("tizennyolcadik", 18), ("tizenkilencedik", 19), ("huszadik", 20),
    ("harmincadik", 30), ("negyvenedik", 40), ("ötvenedik", 50), ("hatvanadik", 60), ("hetvenedik", 70), ("nyolcvanadik", 80),
    ("kilencvenedik", 90),
];

fn date(ch: &mut Chooser, t: &mut Text) -> String {
    let year = ch.of(&[2013, 1999, 2024]);
    let month = ch.pick(12);
    let days = [31, if year == 2024 { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month];
    let day = 1 + ch.pick(days);
    let end = match ch.pick(2) {
        0 => match day {
            1 => "-jén",
            2 | 3 | 6 | 8 | 13 | 16 | 18 | 20 | 23 | 26 | 28 | 30 => "-án",
            _ => "-én",
        },
        _ => ". napján",
    };
    t.put(&format!("{year}. {} {day}{end}", MONTHS[month]));
    format!("{year}-{:02}-{day:02}", month + 1)
}

pub fn enforcement(ch: &mut Chooser) -> Phrase {
    let mut t = Text::default();
    let mut v = serde_json::Map::new();
    let mut positions = vec![];
    let mut structural = vec![];
    if ch.pick(2) == 0 {
        t.put(ch.of(&["Ez a törvény ", "E törvény "]));
        let exception = ch.of(&[
            "",
            "– a (2)–(9) bekezdésben meghatározott kivétellel – ",
            "- a (2) és (3) bekezdésben foglaltak kivételével - ",
            "a (2) bekezdés szerinti kivétellel ",
            "– a 12. § a) és b) pontjában foglalt kivétellel − ",
        ]);
        t.put(exception);
    } else {
        t.put(ch.of(&["A ", "Az ", "E törvény ", "E törvény – a (2) bekezdésben foglalt kivétellel – ", "Ez a törvény a (3)–(5) bekezdés szerinti kivétellel "]));
        let mut cur = Meant::default();
        let n = 1 + ch.pick(4);
        for i in 0..n {
            if i > 0 {
                t.put(ch.of(&[", a ", " és ", ", ", " és az "]));
            }
            match ch.pick(6) {
                0 | 1 => {
                    let shapes = spell::shapes_after(&cur);
                    let shape = ch.of(&shapes);
                    let before = t.refs.len();
                    spell::spelling(ch, shape, &cur).write(&mut t, &mut cur);
                    positions.extend(t.refs[before..].iter().map(|r| r.2.clone()));
                }
                2 => {
                    let e = element(ch, false);
                    t.put(e.name).put(ch.of(e.of));
                    structural.push(json!({"structural_element": e.data}));
                }
                3 => {
                    t.put("3., 5–7. és 11/A. alcíme");
                    structural.push(json!({"structural_element": {"SubtitleId": "3"}}));
                    structural.push(json!({"structural_element": {"SubtitleRange": {"start": "5", "end": "7"}}}));
                    structural.push(json!({"structural_element": {"SubtitleId": "11a"}}));
                }
                4 => {
                    t.put(ch.of(&["1. melléklete", "2. és 3. melléklet"]));
                }
                _ => {
                    let e = element(ch, false);
                    t.put(BOOKS[0].0).put(e.name).put("e");
                    structural.push(json!({"book": BOOKS[0].1, "structural_element": e.data}));
                }
            }
        }
        t.put(" ");
    }
    let is_default = positions.is_empty() && structural.is_empty() && !t.s.contains("melléklet");
    let date = match ch.pick(4) {
        0 => json!({"Date": date(ch, &mut t)}),
        1 => {
            t.put(ch.of(&["a kihirdetését", "kihirdetését", "a kihirdetést", "e törvény kihirdetését"])).put(" követő ");
            let days = match ch.pick(3) {
                0 => 1,
                1 => {
                    let (o, n) = ch.of(ORDINALS);
                    t.put(o).put(" ");
                    n
                }
                _ => {
                    let n = ch.of(&[8, 31, 1, 365, 65535]);
                    t.put(&format!("{n}. "));
                    n
                }
            };
            t.put("napon");
            json!({"DaysAfterPublication": days})
        }
        _ => {
            t.put(ch.of(&["a kihirdetését", "a kihirdetést"])).put(" követő ");
            let mut d = serde_json::Map::new();
            if ch.yes() {
                let (o, n) = ch.of(&ORDINALS[1..]);
                t.put(o).put(" ");
                d.insert("month".into(), json!(n));
            }
            t.put("hónap ");
            if ch.yes() {
                let n = ch.of(&[15, 1, 31]);
                t.put(&format!("{n}. "));
                d.insert("day".into(), json!(n));
            } else {
                let (o, n) = ch.of(ORDINALS);
                t.put(o).put(" ");
                d.insert("day".into(), json!(n));
            }
            t.put("napján");
            json!({"DayInMonthAfterPublication": d})
        }
    };
    t.put(" lép hatályba");
    if ch.yes() {
        t.put(ch.of(&[", és ", " és ", ", és e törvény "]));
        let d = self::date(ch, &mut t);
        t.put(" hatályát veszti");
        v.insert("inline_repeal".into(), json!(d));
    }
    t.put(ch.of(&[".", ""]));
    if !positions.is_empty() {
        v.insert("positions".into(), json!(positions));
    }
    if !structural.is_empty() {
        v.insert("structural_positions".into(), json!(structural));
    }
    if is_default {
        v.insert("is_default".into(), json!(true));
    }
    v.insert("date".into(), date);
    Phrase { t, phrase: json!({"EnforcementDate": v}) }
}

fn space(name: &'static str, bound: usize, gen: fn(&mut Chooser) -> Phrase) -> Vec<Unit<'static>> {
    let known = spell::known();
    choose::units(name, bound, gen, move |c, _, p: &Phrase| {
        c.case(
            || format!("{:?}", p.t.s),
            || {
                c.steps(1);
                c.validated();
                c.outcome(name);
                let info = own::extract(&known, &p.t.s).map_err(|e| format!("{e:#}"))?;
                let got = serde_json::to_value(&info.special_phrase).unwrap();
                check!(got == p.phrase, "it is taken for {got}, and means {}", p.phrase);
                spell::compare(&info, &p.t)?;
                if p.t.s.ends_with(':') {
                    let info = before_a_quote(&p.t.s).map_err(|e| format!("before a quotation: {e}"))?;
                    let got = serde_json::to_value(&info.special_phrase).unwrap();
                    check!(got == p.phrase, "before a quotation, it is taken for {got}, and means {}", p.phrase);
                    spell::compare(&info, &p.t).map_err(|e| format!("before a quotation: {e}"))?;
                }
                Ok(())
            },
        )
    })
}

/// Repeals of parts that cannot be repealed by themselves: the element as a whole is not what is meant.
fn parts_repealed(bound: usize) -> Vec<Unit<'static>> {
    let known = spell::known();
    let gen = |ch: &mut Chooser| {
        let mut t = Text::default();
        let mut cur = Meant::default();
        t.put(ch.of(&["Hatályát veszti ", "Nem lép hatályba "]));
        the_act(ch, &mut t, &mut cur, "a ");
        let mut refs = vec![];
        targets(ch, &mut t, &mut cur, &mut refs, false);
        t.put(".");
        let parts: Vec<Value> = refs
            .iter()
            .filter_map(|r| match (r.get("SAE"), r.get("ArticleTitle")) {
                (Some(s), _) if s.get("amended_part").is_some() => Some(s["reference"].clone()),
                (_, Some(a)) => Some(a.clone()),
                _ => None,
            })
            .collect();
        // Those that are named in whole as well
        let whole: Vec<Value> = refs.iter().filter_map(|r| r.get("SAE").filter(|s| s.get("amended_part").is_none()).map(|s| s["reference"].clone())).collect();
        (t.s, parts.into_iter().filter(|p| !whole.contains(p)).collect::<Vec<_>>())
    };
    choose::units("parts", bound, gen, move |c, _, (s, parts)| {
        if parts.is_empty() {
            return;
        }
        c.case(
            || format!("{s:?}"),
            || {
                c.steps(1);
                c.validated();
                let Ok(info) = own::extract(&known, s) else {
                    c.outcome("a part is not repealed");
                    return Ok(());
                };
                c.outcome("a part is passed over");
                let got = serde_json::to_value(&info.special_phrase).unwrap();
                for r in got.get("Repeal").and_then(|r| r.as_array()).into_iter().flatten() {
                    check!(!parts.iter().any(|p| r.get("Reference") == Some(p)), "a part is repealed, and all of {r} is taken to be");
                }
                Ok(())
            },
        )
    })
}

/// The announcement as it stands in an act: the intro of a quoted block
fn before_a_quote(s: &str) -> Result<SemanticInfo, String> {
    static ACT: OnceLock<Act> = OnceLock::new();
    let mut act = ACT
        .get_or_init(|| {
            let line = serde_json::to_value(IndentedLine::from_test_str("1. § Új szöveg.")).unwrap();
            serde_json::from_value(json!({
                "identifier": {"year": 2345, "number": 13}, "subject": "", "preamble": "", "publication_date": "2345-06-07",
                "contained_abbreviations": spell::known(),
                "children": [{"Article": {"identifier": "1", "children": [{"body": {"intro": "", "children": {"QuotedBlock": [{"lines": [line]}]}}}]}}],
            }))
            .unwrap()
        })
        .clone();
    let p = &mut act.articles_mut().next().unwrap().children[0];
    let SAEBody::Children { intro, .. } = &mut p.body else { unreachable!() };
    *intro = s.to_string();
    act.add_semantic_info().map_err(|e| format!("{e:#}"))?;
    let info = act.articles().next().unwrap().children[0].semantic_info.clone();
    Ok(info)
}

pub fn block_amendments(tier: Tier) -> Vec<Unit<'static>> {
    let n = if tier == Tier::Quick { 6 } else { 7 };
    let mut out = own::examples(&["data_semantic_parser/block_amendment", "data_semantic_parser/structural_block_amendment"]);
    out.extend(space("elements", n, block));
    out.extend(space("structure", n, structural));
    out.extend(space("subtitles", n, subtitle));
    out.extend(crate::grown::c28());
    out
}

pub fn texts_and_repeals(tier: Tier) -> Vec<Unit<'static>> {
    let n = if tier == Tier::Quick { 4 } else { 5 };
    let mut out = own::examples(&[
        "data_semantic_parser/text_amendment",
        "data_semantic_parser/article_title_amendment",
        "data_semantic_parser/repeal",
    ]);
    out.extend(space("texts", n, text_amendment));
    out.extend(space("repeals", n, repeal));
    out.extend(parts_repealed(n));
    out.extend(crate::grown::c29());
    out
}

pub fn enforcement_dates(tier: Tier) -> Vec<Unit<'static>> {
    let n = if tier == Tier::Quick { 4 } else { 6 };
    let mut out = own::examples(&["data_semantic_parser/enforcement_date"]);
    out.extend(space("dates", n, enforcement));
    out.extend(crate::grown::c30());
    out
}
