//! C37: an amending act, from its printed lines to the changes it makes.
use hun_law::{
    identifier::ActIdentifier,
    parser::{mk_act_section::ActRawText, structure::parse_act_structure},
    structure::{Act, ActChild, ParagraphChildren, SAEBody},
    util::indentedline::IndentedLine,
};
use serde_json::{json, Value};

use crate::{
    check,
    choose::{self, Chooser},
    core::{Ctx, Tier, Unit},
    spell::{Level, Meant, Part, Spelling, Text},
};

/// Quoted lines: (column, text, whether it is set in bold)
#[derive(Debug, Clone, Default)]
struct Block {
    before: Option<&'static str>,
    brackets: usize,
    lines: Vec<(usize, String, bool)>,
    after: Option<&'static str>,
    /// What it becomes; without any it stays a quote.
    children: Option<Value>,
    structural: bool,
}

#[derive(Debug, Clone)]
struct Item {
    text: String,
    info: Value,
}

/// What stands in a paragraph
#[derive(Debug, Clone)]
struct Provision {
    text: String,
    info: Value,
    block: Option<Block>,
    items: Vec<Item>,
    wrap_up: Option<String>,
}

pub struct Doc {
    lines: Vec<String>,
    act: Value,
    quotes: Vec<Vec<String>>,
}

fn info(t: &Text, phrase: Value) -> Value {
    let mut v = serde_json::Map::new();
    if !t.refs.is_empty() {
        v.insert("outgoing_references".into(), t.refs.iter().map(|r| json!({"start": r.0, "end": r.1, "reference": r.2})).collect());
    }
    if !t.abbreviations.is_empty() {
        let m: serde_json::Map<String, Value> = t.abbreviations.iter().map(|(k, a)| (k.to_string(), json!({"year": a.0, "number": a.2}))).collect();
        v.insert("new_abbreviations".into(), m.into());
    }
    if !phrase.is_null() {
        v.insert("special_phrase".into(), phrase);
    }
    v.into()
}

fn plain(t: Text, phrase: Value) -> Provision {
    Provision { info: info(&t, phrase), text: t.s, block: None, items: vec![], wrap_up: None }
}

struct G<'a> {
    c: &'a mut Chooser,
    /// How the amended act is called: 0: defined at its first mention, 1: always by its number, 2: known from the beginning of the act
    naming: usize,
    mentioned: bool,
    width: usize,
}

const ACT: (u32, &str, u32) = (2012, "C", 100);
const TITLE: &str = "csodákról és a varázslatról szóló ";

fn level(level: usize, numeric: bool, parts: &[(&'static str, Option<&'static str>)], suffix: &'static str) -> Level {
    Level { level, numeric, parts: parts.iter().map(|p| Part(p.0, p.1)).collect(), suffix, dash: "–", form: 0, separators: vec![" és "] }
}

impl G<'_> {
    /// Names the act.
    fn name(&mut self, t: &mut Text) -> Meant {
        self.name_it(t, true)
    }

    fn name_it(&mut self, t: &mut Text, define: bool) -> Meant {
        let cur = Meant { act: Some(ACT), ..Default::default() };
        if self.naming == 1 || (self.naming == 0 && !self.mentioned) {
            t.put(TITLE);
            let start = t.at();
            t.put("2012. évi C. törvény");
            t.note(start, &cur);
            if self.naming == 0 && define {
                t.put(" (a továbbiakban: Btk.)");
                t.abbreviations.insert("Btk.", ACT);
                self.mentioned = true;
            }
        } else {
            let start = t.at();
            t.put("Btk.");
            t.note(start, &cur);
        }
        t.put(" ");
        cur
    }

    fn words(&mut self) -> String {
        self.c
            .of(&[
                "új szöveg, amely elég hosszú ahhoz, hogy több sorba kerüljön, ha keskeny a hasáb.",
                "rövid.",
                "a 12. § (3) bekezdése szerinti „idézett szöveg” és a Btk. 7. §-a alapján.",
                "az 1. melléklet 3. pontja szerint – ha van ilyen – kell eljárni.",
                // What new text defines, it defines in the amended act.
                "az eljárásról szóló 2005. évi V. törvény (a továbbiakban: Xtv.) szerint.",
            ])
            .to_string()
    }

    fn put(&self, out: &mut Vec<(usize, String, bool)>, head: &str, s: &str) {
        for (i, l) in wrap(&format!("{head}{s}"), self.width).into_iter().enumerate() {
            let _ = i;
            out.push((0, l, false));
        }
    }

    /// The body of a paragraph, in lines and as data
    fn body(&mut self, out: &mut Vec<(usize, String, bool)>, head: &str) -> Value {
        match self.c.pick(3) {
            0 => {
                let w = self.words();
                self.put(out, head, &w);
                json!(w)
            }
            n => {
                let numeric = n == 2;
                self.put(out, head, "Nem kell, ha");
                let mut v = vec![];
                for id in if numeric { ["1", "2"] } else { ["a", "b"] } {
                    let w = self.words();
                    self.put(out, &if numeric { format!("{id}. ") } else { format!("{id}) ") }, &w);
                    v.push(json!({"identifier": id, "body": w}));
                }
                let kind = if numeric { "NumericPoint" } else { "AlphabeticPoint" };
                json!({"intro": "Nem kell, ha", "children": {kind: v}})
            }
        }
    }

    fn article(&mut self, out: &mut Vec<(usize, String, bool)>, id: &str) -> Value {
        let mut v = json!({"identifier": id});
        let head = match self.c.pick(2) {
            0 => format!("{id}. § "),
            _ => {
                self.put(out, &format!("{id}. § "), "[Egy cím]");
                v["title"] = json!("Egy cím");
                String::new()
            }
        };
        v["children"] = if self.c.yes() {
            let a = self.body(out, &format!("{head}(1) "));
            let b = self.body(out, "(2) ");
            json!([{"identifier": "1", "body": a}, {"identifier": "2", "body": b}])
        } else {
            json!([{"body": self.body(out, &head)}])
        };
        json!({ "Article": v })
    }

    fn subtitle(&mut self, out: &mut Vec<(usize, String, bool)>) -> Value {
        match self.c.pick(2) {
            0 => {
                out.push((20, "Új alcím".into(), true));
                json!({"Subtitle": {"title": "Új alcím"}})
            }
            _ => {
                out.push((20, "11/A. Új alcím".into(), true));
                json!({"Subtitle": {"identifier": "11a", "title": "Új alcím"}})
            }
        }
    }

    fn block(&mut self) -> Provision {
        let mut t = Text::default();
        t.put("A ");
        let mut cur = self.name(&mut t);
        let kind = self.c.pick(10);
        let mut lines = vec![];
        let mut b = Block::default();
        let (spelling, phrase, children): (Option<Spelling>, Value, Value);
        let act = json!({"year": 2012, "number": 100});
        let at = |x: Value| {
            let mut v = json!({"act": {"year": 2012, "number": 100}});
            for (k, x) in x.as_object().unwrap() {
                v[k] = x.clone();
            }
            v
        };
        let amended = |p: Value, ins: bool| json!({"BlockAmendment": {"position": p, "pure_insertion": ins}});
        let structural = |e: Value, ins: bool| json!({"StructuralBlockAmendment": {"position": {"act": act, "structural_element": e}, "pure_insertion": ins}});
        let mut end = " helyébe a következő rendelkezés lép:";
        match kind {
            0 => {
                // Paragraphs replaced, with or without the number of the article
                let head = if self.c.yes() { "5. § " } else { "" };
                let two = self.c.yes();
                let mut v = vec![json!({"identifier": "2", "body": self.body(&mut lines, &format!("{head}(2) "))})];
                let mut p = json!("2");
                let mut parts = vec![("2", None)];
                if two {
                    v.push(json!({"identifier": "3", "body": self.body(&mut lines, "(3) ")}));
                    p = json!({"start": "2", "end": "3"});
                    parts.push(("3", None));
                }
                spelling = Some(Spelling { levels: vec![level(0, false, &[("5", None)], "§"), level(1, false, &parts, "bekezdése")], joint: None });
                phrase = amended(at(json!({"article": "5", "paragraph": p})), false);
                children = json!({"Paragraph": v});
            }
            1 => {
                // A paragraph added
                let v = vec![json!({"identifier": "2a", "body": self.body(&mut lines, "(2a) ")})];
                spelling = Some(Spelling {
                    levels: vec![level(0, false, &[("5/A", None)], "§-a"), level(1, false, &[("2a", None)], "bekezdéssel")],
                    joint: Some((1, " a következő ")),
                });
                phrase = amended(at(json!({"article": "5/A", "paragraph": "2a"})), true);
                children = json!({"Paragraph": v});
                end = " egészül ki:";
            }
            2 | 3 => {
                // Points, of letters and of numbers
                let numeric = kind == 3;
                let ids = if numeric { ["9", "10"] } else { ["g", "gy"] };
                let mut v = vec![];
                for id in ids {
                    let w = self.words();
                    self.put(&mut lines, &if numeric { format!("{id}. ") } else { format!("{id}) ") }, &w);
                    v.push(json!({"identifier": id, "body": w}));
                }
                spelling = Some(Spelling {
                    levels: vec![
                        level(0, false, &[("5", None)], "§"),
                        level(1, false, &[("2", None)], "bekezdés"),
                        level(2, numeric, &[(ids[0], Some(ids[1]))], "pontja"),
                    ],
                    joint: None,
                });
                phrase = amended(at(json!({"article": "5", "paragraph": "2", "point": {"start": ids[0], "end": ids[1]}})), false);
                children = if numeric { json!({"NumericPoint": v}) } else { json!({"AlphabeticPoint": v}) };
                end = " helyébe a következő rendelkezések lépnek:";
            }
            4 => {
                // Subpoints
                let mut v = vec![];
                for id in ["bb", "bc"] {
                    let w = self.words();
                    self.put(&mut lines, &format!("{id}) "), &w);
                    v.push(json!({"identifier": id, "body": w}));
                }
                spelling = Some(Spelling {
                    levels: vec![
                        level(0, false, &[("5", None)], "§"),
                        level(2, false, &[("b", None)], "pontja"),
                        level(3, false, &[("bb", None), ("bc", None)], "alponttal"),
                    ],
                    joint: Some((2, " a következő ")),
                });
                phrase = amended(at(json!({"article": "5", "point": "b", "subpoint": {"start": "bb", "end": "bc"}})), true);
                children = json!({"AlphabeticSubpoint": v});
                end = " egészül ki:";
            }
            5 => {
                // Articles
                let mut v = vec![self.article(&mut lines, "5")];
                let mut p = json!("5");
                let mut parts = vec![("5", None)];
                if self.c.yes() {
                    v.push(self.article(&mut lines, "6"));
                    p = json!({"start": "5", "end": "6"});
                    parts.push(("6", None));
                }
                spelling = Some(Spelling { levels: vec![level(0, false, &parts, "§-a")], joint: None });
                phrase = structural(json!({"Article": p}), false);
                children = json!(v);
                b.structural = true;
            }
            6 => {
                // A chapter added
                t.put("a következő III/A. Fejezettel");
                lines.push((20, "III/A. FEJEZET".into(), false));
                lines.push((15, "AZ ÚJ SZABÁLYOK".into(), false));
                let mut v = vec![json!({"StructuralElement": {"identifier": "3a", "title": "AZ ÚJ SZABÁLYOK", "element_type": "Chapter"}})];
                if self.c.yes() {
                    v.push(self.subtitle(&mut lines));
                }
                v.push(self.article(&mut lines, "15/A"));
                spelling = None;
                phrase = structural(json!({"Chapter": "3a"}), true);
                children = json!(v);
                b.structural = true;
                end = " egészül ki:";
            }
            7 => {
                // The title of a chapter
                t.put("XXIV. Fejezet címe");
                lines.push((20, "XXIV. FEJEZET".into(), false));
                lines.push((15, "ÚJ CÍM".into(), false));
                let mut p = structural(json!({"Chapter": "24"}), false);
                p["StructuralBlockAmendment"]["position"]["title_only"] = json!(true);
                spelling = None;
                phrase = p;
                children = json!([{"StructuralElement": {"identifier": "24", "title": "ÚJ CÍM", "element_type": "Chapter"}}]);
                b.structural = true;
            }
            8 => {
                // A subtitle and its article
                t.put("a következő alcímmel és ");
                spelling = Some(Spelling { levels: vec![level(0, false, &[("5/B", None)], "§-sal")], joint: None });
                let s = self.subtitle(&mut lines);
                let a = self.article(&mut lines, "5/B");
                phrase = structural(json!({"SubtitleBeforeArticleInclusive": "5/B"}), true);
                children = json!([s, a]);
                b.structural = true;
                end = " egészül ki:";
            }
            _ => {
                // The subtitle at an article
                spelling = Some(Spelling { levels: vec![level(0, false, &[("5", None)], "§-át")], joint: None });
                let s = self.subtitle(&mut lines);
                let a = self.article(&mut lines, "5");
                phrase = structural(json!({"SubtitleBeforeArticle": "5"}), false);
                children = json!([s, a]);
                b.structural = true;
                end = " megelőző alcím helyébe a következő alcím lép:";
            }
        }
        if let Some(s) = spelling {
            s.write(&mut t, &mut cur);
        }
        t.put(end);
        b.lines = lines;
        b.children = Some(children);
        if !b.structural {
            match self.c.pick(4) {
                0 => (),
                n => {
                    b.before = Some("Az 5. § (2) bekezdése alkalmazásában nem kell, ha");
                    b.brackets = n % 2;
                    b.after = (n == 3).then_some("és kész.");
                }
            }
        }
        let mut p = plain(t, phrase);
        p.block = Some(b);
        p
    }

    fn provision(&mut self) -> Provision {
        match self.c.pick(9) {
            0 => {
                let mut t = Text::default();
                t.put("A ");
                Spelling { levels: vec![level(0, false, &[("12", None)], "§"), level(1, false, &[("3", None)], "bekezdése")], joint: None }.write(&mut t, &mut Meant::default());
                t.put(" szerint kell eljárni az Xtv. alapján.");
                plain(t, Value::Null)
            }
            1 => self.block(),
            2 => {
                // A text amendment
                let mut t = Text::default();
                t.put("A ");
                let mut cur = self.name(&mut t);
                let before = t.refs.len();
                Spelling { levels: vec![level(0, false, &[("5", None)], "§"), level(1, false, &[("2", None), ("4", None)], "bekezdésében")], joint: None }
                    .write(&mut t, &mut cur);
                t.put(" a „régi szöveg” szövegrész helyébe az „új szöveg” szöveg lép.");
                let phrase: Vec<Value> =
                    t.refs[before..].iter().map(|r| json!({"reference": {"SAE": {"reference": r.2}}, "from": "régi szöveg", "to": "új szöveg"})).collect();
                plain(t, json!({ "TextAmendment": phrase }))
            }
            3 => {
                // Text amendments in a list
                let mut t = Text::default();
                t.put("A ");
                // Whether the points repeat a name that their introduction defines is not asked.
                let cur = self.name_it(&mut t, false);
                t.s.pop();
                let mut p = plain(t, Value::Null);
                for (i, par) in ["2", "4"].into_iter().enumerate() {
                    let mut t = Text::default();
                    Spelling { levels: vec![level(0, false, &[("5", None)], "§"), level(1, false, &[(par, None)], "bekezdésében")], joint: None }
                        .write(&mut t, &mut cur.clone());
                    t.put(" a „régi” szövegrész helyébe az „új, jobb” szöveg");
                    let phrase = json!({"TextAmendment": [{"reference": {"SAE": {"reference": t.refs[0].2}}, "from": "régi", "to": "új, jobb"}]});
                    let info = info(&t, phrase);
                    t.put(if i == 0 { "," } else { "" });
                    p.items.push(Item { text: t.s, info });
                }
                p.wrap_up = Some("lép.".into());
                p
            }
            4 => {
                let mut t = Text::default();
                t.put("Hatályát veszti a ");
                let mut cur = self.name(&mut t);
                let before = t.refs.len();
                Spelling { levels: vec![level(0, false, &[("5", None), ("7", Some("9"))], "§-a")], joint: None }.write(&mut t, &mut cur);
                t.put(".");
                let phrase: Vec<Value> = t.refs[before..].iter().map(|r| json!({"Reference": r.2})).collect();
                plain(t, json!({ "Repeal": phrase }))
            }
            5 => {
                // Repeals in a list
                let mut p = plain(Text { s: "Hatályát veszti".into(), ..Default::default() }, Value::Null);
                for (i, end) in [", valamint", "."].into_iter().enumerate() {
                    let mut t = Text::default();
                    t.put("a ");
                    let mut cur = self.name(&mut t);
                    let par = ["2", "6"][i];
                    Spelling { levels: vec![level(0, false, &[("5", None)], "§"), level(1, false, &[(par, None)], "bekezdése")], joint: None }.write(&mut t, &mut cur);
                    let phrase = json!({"Repeal": [{"Reference": t.refs.last().unwrap().2}]});
                    let info = info(&t, phrase);
                    t.put(end);
                    p.items.push(Item { text: t.s, info });
                }
                p
            }
            6 => {
                // A quote that amends nothing
                let mut p = plain(Text { s: "A nyilatkozat szövege a következő:".into(), ..Default::default() }, Value::Null);
                let mut lines = vec![];
                let w = self.words();
                self.put(&mut lines, "5. § (1) ", &w);
                self.put(&mut lines, "(2) ", "Rövid szöveg.");
                p.block = Some(Block { lines, ..Default::default() });
                p
            }
            7 => {
                let mut t = Text::default();
                t.put("Az ");
                Spelling { levels: vec![level(0, false, &[("1", None)], "§"), level(1, false, &[("2", None)], "bekezdése")], joint: None }.write(&mut t, &mut Meant::default());
                t.put(" 2013. július 1-jén lép hatályba.");
                let r = t.refs[0].2.clone();
                plain(t, json!({"EnforcementDate": {"positions": [r], "date": {"Date": "2013-07-01"}}}))
            }
            _ => {
                let mut t = Text::default();
                t.put("Az eljárásra a ");
                let mut cur = self.name(&mut t);
                Spelling { levels: vec![level(0, false, &[("5", None)], "§"), level(2, false, &[("b", None)], "pontját")], joint: None }.write(&mut t, &mut cur);
                t.put(" kell alkalmazni.");
                plain(t, Value::Null)
            }
        }
    }
}

/// Lines of this width; what may look like an identifier does not begin one.
fn wrap(s: &str, width: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for w in s.split(' ') {
        let id = w.starts_with(|c: char| c.is_ascii_digit() || c == '(' || c == '§' || c == '„' || c == '–') || w.chars().take(3).any(|c| c == ')');
        match out.last_mut() {
            Some(l) if id || l.chars().count() + 1 + w.chars().count() <= width => {
                l.push(' ');
                l.push_str(w);
            }
            _ => out.push(w.to_string()),
        }
    }
    out
}

const ARTICLE: usize = 9;
const PARAGRAPH: usize = 18;
const TEXT: usize = 23;

fn set(out: &mut Vec<String>, first: usize, head: &str, column: usize, s: &str, width: usize) {
    let lines = wrap(s, width);
    let n = lines.len();
    for (i, l) in lines.into_iter().enumerate() {
        // The last line is not stretched.
        let (mark, used) = if i + 1 == n { ("<NJ>", 4) } else { ("", 0) };
        let (at, head) = if i == 0 { (first, head) } else { (column, "") };
        out.push(format!("{mark}{}{head}{l}", " ".repeat(at - used)));
    }
}

fn sae(identifier: &str, p: &Provision, out: &mut Vec<String>, head: (usize, String), width: usize, quotes: &mut Vec<Vec<String>>) -> Value {
    let mut v = serde_json::Map::new();
    if !identifier.is_empty() {
        v.insert("identifier".into(), json!(identifier));
    }
    set(out, head.0, &head.1, TEXT, &p.text, width);
    if p.info != json!({}) {
        v.insert("semantic_info".into(), p.info.clone());
    }
    let children = if let Some(b) = &p.block {
        let (open, close) = [("(", ")"), ("[", "]")][b.brackets];
        if let Some(s) = b.before {
            set(out, TEXT, "", TEXT, &format!("{open}{s}{close}"), width);
        }
        let n = b.lines.len();
        for (i, (column, s, bold)) in b.lines.iter().enumerate() {
            let s = format!("{}{s}{}", if i == 0 { "„" } else { "" }, if i + 1 == n { "”" } else { "" });
            out.push(if *bold { format!("<BOLD>{}{s}", " ".repeat(TEXT + column - 6)) } else { format!("{}{s}", " ".repeat(TEXT + column)) });
        }
        if let Some(s) = b.after {
            set(out, TEXT, "", TEXT, &format!("{open}{s}{close}"), width);
        }
        let mut m = serde_json::Map::new();
        if let Some(s) = b.before {
            m.insert("intro".into(), json!(s));
        }
        if let Some(s) = b.after {
            m.insert("wrap_up".into(), json!(s));
        }
        match &b.children {
            None => {
                quotes.push(b.lines.iter().map(|l| l.1.clone()).collect());
                m.insert("lines".into(), json!([]));
                json!({"QuotedBlock": [m]})
            }
            Some(c) => {
                m.insert("children".into(), c.clone());
                json!({ if b.structural { "StructuralBlockAmendment" } else { "BlockAmendment" }: m })
            }
        }
    } else if !p.items.is_empty() {
        let mut points = vec![];
        for (i, item) in p.items.iter().enumerate() {
            let id = ["a", "b", "c"][i];
            set(out, TEXT, &format!("{id}) "), TEXT + 3, &item.text, width);
            points.push(json!({"identifier": id, "body": item.text, "semantic_info": item.info}));
        }
        json!({ "AlphabeticPoint": points })
    } else {
        v.insert("body".into(), json!(p.text));
        return v.into();
    };
    let mut body = json!({"intro": p.text, "children": children});
    if let Some(w) = &p.wrap_up {
        set(out, TEXT, "", TEXT, w, width);
        body["wrap_up"] = json!(w);
    }
    v.insert("body".into(), body);
    v.into()
}

fn generate(c: &mut Chooser) -> Doc {
    let width = c.of(&[100, 45, 60]);
    let naming = c.pick(3);
    let mut g = G { c, naming, mentioned: naming == 2, width };
    let mut lines = vec![];
    let mut quotes = vec![];
    set(&mut lines, PARAGRAPH, "", PARAGRAPH, "Az Országgyűlés a következő törvényt alkotja:", 200);
    let mut articles = vec![];
    let mut number = 0;
    let mut article = |lines: &mut Vec<String>, quotes: &mut Vec<Vec<String>>, ps: Vec<Provision>| {
        number += 1;
        let id = number.to_string();
        let many = ps.len() > 1;
        let children: Vec<Value> = ps
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let par = if many { (i + 1).to_string() } else { String::new() };
                let mut head = if i == 0 { format!("{id}. §    ") } else { String::new() };
                if many {
                    head += &format!("({par})  ");
                }
                sae(&par, p, lines, (if i == 0 { ARTICLE } else { PARAGRAPH }, head), width, quotes)
            })
            .collect();
        articles.push(json!({"Article": {"identifier": id, "children": children}}));
    };
    if naming == 2 {
        let mut t = Text::default();
        t.put("E törvény alkalmazásában a ").put(TITLE);
        let start = t.at();
        t.put("2012. évi C. törvény");
        t.note(start, &Meant { act: Some(ACT), ..Default::default() });
        t.put(" (a továbbiakban: Btk.) az irányadó.");
        t.abbreviations.insert("Btk.", ACT);
        article(&mut lines, &mut quotes, vec![plain(t, Value::Null)]);
    }
    let first: Vec<Provision> = (0..g.c.of(&[2, 3])).map(|_| g.provision()).collect();
    article(&mut lines, &mut quotes, first);
    let second = g.provision();
    article(&mut lines, &mut quotes, vec![second]);
    let mut t = Text::default();
    t.put("Ez a törvény a kihirdetését követő ");
    let (days, text) = g.c.of(&[(1, ""), (8, "8. "), (15, "tizenötödik ")]);
    t.put(text).put("napon lép hatályba.");
    article(&mut lines, &mut quotes, vec![plain(t, json!({"EnforcementDate": {"is_default": true, "date": {"DaysAfterPublication": days}}}))]);
    let known = if naming == 2 || (naming == 0 && g.mentioned) { json!({"Btk.": {"year": 2012, "number": 100}}) } else { json!({}) };
    let act = json!({
        "identifier": {"year": 2013, "number": 31}, "subject": "a módosításról", "preamble": "Az Országgyűlés a következő törvényt alkotja:",
        "publication_date": "2013-04-05", "contained_abbreviations": known, "children": articles,
    });
    Doc { lines, act, quotes }
}

/// The first place where they differ
fn difference(at: &str, got: &Value, want: &Value) -> Option<String> {
    match (got, want) {
        (Value::Object(a), Value::Object(b)) => {
            let keys: std::collections::BTreeSet<&String> = a.keys().chain(b.keys()).collect();
            keys.into_iter().find_map(|k| difference(&format!("{at}/{k}"), a.get(k).unwrap_or(&Value::Null), b.get(k).unwrap_or(&Value::Null)))
        }
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().find_map(|(i, (a, b))| difference(&format!("{at}/{i}"), a, b)),
        _ if got == want => None,
        _ => Some(format!("{at} is {got} instead of {want}")),
    }
}

fn judge(c: &Ctx, choices: &[usize], d: &Doc) {
    c.case(
        || format!("{choices:?}: {}", d.lines.join(" ¶ ")),
        || {
            c.steps(3);
            c.validated();
            c.outcome(if d.quotes.is_empty() { "no quote stays" } else { "a quote stays" });
            let raw = ActRawText {
                identifier: ActIdentifier { year: 2013, number: 31 },
                subject: "a módosításról".into(),
                publication_date: chrono::NaiveDate::from_ymd_opt(2013, 4, 5).unwrap(),
                body: d.lines.iter().map(|l| IndentedLine::from_test_str(l)).collect(),
            };
            let mut act = parse_act_structure(&raw).map_err(|e| format!("the structure is refused: {e:#}"))?;
            act.add_semantic_info().map_err(|e| format!("{e:#}"))?;
            act.convert_block_amendments().map_err(|e| format!("the amendments are refused: {e:#}"))?;
            // Processed again, as acts are after each change: as a whole, article by article, and after it was stored
            for way in 0..3 {
                let mut again = act.clone();
                match way {
                    0 => drop(again.add_semantic_info().map_err(|e| format!("again: {e:#}"))?),
                    1 => {
                        let ids: Vec<_> = again.articles().map(|a| a.identifier).collect();
                        for id in ids {
                            again.add_semantic_info_to_article(id).map_err(|e| format!("again: {e:#}"))?;
                        }
                    }
                    _ => {
                        again = serde_json::from_value(serde_json::to_value(&act).unwrap()).map_err(|e| format!("read back: {e:#}"))?;
                    }
                }
                again.convert_block_amendments().map_err(|e| format!("again: {e:#}"))?;
                if again != act {
                    let (a, b) = (serde_json::to_value(&again).unwrap(), serde_json::to_value(&act).unwrap());
                    return Err(format!("processed again ({way}): {}", difference("", &a, &b).unwrap_or_else(|| "a difference that JSON does not show".into())));
                }
                c.steps(2);
            }
            let mut quotes = vec![];
            for child in &mut act.children {
                let ActChild::Article(article) = child else { continue };
                for p in &mut article.children {
                    if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(qbs), .. } = &mut p.body {
                        for qb in qbs {
                            quotes.push(std::mem::take(&mut qb.lines).iter().map(|l| l.content().to_string()).collect::<Vec<_>>());
                        }
                    }
                }
            }
            let want: Act = serde_json::from_value(d.act.clone()).unwrap();
            if act != want {
                let (a, b) = (serde_json::to_value(&act).unwrap(), serde_json::to_value(&want).unwrap());
                return Err(difference("", &a, &b).unwrap_or_else(|| "a difference that JSON does not show".into()));
            }
            check!(quotes == d.quotes, "the quotes are {quotes:?} instead of {:?}", d.quotes);
            Ok(())
        },
    );
}

pub fn units(tier: Tier) -> Vec<Unit<'static>> {
    choose::units("", if tier == Tier::Quick { 5 } else { 7 }, generate, judge)
}
