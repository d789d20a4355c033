//! C08: an act in the conventional layout parses back to exactly the act meant.
//!
//! The generator decides on an act element by element, and writes its lines and the expected
//! parse at the same time.
use crate::{
    check,
    choose::{self, Chooser},
    core::{Ctx, Tier, Unit},
    doc::{self, brief, join, line, show},
};
use hun_law::{
    parser::structure::parse_act_structure,
    structure::*,
    util::indentedline::{IndentedLine, EMPTY_LINE},
};

/// Text shapes: the lines of a running text.
const TEXTS: &[&[&str]] = &[
    &["alma, körte."],
    &["alma,", "körte."],
    &["alma-", "körte."],
    &["alma-", "és körte,", "vagy barack-", "vagy dió."],
    &["az", "(2) bekezdése szerint."],
    &["a", "b) pontja szerint."],
    &["az", "(3) szám, és"],
    &["az", "3. § szerint és", "3. § (2) bekezdése."],
    &["a", "2. pont, vagy", "2. alpontja szerint."],
    &["az „alma” szó."],
    &["az „alma,", "b) körte” szó."],
    &["az „alma", "(2) idézet", "2. § idézet", "MÁSODIK KÖNYV", "körte” szó."],
    &["a MÁSODIK", "RÉSZ szerint."],
    &["dió: (a) b)", "(c) és [d]"],
    &["szó", "szó", "szó", "szó"],
    // A lone look-alike of a first child is text.
    &["alma:", "a) körte."],
    &["alma:", "1. körte."],
    &["alma:", "aa) körte."],
];
/// The last ones only make sense where no real list follows.
const SAFE_TEXTS: usize = 15;

pub struct Doc {
    pub lines: Vec<IndentedLine>,
    pub act: Act,
}

struct B<'a> {
    c: &'a mut Chooser,
    lines: Vec<IndentedLine>,
    just: bool,
    /// How far later siblings are off the first one
    drift: f64,
    /// Sparse: an empty line before list items
    gaps: bool,
    wide: bool,
    /// What stands between the number of an article and its sign
    sign: &'static str,
}

/// A line written so far, to which the first text line is attached.
struct Head {
    indent: f64,
    text: String,
}

impl B<'_> {
    fn put(&mut self, indent: f64, text: &str) {
        self.lines.push(line(indent, text, false, self.just));
    }
    fn gap(&mut self) {
        self.lines.push(EMPTY_LINE);
    }
    /// A running text whose first line continues `head`.
    fn text(&mut self, head: Head, cont: f64, alone: bool) -> String {
        let n = if alone { TEXTS.len() } else { SAFE_TEXTS };
        let k = self.c.pick(n);
        let t = TEXTS[k];
        self.lines_at(head, cont, t);
        join(t)
    }
    fn lines_at(&mut self, head: Head, cont: f64, t: &[&str]) {
        self.put(head.indent, &format!("{}{}", head.text, t[0]));
        for l in &t[1..] {
            self.put(cont, l);
        }
    }
    fn wrap_up(&mut self, indent: f64) -> Option<String> {
        match self.c.pick(4) {
            0 => None,
            1 => {
                self.put(indent + self.drift, "együtt.");
                Some("együtt.".into())
            }
            2 => {
                self.put(indent, "együtt az");
                self.put(indent, "(1) bekezdés szerint.");
                Some("együtt az (1) bekezdés szerint.".into())
            }
            _ => {
                self.put(indent - 10.0, "együtt-");
                self.put(indent + 30.0, "tesen.");
                Some("együtt-tesen.".into())
            }
        }
    }
    fn item_gap(&mut self) {
        if self.gaps {
            self.gap();
        }
    }

    fn article(&mut self, id: &str) -> Article {
        let title = self.c.pick(4);
        let head = format!("{id}.{}§ ", self.sign);
        let base = 60.0;
        let mut start = Head { indent: base + self.drift, text: head.clone() };
        let par_indent;
        let title = match title {
            0 => {
                par_indent = base + 5.0 * head.chars().count() as f64 - 5.0;
                None
            }
            k => {
                let t: &[&str] = match k {
                    1 => &["[Cím]"],
                    2 => &["[Hosszú", "(1) cím", "a) még] hosszabb]"],
                    _ => &["[A cím-", "és címke] vége]"],
                };
                self.lines_at(start, 90.0, t);
                if k == 3 {
                    self.gap();
                }
                par_indent = 85.0;
                start = Head { indent: par_indent, text: String::new() };
                let j = join(t);
                Some(j[1..j.len() - 1].to_string())
            }
        };
        let pars: &[&str] = match self.c.pick(4) {
            0 => &[""],
            1 => &["1", "2"],
            2 => &["1", "1a", "2"],
            _ => &["1", "2", "3", "3a", "3b", "4"],
        };
        let mut children: Vec<Paragraph> = vec![];
        for (i, id) in pars.iter().enumerate() {
            let mut h = if i == 0 {
                Head { indent: start.indent, text: start.text.clone() }
            } else {
                self.item_gap();
                Head { indent: par_indent + self.drift, text: String::new() }
            };
            if !id.is_empty() {
                h.text += &format!("({id}) ");
            }
            let body = self.paragraph_body(h);
            children.push(Paragraph {
                identifier: if id.is_empty() { Default::default() } else { id.parse().unwrap() },
                body,
                semantic_info: Default::default(),
                last_change: None,
            });
        }
        Article { identifier: id.parse().unwrap(), title, children, last_change: None }
    }

    fn paragraph_body(&mut self, h: Head) -> SAEBody<ParagraphChildren> {
        let cont = if self.wide { 110.0 } else { 100.0 };
        match self.c.pick(6) {
            0 => SAEBody::Text(self.text(h, cont, true)),
            k @ (1 | 2) => {
                let intro = self.text(h, cont, false);
                let ids: &[&str] = if k == 1 {
                    &["a", "b"]
                } else {
                    &["a", "b", "c", "cs", "d", "e"]
                };
                let children = self.alphabetic_points(ids);
                let wrap_up = self.wrap_up(100.0);
                SAEBody::Children { intro, children: children.into(), wrap_up }
            }
            k @ (3 | 4) => {
                let intro = self.text(h, cont, false);
                let ids: &[&str] = if k == 3 { &["1", "2"] } else { &["1", "1a", "1/b", "2", "3"] };
                let children = self.numeric_points(ids);
                let wrap_up = self.wrap_up(100.0);
                SAEBody::Children { intro, children: children.into(), wrap_up }
            }
            _ => self.quoted(h),
        }
    }

    fn alphabetic_points(&mut self, ids: &[&str]) -> Vec<AlphabeticPoint> {
        let mut out = vec![];
        for (i, id) in ids.iter().enumerate() {
            self.item_gap();
            let h = Head { indent: 100.0 + if i > 0 { self.drift } else { 0.0 }, text: format!("{id}) ") };
            // A digraph cannot be the prefix of a subpoint.
            let body = match self.c.pick(if id.len() > 1 { 1 } else { 3 }) {
                0 => SAEBody::Text(self.text(h, 130.0, false)),
                1 => {
                    let intro = self.text(h, 130.0, false);
                    let subs: Vec<String> = ["a", "b", "c"].iter().map(|s| format!("{id}{s}")).collect();
                    let children = self.alphabetic_subpoints(&subs[..if i == 0 { 2 } else { 3 }]);
                    let wrap_up = self.wrap_up(120.0);
                    SAEBody::Children { intro, children: children.into(), wrap_up }
                }
                _ => {
                    let intro = self.text(h, 130.0, false);
                    let mut children: Vec<NumericSubpoint> = vec![];
                    for (j, sub) in ["1", "2", "2a"].iter().enumerate() {
                        self.item_gap();
                        let h = Head { indent: 120.0 + if j > 0 { self.drift } else { 0.0 }, text: format!("{sub}. ") };
                        children.push(NumericSubpoint {
                            identifier: sub.parse().unwrap(),
                            body: SAEBody::Text(self.text(h, 140.0, false)),
                            semantic_info: Default::default(),
                            last_change: None,
                        });
                    }
                    let wrap_up = self.wrap_up(120.0);
                    SAEBody::Children { intro, children: children.into(), wrap_up }
                }
            };
            out.push(AlphabeticPoint {
                identifier: id.parse().unwrap(),
                body,
                semantic_info: Default::default(),
                last_change: None,
            });
        }
        out
    }

    fn alphabetic_subpoints(&mut self, ids: &[String]) -> Vec<AlphabeticSubpoint> {
        let mut out = vec![];
        for (j, id) in ids.iter().enumerate() {
            self.item_gap();
            let h = Head { indent: 120.0 + if j > 0 { self.drift } else { 0.0 }, text: format!("{id}) ") };
            out.push(AlphabeticSubpoint {
                identifier: id.parse().unwrap(),
                body: SAEBody::Text(self.text(h, 140.0, false)),
                semantic_info: Default::default(),
                last_change: None,
            });
        }
        out
    }

    fn numeric_points(&mut self, ids: &[&str]) -> Vec<NumericPoint> {
        let mut out = vec![];
        for (i, id) in ids.iter().enumerate() {
            self.item_gap();
            let h = Head { indent: 100.0 + if i > 0 { self.drift } else { 0.0 }, text: format!("{id}. ") };
            let body = match self.c.pick(2) {
                0 => SAEBody::Text(self.text(h, 130.0, false)),
                _ => {
                    let intro = self.text(h, 130.0, false);
                    let children = self.alphabetic_subpoints(&["a".to_string(), "b".to_string()]);
                    let wrap_up = self.wrap_up(120.0);
                    SAEBody::Children { intro, children: children.into(), wrap_up }
                }
            };
            out.push(NumericPoint {
                identifier: id.parse().unwrap(),
                body,
                semantic_info: Default::default(),
                last_change: None,
            });
        }
        out
    }

    fn quoted(&mut self, h: Head) -> SAEBody<ParagraphChildren> {
        let intro_lines: &[&str] = match self.c.pick(3) {
            0 => &["A Btk. helyébe a következő lép:"],
            1 => &["A Btk.", "3. § (2) bekezdése helyébe a következő lép:"],
            // Without a colon there is no bracketed introduction.
            _ => &["A Btk. a következő."],
        };
        let colon = intro_lines.last().unwrap().ends_with(':');
        self.lines_at(h, 100.0, intro_lines);
        let intro = join(intro_lines);
        let mut q_intro = None;
        if colon {
            let t: &[&str] = match self.c.pick(4) {
                0 => &[],
                1 => &["(Ha)"],
                2 => &["(Ha a", "(2) bekezdés, és „b” is)"],
                _ => &["[Ha a", "következő)", "nem] jó]"],
            };
            // The third one closes at its second line already: what follows must be a new bracket.
            let t = if t.len() == 3 { &["[Ha a", "következő nem jó]"] } else { t };
            for l in t {
                self.put(80.0, l);
            }
            if !t.is_empty() {
                let j = join(t);
                q_intro = Some(j[1..j.len() - 1].to_string());
            }
        }
        let blocks: usize = [1, 2, 3][self.c.pick(3)];
        let mut children: Vec<QuotedBlock> = vec![];
        for _ in 0..blocks {
            if self.c.yes() {
                self.gap();
            }
            let t: &[(f64, &str)] = match self.c.pick(7) {
                0 => &[(80.0, "idézet")],
                5 => &[(80.0, "idézet"), (80.0, "szó"), (80.0, "szó"), (80.0, "szó")],
                1 => &[(80.0, "(2) idézet"), (80.0, "(3) idézet")],
                2 => &[(60.0, "2. § (1) idézet"), (0.0, ""), (60.0, "(2) idézet „belső” szöveg")],
                3 => &[(60.0, "II. FEJEZET"), (60.0, "3. § Új"), (20.0, "(2) új"), (20.0, "b) új")],
                4 => &[(80.0, "„beljebb” (vagy)"), (80.0, "„még beljebb"), (80.0, "mindig” és")],
                _ => &[(80.0, "a) idézet,"), (80.0, "(b) idézet)")],
            };
            let open = self.c.of(&['„', '“']);
            let mut lines = vec![];
            for (i, (indent, s)) in t.iter().enumerate() {
                let last = i + 1 == t.len();
                if s.is_empty() {
                    self.gap();
                    lines.push(EMPTY_LINE);
                    continue;
                }
                let full = format!(
                    "{}{s}{}",
                    if i == 0 { open.to_string() } else { String::new() },
                    if last { "”" } else { "" }
                );
                self.put(*indent, &full);
                // Without its quotation marks; the rest stays where it was.
                lines.push(line(if i == 0 { indent + 5.0 } else { *indent }, s, false, self.just && !last));
            }
            children.push(QuotedBlock { intro: None, lines, wrap_up: None });
        }
        let mut q_wrap = None;
        let mut wrap_up = None;
        if self.c.yes() {
            self.gap();
        }
        match self.c.pick(5) {
            0 => {}
            1 => {
                self.put(80.0, "(ezt.)");
                q_wrap = Some("ezt.".to_string());
            }
            2 => {
                self.put(80.0, "[ezt is,");
                self.put(80.0, "„azt” is.]");
                q_wrap = Some("ezt is, „azt” is.".to_string());
            }
            3 => {
                self.put(100.0, "szöveggel.");
                wrap_up = Some("szöveggel.".to_string());
            }
            _ => {
                self.put(80.0, "(ezt.)");
                self.put(100.0, "(bezárva) és");
                self.put(100.0, "a „szöveg” is.");
                q_wrap = Some("ezt. bezárva) és a „szöveg” is.".to_string());
                // Only whole brackets end a bracketed part.
                wrap_up = None;
                let _ = &wrap_up;
                self.put(100.0, "(a vége)");
                q_wrap = q_wrap.map(|s| s + " (a vége");
            }
        }
        children.first_mut().unwrap().intro = q_intro;
        children.last_mut().unwrap().wrap_up = q_wrap;
        SAEBody::Children { intro, children: children.into(), wrap_up }
    }
}

const BOOKS: &[(&str, u16)] = &[("ELSŐ", 1), ("MÁSODIK", 2), ("TIZEDIK", 10), ("HUSZONÖTÖDIK", 25)];
const ROMANS: &[(&str, &str)] = &[("I", "1"), ("II", "2"), ("XIV", "14"), ("III/A", "3a"), ("XL", "40")];

pub fn generate(c: &mut Chooser) -> Doc {
    let mut b = B { c, lines: vec![], just: true, drift: 0.0, gaps: false, wide: false, sign: " " };
    // The whole document at once:
    match b.c.pick(7) {
        0 => {}
        1 => b.just = false,
        2 => b.drift = 0.9,
        3 => b.drift = -0.9,
        4 => b.gaps = true,
        5 => b.sign = "",
        _ => b.wide = true,
    }
    let preamble: &[&str] = match b.c.pick(4) {
        0 => &["Az Országgyűlés a következőt alkotja:"],
        1 => &[],
        2 => &["Az „Országgyűlés”", "2. § szerint", "(1) alkot-", "ja:"],
        _ => &["Az Országgyűlés", "", "alkotja:"],
    };
    for l in preamble {
        if l.is_empty() {
            b.gap();
        } else {
            b.put(60.0, l);
        }
    }
    let books = b.c.yes();
    let mut children: Vec<ActChild> = vec![];
    let (mut book, mut num, mut suffix) = (1, 0, None::<char>);
    let mut budget = 4;
    let mut have_article = false;
    while budget > 0 {
        budget -= 1;
        // The first child is an article unless something else is chosen.
        let kind = b.c.pick(if children.is_empty() { 8 } else { 9 });
        let kind = if children.is_empty() { kind + 1 } else { kind };
        match kind {
            0 => break,
            1 => {
                // Numbering
                let step = if have_article { b.c.pick(if books { 3 } else { 2 }) } else { 0 };
                match step {
                    0 => {
                        num += 1;
                        suffix = None;
                    }
                    1 => suffix = Some(suffix.map_or('A', |s| (s as u8 + 1) as char)),
                    _ => {
                        book += 1;
                        num = 1;
                        suffix = None;
                    }
                }
                have_article = true;
                let id = format!(
                    "{}{num}{}",
                    if books { format!("{book}:") } else { String::new() },
                    suffix.map_or(String::new(), |s| format!("/{s}"))
                );
                if b.c.yes() {
                    b.gap();
                }
                children.push(b.article(&id).into());
            }
            k @ (2 | 3) => {
                b.gap();
                let long = b.c.yes();
                let (head, identifier) = if k == 2 {
                    let (t, i) = b.c.of(&[("1", "1"), ("12", "12"), ("2/A", "2a")]);
                    (format!("{t}. "), Some(i.parse().unwrap()))
                } else {
                    (String::new(), None)
                };
                let just = b.just;
                b.lines.push(line(200.0, &format!("{head}Az alcím"), true, just));
                let mut title = "Az alcím".to_string();
                if long {
                    b.lines.push(line(180.0, "folytatása", true, just));
                    b.lines.push(line(180.0, "A végéig", true, just));
                    title += " folytatása A végéig";
                }
                children.push(Subtitle { identifier, title, last_change: None }.into());
                b.gap();
            }
            k => {
                if b.c.pick(2) == 0 {
                    b.gap();
                }
                let (header, id, element_type) = match k {
                    4 => {
                        let (t, i) = b.c.of(BOOKS);
                        (format!("{t} KÖNYV"), i.into(), StructuralElementType::Book)
                    }
                    5 => {
                        let (t, i) = b.c.of(BOOKS);
                        (format!("{t} RÉSZ"), i.into(), StructuralElementType::Part { is_special: false })
                    }
                    6 => {
                        let (t, i) = b.c.of(&[("ÁLTALÁNOS", 1u16), ("KÜLÖNÖS", 2), ("ZÁRÓ", 3)]);
                        (format!("{t} RÉSZ"), i.into(), StructuralElementType::Part { is_special: true })
                    }
                    7 => {
                        let (t, i) = b.c.of(ROMANS);
                        (format!("{t}. CÍM"), i.parse().unwrap(), StructuralElementType::Title)
                    }
                    _ => {
                        let (t, i) = b.c.of(ROMANS);
                        let w = b.c.of(&["FEJEZET", "Fejezet", "fejezet"]);
                        (format!("{t}. {w}"), i.parse().unwrap(), StructuralElementType::Chapter)
                    }
                };
                let bold = b.c.yes();
                let t: &[&str] = match b.c.pick(3) {
                    0 => &["CÍM SZÖVEGE"],
                    1 => &[],
                    _ => &["Cím szövege", "és a RÉSZ-", "letek"],
                };
                let just = b.just;
                b.lines.push(line(200.0, &header, bold, just));
                for l in t {
                    b.lines.push(line(180.0, l, bold, just));
                }
                children.push(
                    StructuralElement { identifier: id, title: join(t), element_type, last_change: None }.into(),
                );
            }
        }
    }
    Doc { act: doc::act(&join(preamble), children), lines: b.lines }
}

fn judge(c: &Ctx, choices: &[usize], d: &Doc) {
    c.case(
        || format!("{choices:?}: {}", show(&d.lines)),
        || {
            c.steps(d.lines.len() as u64);
            let r = parse_act_structure(&doc::raw(d.lines.clone()));
            c.validated();
            compare(r, &d.act)
        },
    );
}

pub fn compare(got: anyhow::Result<Act>, want: &Act) -> Result<(), String> {
    match got {
        Err(e) => Err(format!("refused: {e:#}")),
        Ok(a) => {
            // Empty lines are layout: within quoted text they may or may not be kept.
            let (a, want) = (without_gaps(a), without_gaps(want.clone()));
            check!(a == want && quoted_justification(&a) == quoted_justification(&want), "{}", first_difference(&a, &want));
            Ok(())
        }
    }
}

fn without_gaps(mut a: Act) -> Act {
    for p in a.articles_mut().flat_map(|x| &mut x.children) {
        if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(q), .. } = &mut p.body {
            for b in q {
                b.lines.retain(|l| !l.is_empty());
            }
        }
    }
    a
}

/// What comparing lines leaves out.
fn quoted_justification(a: &Act) -> Vec<bool> {
    let mut v = vec![];
    for p in a.articles().flat_map(|x| &x.children) {
        if let SAEBody::Children { children: ParagraphChildren::QuotedBlock(q), .. } = &p.body {
            v.extend(q.iter().flat_map(|b| b.lines.iter().map(|l| l.is_justified())));
        }
    }
    v
}

pub fn first_difference(a: &Act, b: &Act) -> String {
    if a.preamble != b.preamble {
        return format!("preamble: got {:?}, meant {:?}", a.preamble, b.preamble);
    }
    for (x, y) in a.children.iter().zip(&b.children) {
        if x != y {
            return format!("got {}, meant {}", brief(x), brief(y));
        }
    }
    if a.children.len() != b.children.len() {
        return format!("got {} children, meant {}: {}", a.children.len(), b.children.len(), brief(&a.children));
    }
    "the justification of quoted lines differs".into()
}

/// Long lists of every kind, every length.
fn long_lists() -> Vec<Unit<'static>> {
    let with: Vec<&str> = crate::ids::LETTERS.to_vec();
    let without: Vec<&str> = with.iter().copied().filter(|l| l.len() == 1 || l.chars().count() == 1).collect();
    let mut u: Vec<Unit> = vec![];
    for (name, kind) in [("numeric", 0), ("alphabetic", 1), ("digraphs", 2), ("paragraph", 3), ("article", 4), ("subpoint", 5), ("numeric-sub", 6)] {
        let letters = if kind == 2 { with.clone() } else { without.clone() };
        u.push(Unit {
            label: format!("long-{name}"),
            run: Box::new(move |c| {
                let max = match kind {
                    0 | 3 | 4 | 6 => 130,
                    _ => letters.len(),
                };
                for n in 2..=max {
                    let id = |i: usize| match kind {
                        1 | 2 | 5 => letters[i].to_string(),
                        _ => (i + 1).to_string(),
                    };
                    let mut lines = vec![];
                    let mut want: Vec<ActChild> = vec![];
                    let body = |t: String| SAEBody::<ParagraphChildren>::Text(t);
                    if kind == 4 {
                        for i in 0..n {
                            lines.push(line(60.0, &format!("{}. § szöveg {i}", i + 1), false, true));
                            want.push(
                                Article {
                                    identifier: ((i + 1) as u16).into(),
                                    title: None,
                                    children: vec![Paragraph {
                                        identifier: Default::default(),
                                        body: body(format!("szöveg {i}")),
                                        semantic_info: Default::default(),
                                        last_change: None,
                                    }],
                                    last_change: None,
                                }
                                .into(),
                            );
                        }
                    } else {
                        let head = match kind {
                            3 => "1. § ".to_string(),
                            5 | 6 => "1. § elsők:".to_string(),
                            _ => "1. § elemek:".to_string(),
                        };
                        let mut pars: Vec<Paragraph> = vec![];
                        macro_rules! sae {
                            ($t:ident, $id:expr, $b:expr) => {
                                $t { identifier: $id, body: $b, semantic_info: Default::default(), last_change: None }
                            };
                        }
                        if kind != 3 {
                            lines.push(line(60.0, &head, false, true));
                        }
                        match kind {
                            0 => {
                                let mut v: Vec<NumericPoint> = vec![];
                                for i in 0..n {
                                    lines.push(line(100.0, &format!("{}. szöveg {i}", id(i)), false, true));
                                    v.push(sae!(NumericPoint, id(i).parse().unwrap(), SAEBody::Text(format!("szöveg {i}"))));
                                }
                                pars.push(sae!(Paragraph, Default::default(), SAEBody::Children { intro: "elemek:".into(), children: v.into(), wrap_up: None }));
                            }
                            1 | 2 => {
                                let mut v: Vec<AlphabeticPoint> = vec![];
                                for i in 0..n {
                                    lines.push(line(100.0, &format!("{}) szöveg {i}", id(i)), false, true));
                                    v.push(sae!(AlphabeticPoint, id(i).parse().unwrap(), SAEBody::Text(format!("szöveg {i}"))));
                                }
                                pars.push(sae!(Paragraph, Default::default(), SAEBody::Children { intro: "elemek:".into(), children: v.into(), wrap_up: None }));
                            }
                            3 => {
                                for i in 0..n {
                                    let h = if i == 0 { "1. § " } else { "" };
                                    lines.push(line(if i == 0 { 60.0 } else { 80.0 }, &format!("{h}({}) szöveg {i}", id(i)), false, true));
                                    pars.push(sae!(Paragraph, id(i).parse().unwrap(), SAEBody::Text(format!("szöveg {i}"))));
                                }
                            }
                            5 => {
                                // Under every one of the first points, subpoints to the end of the alphabet
                                // that cannot be mistaken for a digraph point.
                                let mut v: Vec<AlphabeticPoint> = vec![];
                                for p in ["a", "b"] {
                                    lines.push(line(100.0, &format!("{p}) lista:"), false, true));
                                    let mut w: Vec<AlphabeticSubpoint> = vec![];
                                    for i in 0..n {
                                        lines.push(line(120.0, &format!("{p}{}) szöveg {i}", id(i)), false, true));
                                        w.push(sae!(AlphabeticSubpoint, format!("{p}{}", id(i)).parse().unwrap(), SAEBody::Text(format!("szöveg {i}"))));
                                    }
                                    v.push(sae!(AlphabeticPoint, p.parse().unwrap(), SAEBody::Children { intro: "lista:".into(), children: w.into(), wrap_up: None }));
                                }
                                pars.push(sae!(Paragraph, Default::default(), SAEBody::Children { intro: "elsők:".into(), children: v.into(), wrap_up: None }));
                            }
                            _ => {
                                let mut v: Vec<AlphabeticPoint> = vec![];
                                for p in ["a", "b", "c"] {
                                    lines.push(line(100.0, &format!("{p}) lista:"), false, true));
                                    let mut w: Vec<NumericSubpoint> = vec![];
                                    for i in 0..n {
                                        lines.push(line(120.0, &format!("{}. szöveg {i}", id(i)), false, true));
                                        w.push(sae!(NumericSubpoint, id(i).parse().unwrap(), SAEBody::Text(format!("szöveg {i}"))));
                                    }
                                    v.push(sae!(AlphabeticPoint, p.parse().unwrap(), SAEBody::Children { intro: "lista:".into(), children: w.into(), wrap_up: None }));
                                }
                                pars.push(sae!(Paragraph, Default::default(), SAEBody::Children { intro: "elsők:".into(), children: v.into(), wrap_up: None }));
                            }
                        }
                        want.push(Article { identifier: 1.into(), title: None, children: pars, last_change: None }.into());
                    }
                    c.case(
                        || format!("{n} elements of kind {kind}"),
                        || {
                            c.steps(lines.len() as u64);
                            c.validated();
                            compare(parse_act_structure(&doc::raw(lines.clone())), &doc::act("", want.clone()))
                        },
                    );
                }
            }),
        });
    }
    u
}

pub use crate::choose::sizes;

macro_rules! sae {
    ($t:ident, $id:expr, $b:expr) => {
        $t { identifier: $id, body: $b, semantic_info: Default::default(), last_change: None }
    };
}

pub fn bare_article(id: &str, body: SAEBody<ParagraphChildren>) -> ActChild {
    Article {
        identifier: id.parse().unwrap(),
        title: None,
        children: vec![sae!(Paragraph, Default::default(), body)],
        last_change: None,
    }
    .into()
}

/// One dimension of an act at a time grown large: (lines, preamble, the act's children) at size n.
type Grown = fn(usize) -> (Vec<IndentedLine>, String, Vec<ActChild>);
pub const GROWN: &[(&str, usize, Grown)] = &[
    ("articles", 3000, |n| {
        let ids = 1..=n;
        (
            ids.clone().map(|i| line(60.0, &format!("{i}. § szöveg {i}"), false, true)).collect(),
            String::new(),
            ids.map(|i| bare_article(&i.to_string(), SAEBody::Text(format!("szöveg {i}")))).collect(),
        )
    }),
    ("articles after an inserted one", 1100, |n| {
        let mut lines = vec![];
        let mut want = vec![];
        for i in 1..=n {
            for id in [format!("{i}"), format!("{i}/A")] {
                lines.push(line(60.0, &format!("{id}. § szöveg"), false, true));
                want.push(bare_article(&id, SAEBody::Text("szöveg".into())));
            }
        }
        (lines, String::new(), want)
    }),
    ("books of articles", 40, |n| {
        let mut lines = vec![];
        let mut want = vec![];
        for b in 1..=n {
            for i in 1..=12 {
                let id = format!("{b}:{i}");
                lines.push(line(60.0, &format!("{id}. § szöveg"), false, true));
                want.push(bare_article(&id, SAEBody::Text("szöveg".into())));
            }
        }
        (lines, String::new(), want)
    }),
    ("articles of a book", 1100, |n| {
        let mut lines = vec![];
        let mut want = vec![];
        for b in 1..=2 {
            for i in 1..=n {
                let id = format!("{b}:{i}");
                lines.push(line(60.0, &format!("{id}. § szöveg"), false, true));
                want.push(bare_article(&id, SAEBody::Text("szöveg".into())));
            }
        }
        (lines, String::new(), want)
    }),
    ("subtitles", 400, |n| {
        let mut lines = vec![];
        let mut want: Vec<ActChild> = vec![];
        for i in 1..=n {
            lines.push(EMPTY_LINE);
            lines.push(line(60.0, &format!("{i}. Az alcím"), true, false));
            want.push(Subtitle { identifier: Some((i as u16).into()), title: "Az alcím".into(), last_change: None }.into());
            lines.push(EMPTY_LINE);
            lines.push(line(60.0, &format!("{i}. § szöveg"), false, true));
            want.push(bare_article(&i.to_string(), SAEBody::Text("szöveg".into())));
        }
        (lines, String::new(), want)
    }),
    ("chapters", 300, |n| {
        let mut lines = vec![];
        let mut want: Vec<ActChild> = vec![];
        for i in 1..=n {
            lines.push(EMPTY_LINE);
            lines.push(line(60.0, &format!("{}. FEJEZET", crate::ids::roman_model(i as _).unwrap()), true, false));
            lines.push(line(60.0, "A CÍM", true, false));
            lines.push(EMPTY_LINE);
            lines.push(line(60.0, &format!("{i}. § szöveg"), false, true));
            want.push(
                StructuralElement {
                    identifier: (i as u16).into(),
                    title: "A CÍM".into(),
                    element_type: StructuralElementType::Chapter,
                    last_change: None,
                }
                .into(),
            );
            want.push(bare_article(&i.to_string(), SAEBody::Text("szöveg".into())));
        }
        (lines, String::new(), want)
    }),
    ("lines of a chapter title", 300, |n| {
        let mut lines = vec![line(60.0, "I. FEJEZET", true, false)];
        lines.extend((0..n).map(|i| line(60.0, &format!("A CÍM {i}"), true, false)));
        lines.push(line(60.0, "1. § szöveg", false, true));
        let title = (0..n).map(|i| format!("A CÍM {i}")).collect::<Vec<_>>().join(" ");
        // With nothing but bold uppercase lines, the first one is the title, and the rest belongs to it.
        (
            lines,
            String::new(),
            vec![
                StructuralElement { identifier: 1.into(), title, element_type: StructuralElementType::Chapter, last_change: None }.into(),
                bare_article("1", SAEBody::Text("szöveg".into())),
            ],
        )
    }),
    ("lines of a subtitle", 100, |n| {
        // Subtitles of more than 1500 bytes are refused on purpose.
        let mut lines = vec![line(60.0, "1. Alcím", true, false)];
        lines.extend((0..n).map(|i| line(60.0, &format!("alcím {i}"), true, false)));
        lines.push(line(60.0, "1. § szöveg", false, true));
        let title = std::iter::once("Alcím".to_string()).chain((0..n).map(|i| format!("alcím {i}"))).collect::<Vec<_>>().join(" ");
        (
            lines,
            String::new(),
            vec![Subtitle { identifier: Some(1.into()), title, last_change: None }.into(), bare_article("1", SAEBody::Text("szöveg".into()))],
        )
    }),
    ("lines of an article title", 300, |n| {
        let words: Vec<String> = (0..n).map(|i| format!("cím {i}")).collect();
        let mut lines = vec![];
        for (i, w) in words.iter().enumerate() {
            let end = if i + 1 == n { "]" } else { "" };
            lines.push(line(60.0, &if i == 0 { format!("1. § [{w}{end}") } else { format!("{w}{end}") }, false, true));
        }
        lines.push(line(80.0, "szöveg", false, true));
        let mut a = bare_article("1", SAEBody::Text("szöveg".into()));
        if let ActChild::Article(a) = &mut a {
            a.title = Some(words.join(" "));
        }
        (lines, String::new(), vec![a])
    }),
    ("lines of the preamble", 300, |n| {
        let words: Vec<String> = (0..n).map(|i| format!("preambulum {i}")).collect();
        let mut lines: Vec<_> = words.iter().map(|w| line(60.0, w, false, true)).collect();
        lines.push(line(60.0, "1. § szöveg", false, true));
        (lines, words.join(" "), vec![bare_article("1", SAEBody::Text("szöveg".into()))])
    }),
    ("lines of everything in a list", 300, |n| {
        // The introduction, the points with their subpoints, and the wrap-up have n lines each.
        let words: Vec<String> = (0..n).map(|i| format!("szó {i}")).collect();
        let all = words.join(" ");
        let mut lines = vec![];
        let mut put = |head: &str, indent: f64, cont: f64| {
            for (i, w) in words.iter().enumerate() {
                lines.push(if i == 0 { line(indent, &format!("{head}{w}"), false, true) } else { line(cont, w, false, true) });
            }
        };
        put("1. § (1) ", 60.0, 80.0);
        put("(2) ", 80.0, 80.0);
        put("a) ", 100.0, 115.0);
        put("b) ", 100.0, 115.0);
        put("ba) ", 120.0, 135.0);
        put("bb) ", 120.0, 135.0);
        put("", 120.0, 120.0);
        put("c) ", 100.0, 115.0);
        put("", 100.0, 100.0);
        put("(3) ", 80.0, 80.0);
        put("1. ", 100.0, 115.0);
        put("2. ", 100.0, 115.0);
        let text = || SAEBody::Text(all.clone());
        let sub = |id: &str| sae!(AlphabeticSubpoint, id.parse().unwrap(), SAEBody::Text(all.clone()));
        let points: Vec<AlphabeticPoint> = vec![
            sae!(AlphabeticPoint, "a".parse().unwrap(), SAEBody::Text(all.clone())),
            sae!(
                AlphabeticPoint,
                "b".parse().unwrap(),
                SAEBody::Children { intro: all.clone(), children: vec![sub("ba"), sub("bb")].into(), wrap_up: Some(all.clone()) }
            ),
            sae!(AlphabeticPoint, "c".parse().unwrap(), SAEBody::Text(all.clone())),
        ];
        let numbers: Vec<NumericPoint> = ["1", "2"].iter().map(|id| sae!(NumericPoint, id.parse().unwrap(), SAEBody::Text(all.clone()))).collect();
        let children = vec![
            sae!(Paragraph, "1".parse().unwrap(), text()),
            sae!(Paragraph, "2".parse().unwrap(), SAEBody::Children { intro: all.clone(), children: points.into(), wrap_up: Some(all.clone()) }),
            sae!(Paragraph, "3".parse().unwrap(), SAEBody::Children { intro: all.clone(), children: numbers.into(), wrap_up: None }),
        ];
        (lines, String::new(), vec![Article { identifier: 1.into(), title: None, children, last_change: None }.into()])
    }),
    ("characters of a line", 700, |n| {
        let long = "á".repeat(n);
        (
            vec![
                line(60.0, &format!("1. Az {long}"), true, false),
                line(60.0, &format!("1. § (1) {long}"), false, true),
                line(80.0, &format!("(2) {long}"), false, true),
                line(80.0, &long, false, true),
            ],
            String::new(),
            vec![
                Subtitle { identifier: Some(1.into()), title: format!("Az {long}"), last_change: None }.into(),
                Article {
                    identifier: 1.into(),
                    title: None,
                    children: vec![
                        sae!(Paragraph, "1".parse().unwrap(), SAEBody::Text(long.clone())),
                        sae!(Paragraph, "2".parse().unwrap(), SAEBody::Text(format!("{long} {long}"))),
                    ],
                    last_change: None,
                }
                .into(),
            ],
        )
    }),
    ("lines of a quoted block", 600, |n| {
        let mut lines = vec![line(60.0, "1. § A következő lép:", false, true)];
        let mut quoted = vec![];
        for i in 0..n {
            let text = format!("{}. § idézet {i}", i + 2);
            let (open, close) = (if i == 0 { "„" } else { "" }, if i + 1 == n { "”" } else { "" });
            lines.push(line(60.0, &format!("{open}{text}{close}"), false, true));
            quoted.push(line(if i == 0 { 65.0 } else { 60.0 }, &text, false, i + 1 != n));
        }
        lines.push(line(60.0, "2. § szöveg", false, true));
        let block = QuotedBlock { intro: None, lines: quoted, wrap_up: None };
        let body = SAEBody::Children { intro: "A következő lép:".into(), children: vec![block].into(), wrap_up: None };
        (lines, String::new(), vec![bare_article("1", body), bare_article("2", SAEBody::Text("szöveg".into()))])
    }),
    ("quoted blocks", 300, |n| {
        let mut lines = vec![line(60.0, "1. § A következők lépnek:", false, true)];
        let mut blocks = vec![];
        for i in 0..n {
            lines.push(line(60.0, &format!("„{}. § idézet”", i + 2), false, true));
            blocks.push(QuotedBlock { intro: None, lines: vec![line(65.0, &format!("{}. § idézet", i + 2), false, false)], wrap_up: None });
        }
        lines.push(line(60.0, "2. § szöveg", false, true));
        let body = SAEBody::Children { intro: "A következők lépnek:".into(), children: blocks.into(), wrap_up: None };
        (lines, String::new(), vec![bare_article("1", body), bare_article("2", SAEBody::Text("szöveg".into()))])
    }),
    ("quotes in quotes", 300, |n| {
        // Each line opens one more quote, until all are closed again one by one.
        let mut lines = vec![line(60.0, "1. § A következő lép:", false, true)];
        let mut quoted = vec![];
        for i in 0..n {
            lines.push(line(60.0, &format!("„{}. § idézet", i + 2), false, true));
            quoted.push(if i == 0 { line(65.0, "2. § idézet", false, true) } else { lines.last().unwrap().clone() });
        }
        for i in 0..n {
            let text = format!("{}. § zárás", i + 2);
            lines.push(line(60.0, &format!("{text}”"), false, true));
            quoted.push(if i + 1 == n { line(60.0, &text, false, false) } else { lines.last().unwrap().clone() });
        }
        lines.push(line(60.0, "2. § szöveg", false, true));
        let block = QuotedBlock { intro: None, lines: quoted, wrap_up: None };
        let body = SAEBody::Children { intro: "A következő lép:".into(), children: vec![block].into(), wrap_up: None };
        (lines, String::new(), vec![bare_article("1", body), bare_article("2", SAEBody::Text("szöveg".into()))])
    }),
    ("lines of brackets around a quoted block", 200, |n| {
        let words: Vec<String> = (0..n).map(|i| format!("szó {i}")).collect();
        let all = words.join(" ");
        let mut lines = vec![line(60.0, "1. § A következő lép:", false, true)];
        let bracket = |lines: &mut Vec<IndentedLine>| {
            for (i, w) in words.iter().enumerate() {
                lines.push(line(60.0, &format!("{}{w}{}", if i == 0 { "(" } else { "" }, if i + 1 == n { ")" } else { "" }), false, true));
            }
        };
        bracket(&mut lines);
        lines.push(line(60.0, "„b) idézet”", false, true));
        bracket(&mut lines);
        let block = QuotedBlock { intro: Some(all.clone()), lines: vec![line(65.0, "b) idézet", false, false)], wrap_up: Some(all) };
        let body = SAEBody::Children { intro: "A következő lép:".into(), children: vec![block].into(), wrap_up: None };
        (lines, String::new(), vec![bare_article("1", body)])
    }),
];

/// Every sequence of up to `n` of the pieces, the empty one first.
fn sequences<T: Clone>(pieces: &[T], n: usize) -> Vec<Vec<T>> {
    let mut all: Vec<Vec<T>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|v| pieces.iter().map(move |p| [v.clone(), vec![p.clone()]].concat())).collect();
        all.extend(last.clone());
    }
    all
}

/// Details of the layout, each on its own and in every combination.
fn details(tier: Tier) -> Vec<Unit<'static>> {
    let deep = tier != Tier::Quick;
    let mut u: Vec<Unit> = vec![];
    // Titles: only a line that ends with a bracket ends the title.
    u.push(Unit {
        label: "titles".into(),
        run: Box::new(move |c| {
            let pieces = ["cím", "a] cím", "[a", "(2) bekezdés", "a-", "2. § cím", "b) pont", "[a] b"];
            for t in sequences(&pieces, if deep { 5 } else { 4 }).iter().filter(|t| !t.is_empty()) {
                for par in ["", "1"] {
                    let mut lines = vec![];
                    for (i, l) in t.iter().enumerate() {
                        let (head, end) = (if i == 0 { "1. § [" } else { "" }, if i + 1 == t.len() { "]" } else { "" });
                        lines.push(line(if i == 0 { 60.0 } else { 90.0 }, &format!("{head}{l}{end}"), false, true));
                    }
                    lines.push(line(80.0, if par.is_empty() { "szöveg [a]" } else { "(1) szöveg [a]" }, false, true));
                    let mut children = vec![sae!(Paragraph, par.parse().unwrap(), SAEBody::Text("szöveg [a]".into()))];
                    if !par.is_empty() {
                        lines.push(line(80.0, "(2) [b]", false, true));
                        children.push(sae!(Paragraph, "2".parse().unwrap(), SAEBody::Text("[b]".into())));
                    }
                    let want = Article { identifier: 1.into(), title: Some(join(t)), children, last_change: None };
                    c.case(
                        || show(&lines),
                        || {
                            c.steps(lines.len() as u64);
                            c.validated();
                            compare(parse_act_structure(&doc::raw(lines.clone())), &doc::act("", vec![want.clone().into()]))
                        },
                    );
                }
            }
        }),
    });
    // Headers of articles may move to the left; what starts more to the right is text.
    u.push(Unit {
        label: "shifts".into(),
        run: Box::new(move |c| {
            for shifts in sequences(&[0.0, 0.9, -0.9, -5.0, -20.0], if deep { 5 } else { 4 }) {
                for off in [1.1, 5.0, 10.0, 20.0, 40.0] {
                    for sign in ["", " "] {
                        let mut lines = vec![];
                        let mut want = vec![];
                        let mut at = 100.0;
                        for (i, s) in std::iter::once(&0.0).chain(&shifts).enumerate() {
                            at += s;
                            let (n, next) = (i + 1, i + 2);
                            lines.push(line(at, &format!("{n}.{sign}§ szöveg és"), false, true));
                            lines.push(line(at + off, &format!("{next}.{sign}§ szerint."), false, true));
                            want.push(bare_article(&n.to_string(), SAEBody::Text(format!("szöveg és {next}.{sign}§ szerint."))));
                        }
                        c.case(
                            || show(&lines),
                            || {
                                c.steps(lines.len() as u64);
                                c.validated();
                                compare(parse_act_structure(&doc::raw(lines.clone())), &doc::act("", want.clone()))
                            },
                        );
                    }
                }
            }
        }),
    });
    // What is in brackets before and after a quoted block ends where a line ends with a bracket
    // that is not quoted.
    u.push(Unit {
        label: "brackets".into(),
        run: Box::new(move |c| {
            let pieces = ["a", "b)", "c]", "„d", "e”", "„f)”", "(g", "“h", "i”)"];
            for t in sequences(&pieces, if deep { 5 } else { 4 }).iter().filter(|t| !t.is_empty()) {
                // Quotations are balanced, and nothing closes it before its end.
                let mut level = 0i32;
                let mut fine = true;
                for (i, l) in t.iter().enumerate() {
                    level += l.matches(['„', '“']).count() as i32 - l.matches('”').count() as i32;
                    fine &= level >= 0 && (i + 1 == t.len() || level > 0 || !l.ends_with([')', ']']));
                }
                if level != 0 || !fine {
                    continue;
                }
                for (open, close) in [('(', ')'), ('[', ']')] {
                    for before in [true, false] {
                        let mut lines = vec![line(60.0, "1. § A következő lép:", false, true)];
                        let put = |lines: &mut Vec<IndentedLine>| {
                            for (i, l) in t.iter().enumerate() {
                                let o = if i == 0 { open.to_string() } else { String::new() };
                                let e = if i + 1 == t.len() { close.to_string() } else { String::new() };
                                lines.push(line(80.0, &format!("{o}{l}{e}"), false, true));
                            }
                        };
                        if before {
                            put(&mut lines);
                        }
                        lines.push(line(80.0, "„b) idézet”", false, true));
                        if !before {
                            put(&mut lines);
                        }
                        lines.push(line(60.0, "2. § szöveg", false, true));
                        let text = Some(join(t));
                        let (intro, wrap_up) = if before { (text, None) } else { (None, text) };
                        let block = QuotedBlock { intro, lines: vec![line(85.0, "b) idézet", false, false)], wrap_up };
                        let body = SAEBody::Children { intro: "A következő lép:".into(), children: vec![block].into(), wrap_up: None };
                        let want = vec![bare_article("1", body), bare_article("2", SAEBody::Text("szöveg".into()))];
                        c.case(
                            || show(&lines),
                            || {
                                c.steps(lines.len() as u64);
                                c.validated();
                                compare(parse_act_structure(&doc::raw(lines.clone())), &doc::act("", want.clone()))
                            },
                        );
                    }
                }
            }
        }),
    });
    // What the text of an item begins with does not matter, unless header and text together
    // are how such an item is referred to.
    u.push(Unit {
        label: "beginnings".into(),
        run: Box::new(move |c| {
            let words = [
                "bekezdés", "pont", "alpont", "paragrafus", "§", "cikk", "rész", "fejezet", "cím", "könyv", "szakasz", "melléklet", "mondat", "szöveg", "a)", "1.", "(1)", "aa)",
                "és", "vagy", "[a", "(a", "-", "a pont", "Pont", "Alpont", "Bekezdés", "PONT",
            ];
            let ends = ["", " szöveg", ", szöveg", "ok", "ja szerint", "\u{2013}szöveg"];
            for level in 0..6 {
                for word in words {
                    let own: &[&str] = match level {
                        0 => &[],
                        1 => &["bekezdés"],
                        _ => &["pont", "alpont"],
                    };
                    if own.contains(&word) {
                        continue;
                    }
                    for end in ends {
                        let text = format!("{word}{end}");
                        // A text that reads as the header of an item is one, if it is the first in its
                        // article.
                        if level == 0 && (word == "(1)" || word == "[a") {
                            continue;
                        }
                        // Which of them have this text.
                        for which in 1..8u32 {
                            let texts: Vec<&str> = (0..3).map(|i| if which >> i & 1 == 1 { text.as_str() } else { "más" }).collect();
                            let mut lines = vec![];
                            let mut want: Vec<ActChild> = vec![];
                            macro_rules! text { ($i:expr) => { SAEBody::Text(texts[$i].into()) }; }
                            macro_rules! items {
                                ($t:ident, $ids:expr, $head:expr, $indent:expr) => {{
                                    let mut v: Vec<$t> = vec![];
                                    for (i, id) in $ids.iter().enumerate() {
                                        lines.push(line($indent, &format!("{} {}", $head(id), texts[i]), false, true));
                                        v.push(sae!($t, id.parse().unwrap(), text!(i)));
                                    }
                                    v
                                }};
                            }
                            let elements = |children| SAEBody::Children { intro: "elemek:".into(), children, wrap_up: None };
                            match level {
                                0 => {
                                    for i in 0..3 {
                                        lines.push(line(60.0, &format!("{}. § {}", i + 1, texts[i]), false, true));
                                        want.push(bare_article(&(i + 1).to_string(), text!(i)));
                                    }
                                }
                                1 => {
                                    let mut children: Vec<Paragraph> = vec![];
                                    for i in 0..3 {
                                        let (indent, head) = if i == 0 { (60.0, "1. § ") } else { (80.0, "") };
                                        lines.push(line(indent, &format!("{head}({}) {}", i + 1, texts[i]), false, true));
                                        children.push(sae!(Paragraph, (i + 1).to_string().parse().unwrap(), text!(i)));
                                    }
                                    want.push(Article { identifier: 1.into(), title: None, children, last_change: None }.into());
                                }
                                2 | 3 => {
                                    lines.push(line(60.0, "1. § elemek:", false, true));
                                    let children = if level == 2 {
                                        items!(NumericPoint, ["1", "2", "3"], |id| format!("{id}."), 100.0).into()
                                    } else {
                                        items!(AlphabeticPoint, ["a", "b", "c"], |id| format!("{id})"), 100.0).into()
                                    };
                                    want.push(bare_article("1", elements(children)));
                                }
                                _ => {
                                    lines.push(line(60.0, "1. § elemek:", false, true));
                                    lines.push(line(100.0, "a) elemek:", false, true));
                                    let children = if level == 4 {
                                        items!(NumericSubpoint, ["1", "2", "3"], |id| format!("{id}."), 120.0).into()
                                    } else {
                                        items!(AlphabeticSubpoint, ["aa", "ab", "ac"], |id| format!("{id})"), 120.0).into()
                                    };
                                    lines.push(line(100.0, "b) más", false, true));
                                    let points: Vec<AlphabeticPoint> = vec![
                                        sae!(AlphabeticPoint, "a".parse().unwrap(), SAEBody::Children { intro: "elemek:".into(), children, wrap_up: None }),
                                        sae!(AlphabeticPoint, "b".parse().unwrap(), SAEBody::Text("más".into())),
                                    ];
                                    want.push(bare_article("1", elements(points.into())));
                                }
                            }
                            c.case(
                                || show(&lines),
                                || {
                                    c.steps(lines.len() as u64);
                                    c.validated();
                                    compare(parse_act_structure(&doc::raw(lines.clone())), &doc::act("", want.clone()))
                                },
                            );
                        }
                    }
                }
            }
        }),
    });
    // Every suffix, of everything that can have one.
    u.push(Unit {
        label: "suffixes".into(),
        run: Box::new(move |c| {
            let suffixes: Vec<Option<char>> = std::iter::once(None).chain(('a'..='z').map(Some)).collect();
            for without_q in [false, true] {
                for n in 1..=27 {
                    for slash in ["", "/"] {
                        let mut lines = vec![];
                        let mut want: Vec<ActChild> = vec![];
                        let ids: Vec<(String, String)> = [1, 2]
                            .iter()
                            .flat_map(|k| suffixes[..n].iter().filter(|s| !without_q || **s != Some('q')).map(move |s| (k, s)))
                            .map(|(k, s)| (format!("{k}{}", s.map_or(String::new(), |s| format!("{slash}{s}"))), format!("{k}{}", s.map_or(String::new(), |s| s.to_string()))))
                            .collect();
                        for (_, id) in &ids {
                            let id = id.parse::<hun_law::identifier::NumericIdentifier>().unwrap();
                            let shown = id.with_slash().to_string();
                            lines.push(line(60.0, &format!("{shown}. § szöveg"), false, true));
                            want.push(bare_article(&shown, SAEBody::Text("szöveg".into())));
                        }
                        // Paragraphs are written without a slash.
                        let mut pars: Vec<Paragraph> = vec![];
                        for (i, (_, id)) in ids.iter().enumerate() {
                            let (indent, head) = if i == 0 { (60.0, "3. § ") } else { (80.0, "") };
                            lines.push(line(indent, &format!("{head}({id}) szöveg"), false, true));
                            pars.push(sae!(Paragraph, id.parse().unwrap(), SAEBody::Text("szöveg".into())));
                        }
                        if pars.len() == 1 {
                            pars[0].identifier = Default::default();
                            pars[0].body = SAEBody::Text("(1) szöveg".into());
                        }
                        want.push(Article { identifier: 3.into(), title: None, children: pars, last_change: None }.into());
                        lines.push(line(60.0, "4. § elemek:", false, true));
                        let mut points: Vec<NumericPoint> = vec![];
                        for (shown, id) in &ids {
                            lines.push(line(100.0, &format!("{shown}. szöveg"), false, true));
                            points.push(sae!(NumericPoint, id.parse().unwrap(), SAEBody::Text("szöveg".into())));
                        }
                        want.push(bare_article("4", SAEBody::Children { intro: "elemek:".into(), children: points.into(), wrap_up: None }));
                        lines.push(line(60.0, "5. § elemek:", false, true));
                        let mut alpha: Vec<AlphabeticPoint> = vec![];
                        for a in ["a", "b"] {
                            lines.push(line(100.0, &format!("{a}) alelemek:"), false, true));
                            let mut subs: Vec<NumericSubpoint> = vec![];
                            for (shown, id) in &ids {
                                lines.push(line(120.0, &format!("{shown}. szöveg"), false, true));
                                subs.push(sae!(NumericSubpoint, id.parse().unwrap(), SAEBody::Text("szöveg".into())));
                            }
                            alpha.push(sae!(AlphabeticPoint, a.parse().unwrap(), SAEBody::Children { intro: "alelemek:".into(), children: subs.into(), wrap_up: None }));
                        }
                        want.push(bare_article("5", SAEBody::Children { intro: "elemek:".into(), children: alpha.into(), wrap_up: None }));
                        c.case(
                            || format!("{} numbers, slash {slash:?}, without q: {without_q}", ids.len()),
                            || {
                                c.steps(lines.len() as u64);
                                c.validated();
                                compare(parse_act_structure(&doc::raw(lines.clone())), &doc::act("", want.clone()))
                            },
                        );
                    }
                }
            }
        }),
    });
    u
}

fn grown() -> Vec<Unit<'static>> {
    GROWN
        .iter()
        .map(|(name, max, f)| Unit {
            label: format!("grown-{name}"),
            run: Box::new(move |c| {
                for n in sizes(*max) {
                    c.case(
                        || format!("{name}: {n}"),
                        || {
                            let (lines, preamble, want) = f(n);
                            c.steps(lines.len() as u64);
                            c.validated();
                            compare(parse_act_structure(&doc::raw(lines)), &doc::act(&preamble, want))
                        },
                    );
                }
            }),
        })
        .collect()
}

pub fn c08(tier: Tier) -> Vec<Unit<'static>> {
    let mut u = long_lists();
    u.extend(grown());
    u.extend(details(tier));
    u.extend(choose::units("", if tier == Tier::Quick { 4 } else { 5 }, generate, judge));
    u
}
