//! C23: acts survive JSON and YAML.  C24: the text output shows everything.  C25: walking.
use crate::{
    check,
    choose::{self, sizes, Chooser},
    core::{Ctx, Tier, Unit},
    doc::{self, brief, chars_of},
    values::{self, G},
};
use hun_law::{
    identifier::{ActIdentifier, ArticleIdentifier, IdentifierCommon},
    output::{CliOutput, OutputFormat},
    parser::pdf::PageOfLines,
    reference::Reference,
    structure::*,
    util::{
        indentedline::{IndentedLine, EMPTY_LINE},
        singleton_yaml,
        walker::{SAEVisitor, SAEVisitorMut},
    },
};
use std::io::Write;

// ---------------------------------------------------------------- C23

const ODD: &[&str] = &[
    "szöveg", "", " ", "null", "~", "true", "no", "y", "1", "1.0", "0x1f", "0o7", "1e3", ".nan", ".inf", "-", "- a", "? a", "a: b", "a:", ": a", "a #b",
    "#b", "'q'", "\"q\"", "it's", "a\nb", "\na", "a\n", "\n", "a\n\n", " a", "a ", "a  b", "\ta", "a\tb", "a\r\nb", "\r", "\u{85}", "a\u{2028}b",
    "\u{2029}", "\u{feff}", "\u{7f}", "\u{0}", "\u{1b}[0m", "\u{a0}", "\u{1F600}", "\u{e000}", "\u{fffd}", "\u{10ffff}", "|", ">", "%a", "@a", "`a", "!!str a", "!a", "&a",
    "*a", "{a", "[a", "}", "]", ",", "a, b", "<<", "=", "2012-01-01", "2012-01-01T00:00:00Z", "\\", "\\n", "---", "...", "„a”", "őűŐŰ", "10:30", "+1", "1_000",
    "a-\nb", "AlphabeticPoint", "intro",
    "nagyon hosszú szöveg, amelynek sorait a YAML-író esetleg nyolcvan karakternél eltörné, mert hosszabb annál; és még: idézőjel ' is van benne, # jel is",
];

fn same_line(a: &IndentedLine, b: &IndentedLine) -> bool {
    a == b && a.len() == b.len() && a.is_justified() == b.is_justified() && a.is_bold() == b.is_bold() && chars_of(a) == chars_of(b)
}

fn quoted_in_paragraph<'a>(p: &'a Paragraph, out: &mut Vec<&'a IndentedLine>) {
    if let SAEBody::Children { children, .. } = &p.body {
        match children {
            ParagraphChildren::QuotedBlock(b) => out.extend(b.iter().flat_map(|b| &b.lines)),
            ParagraphChildren::BlockAmendment(b) => {
                if let BlockAmendmentChildren::Paragraph(p) = &b.children {
                    p.iter().for_each(|p| quoted_in_paragraph(p, out));
                }
            }
            ParagraphChildren::StructuralBlockAmendment(b) => quoted_in(&b.children, out),
            _ => {}
        }
    }
}
fn quoted_in<'a>(c: &'a [ActChild], out: &mut Vec<&'a IndentedLine>) {
    for c in c {
        if let ActChild::Article(a) = c {
            a.children.iter().for_each(|p| quoted_in_paragraph(p, out));
        }
    }
}

fn same_act(form: &str, text: &str, got: Result<Act, String>, want: &Act) -> Result<(), String> {
    let got = got.map_err(|e| format!("the {form} form is refused: {e}; it is {text}"))?;
    check!(got == *want, "the {form} form is read back as another act: {}; it is {text}", brief(&got));
    let (mut a, mut b) = (vec![], vec![]);
    quoted_in(&got.children, &mut a);
    quoted_in(&want.children, &mut b);
    for (i, (a, b)) in a.iter().zip(&b).enumerate() {
        check!(same_line(a, b), "quoted line {i} came back from {form} as {:?} instead of {:?}", chars_of(a), chars_of(b));
    }
    Ok(())
}

fn forms(c: &Ctx, act: &Act) -> Result<(), String> {
    c.steps(4);
    c.validated();
    let s = |e: &dyn std::fmt::Display| e.to_string();
    let json = serde_json::to_string(act).map_err(|e| s(&e))?;
    same_act("JSON", &json, serde_json::from_str(&json).map_err(|e| s(&e)), act)?;
    let yaml = singleton_yaml::to_string(act).map_err(|e| s(&e))?;
    same_act("YAML", &yaml, singleton_yaml::from_str(&yaml).map_err(|e| s(&e)), act)?;
    for (f, want) in [(OutputFormat::Json, &json), (OutputFormat::Yaml, &yaml)] {
        let mut out = Vec::new();
        act.clone().cli_output(80, f, &mut out).map_err(|e| s(&e))?;
        if out != want.as_bytes() {
            let text = String::from_utf8(out).map_err(|e| s(&e))?;
            let got = match f {
                OutputFormat::Json => serde_json::from_str(&text).map_err(|e| s(&e)),
                _ => singleton_yaml::from_str(&text).map_err(|e| s(&e)),
            };
            same_act(if f == OutputFormat::Json { "JSON output" } else { "YAML output" }, &text, got, act)?;
        }
    }
    Ok(())
}

fn strings(alphabet: &[char], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut i = 0;
    while i < out.len() {
        if out[i].chars().count() < max {
            for c in alphabet {
                let s = format!("{}{c}", out[i]);
                out.push(s);
            }
        }
        i += 1;
    }
    out
}

/// An act in which the text stands in every position a text can have.
fn everywhere(t: &str) -> Act {
    let body = |s: &str| SAEBody::Text(s.to_string());
    let par = Paragraph {
        identifier: Default::default(),
        body: SAEBody::Children {
            intro: t.into(),
            children: ParagraphChildren::AlphabeticPoint(vec![AlphabeticPoint {
                identifier: "a".parse().unwrap(),
                body: body_text(t),
                semantic_info: Default::default(),
                last_change: Some(LastChange { date: Default::default(), cause: ChangeCause::Other(t.into()) }),
            }]),
            wrap_up: Some(t.into()),
        },
        semantic_info: hun_law::semantic_info::SemanticInfo {
            new_abbreviations: [(t.to_string(), ActIdentifier { year: 2000, number: 1 })].into(),
            ..Default::default()
        },
        last_change: None,
    };
    let quote = Paragraph {
        identifier: Default::default(),
        body: SAEBody::Children {
            intro: String::new(),
            children: ParagraphChildren::QuotedBlock(vec![QuotedBlock {
                intro: Some(t.into()),
                lines: vec![doc::line(20.0, t, false, true)],
                wrap_up: Some(t.into()),
            }]),
            wrap_up: None,
        },
        semantic_info: Default::default(),
        last_change: None,
    };
    let plain = Paragraph { identifier: Default::default(), body: body(t), semantic_info: Default::default(), last_change: None };
    let mut act = doc::act(
        t,
        vec![
            Subtitle { identifier: None, title: t.into(), last_change: None }.into(),
            Article { identifier: 1.into(), title: Some(t.into()), children: vec![par, plain, quote], last_change: None }.into(),
        ],
    );
    act.subject = t.into();
    act.contained_abbreviations.insert(t.into(), act.identifier);
    act
}
fn body_text<C: ChildrenCommon>(t: &str) -> SAEBody<C> {
    SAEBody::Text(t.into())
}

/// Acts grown along one dimension
fn grown(max: usize, judge: impl Fn(&Ctx, &Act) -> Result<(), String> + Copy + Send + Sync + 'static) -> Vec<Unit<'static>> {
    let mut u: Vec<Unit> = vec![];
    for (kind, most) in values::GROWN {
        for chunk in sizes((*most).min(max)).chunks(24) {
            let chunk = chunk.to_vec();
            u.push(Unit {
                label: format!("grown-{kind}-{}", chunk[0]),
                run: Box::new(move |c| {
                    for n in &chunk {
                        let act = values::grown(kind, *n);
                        c.case(|| format!("{kind}: {n}"), || judge(c, &act));
                    }
                }),
            });
        }
    }
    u
}

pub fn c23(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    let gen = |texts: &'static [&'static str]| {
        move |c: &mut Chooser| G { c, texts, notes: true, depth: 2 }.act()
    };
    let judge = |c: &Ctx, choices: &[usize], act: &Act| {
        c.case(|| format!("choices {choices:?}: {}", brief(act)), || forms(c, act));
    };
    let mut u = choose::units("odd", if t { 3 } else { 2 }, gen(ODD), judge);
    u.extend(choose::units("plain", if t { 4 } else { 3 }, gen(&ODD[..3]), judge));
    let alphabet = [
        'a', ' ', '\n', '\t', '-', ':', '#', '\'', '"', '\\', '{', '[', ',', '&', '*', '!', '|', '>', '%', '@', '`', '?', '0', '1', '.', '~', '=', '<', 'é', '\r', '\u{85}',
        '\u{feff}', '\u{1F600}',
    ];
    for a in alphabet {
        u.push(Unit {
            label: format!("text-{a:?}"),
            run: Box::new(move |c| {
                for rest in strings(&alphabet, if t { 3 } else { 2 }) {
                    let s = format!("{a}{rest}");
                    c.case(|| format!("an act of the text {s:?}"), || forms(c, &everywhere(&s)));
                }
            }),
        });
    }
    u.extend(grown(if t { 2000 } else { 600 }, |c, a| forms(c, a)));
    // Every character, once alone and once inside.
    for block in 0..0x110 {
        u.push(Unit {
            label: format!("characters-{block:x}"),
            run: Box::new(move |c| {
                // Beyond the second plane everything is alike.
                if block > 0x20 && !matches!(block, 0xe0 | 0xff | 0x10f) && !c.thorough() {
                    return;
                }
                for ch in (block << 12..(block + 1) << 12).filter_map(char::from_u32) {
                    for s in [format!("{ch}"), format!("a{ch}b")] {
                        c.case(
                            || format!("the text {s:?} (U+{:x})", ch as u32),
                            || {
                                c.steps(2);
                                c.validated();
                                let sub = Subtitle { identifier: None, title: s.clone(), last_change: None };
                                let j: Subtitle = serde_json::from_str(&serde_json::to_string(&sub).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                                check!(j == sub, "came back from JSON as {:?}", j.title);
                                let y = singleton_yaml::to_string(&sub).map_err(|e| e.to_string())?;
                                let r: Subtitle = singleton_yaml::from_str(&y).map_err(|e| format!("{e} in {y:?}"))?;
                                check!(r == sub, "came back from YAML as {:?}: {y:?}", r.title);
                                Ok(())
                            },
                        );
                    }
                }
            }),
        });
    }
    u
}

// ---------------------------------------------------------------- C24

const PRINTED: &[&str] = &[
    "alma, körte és barack, meg a többi gyümölcs, amely a fán terem, ha van fa, ahol teremhet.",
    "",
    "szó",
    "két szó",
    "alma-körte nem-zeti e-mail (zárójel) „idézet” 1-5. § - gondolatjel",
    "nagyonhosszúszóamelynemféráltalábanelegysorbansemhaasorrövid és rövid",
];

/// The model: plain text with unlimited width, and which of its characters refer to something.
#[derive(Default)]
struct Page(String, Vec<bool>);

impl Page {
    fn put(&mut self, level: usize, s: &str) {
        if self.0.is_empty() || self.0.ends_with('\n') {
            self.0 += &" ".repeat(level * 5);
        }
        self.0 += s;
        self.1.extend(s.chars().filter(|c| !c.is_whitespace()).map(|_| false));
    }
    /// A text with references in it
    fn text(&mut self, level: usize, s: &str, refs: &[hun_law::semantic_info::OutgoingReference]) {
        let from = self.1.len();
        self.line(level, s);
        let ink = s.char_indices().filter(|c| !c.1.is_whitespace());
        for (mark, (at, _)) in self.1[from..].iter_mut().zip(ink) {
            *mark = refs.iter().any(|r| r.start <= at && at < r.end);
        }
    }
    fn line(&mut self, level: usize, s: &str) {
        self.put(level, s);
        self.0.push('\n');
    }
    fn element<I: IdentifierCommon, C: ChildrenCommon>(
        &mut self,
        level: usize,
        head: String,
        e: &SubArticleElement<I, C>,
        children: impl FnOnce(&mut Self, usize, &C) -> Result<(), ()>,
    ) -> Result<(), ()> {
        self.put(level, &format!("{head:<5}"));
        match &e.body {
            SAEBody::Text(t) => self.text(level + 1, t, &e.semantic_info.outgoing_references),
            SAEBody::Children { intro, children: ch, wrap_up } => {
                self.text(level + 1, intro, &e.semantic_info.outgoing_references);
                children(self, level + 1, ch)?;
                if let Some(w) = wrap_up {
                    self.line(level + 1, w);
                }
            }
        }
        Ok(())
    }
    fn alpha_sub(&mut self, level: usize, v: &[AlphabeticSubpoint]) -> Result<(), ()> {
        v.iter().try_for_each(|e| self.element(level, format!("{})", e.identifier), e, |_, _, _| Ok(())))
    }
    fn num_sub(&mut self, level: usize, v: &[NumericSubpoint]) -> Result<(), ()> {
        v.iter().try_for_each(|e| self.element(level, format!("{}.", e.identifier), e, |_, _, _| Ok(())))
    }
    fn alpha(&mut self, level: usize, v: &[AlphabeticPoint]) -> Result<(), ()> {
        v.iter().try_for_each(|e| {
            self.element(level, format!("{})", e.identifier), e, |p, l, c| match c {
                AlphabeticPointChildren::AlphabeticSubpoint(v) => p.alpha_sub(l, v),
                AlphabeticPointChildren::NumericSubpoint(v) => p.num_sub(l, v),
            })
        })
    }
    fn num(&mut self, level: usize, v: &[NumericPoint]) -> Result<(), ()> {
        v.iter().try_for_each(|e| {
            self.element(level, format!("{}.", e.identifier), e, |p, l, c| match c {
                NumericPointChildren::AlphabeticSubpoint(v) => p.alpha_sub(l, v),
            })
        })
    }
    fn paragraphs(&mut self, level: usize, v: &[Paragraph]) -> Result<(), ()> {
        v.iter().try_for_each(|e| {
            let head = if e.identifier.is_empty() { String::new() } else { format!("({})", e.identifier) };
            self.element(level, head, e, |p, l, c| match c {
                ParagraphChildren::AlphabeticPoint(v) => p.alpha(l, v),
                ParagraphChildren::NumericPoint(v) => p.num(l, v),
                ParagraphChildren::QuotedBlock(v) => {
                    for b in v {
                        if let Some(i) = &b.intro {
                            p.line(l, i);
                        }
                        p.line(l, "„");
                        let min = b.lines.iter().map(|l| l.indent()).filter(|i| *i > 0.0).fold(1000.0, f64::min);
                        for q in &b.lines {
                            let shift = ((q.indent() - min) / 5.0).max(0.0) as usize + 5;
                            p.line(l, &format!("{}{}", " ".repeat(shift), q.content()));
                        }
                        p.line(l, "”");
                        if let Some(w) = &b.wrap_up {
                            p.line(l, w);
                        }
                    }
                    Ok(())
                }
                ParagraphChildren::BlockAmendment(b) => p.amendment(l, &b.intro, &b.wrap_up, |p| match &b.children {
                    BlockAmendmentChildren::Paragraph(v) => p.paragraphs(l + 1, v),
                    BlockAmendmentChildren::AlphabeticPoint(v) => p.alpha(l + 1, v),
                    BlockAmendmentChildren::NumericPoint(v) => p.num(l + 1, v),
                    BlockAmendmentChildren::AlphabeticSubpoint(v) => p.alpha_sub(l + 1, v),
                    BlockAmendmentChildren::NumericSubpoint(v) => p.num_sub(l + 1, v),
                }),
                ParagraphChildren::StructuralBlockAmendment(b) => {
                    p.amendment(l, &b.intro, &b.wrap_up, |p| b.children.iter().try_for_each(|c| p.child(l + 1, c)))
                }
            })
        })
    }
    fn amendment(&mut self, l: usize, intro: &Option<String>, wrap_up: &Option<String>, inner: impl FnOnce(&mut Self) -> Result<(), ()>) -> Result<(), ()> {
        if let Some(i) = intro {
            self.line(l, &format!("({i})"));
        }
        self.line(l, "„");
        inner(self)?;
        self.line(l, "”");
        if let Some(w) = wrap_up {
            self.line(l, &format!("({w})"));
        }
        Ok(())
    }
    fn child(&mut self, level: usize, c: &ActChild) -> Result<(), ()> {
        match c {
            ActChild::StructuralElement(e) => {
                self.line(level, &e.header_string().map_err(|_| ())?);
                if !e.title.is_empty() {
                    self.line(level, &e.title);
                }
            }
            ActChild::Subtitle(s) => match s.identifier {
                Some(i) => self.line(level, &format!("{}. {}", i.with_slash(), s.title)),
                None => self.line(level, &s.title),
            },
            ActChild::Article(a) => {
                self.put(level, &format!("{:<10}", format!("{}. §", a.identifier)));
                if let Some(t) = &a.title {
                    self.line(level + 2, &format!("     [{t}]"));
                }
                self.paragraphs(level + 2, &a.children)?;
                if a.children.is_empty() {
                    self.0.push('\n');
                }
            }
        }
        Ok(())
    }
    fn act(a: &Act) -> Result<Page, ()> {
        let mut p = Page::default();
        p.line(1, &format!("{} {}", a.identifier, a.subject));
        p.line(1, &a.preamble);
        for c in &a.children {
            p.child(1, c)?;
        }
        Ok(p)
    }
}

/// Lines without trailing spaces, empty lines left out.
fn normal(s: &str) -> Vec<&str> {
    s.lines().map(|l| l.trim_end()).filter(|l| !l.is_empty()).collect()
}
fn ink(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn strip_colors(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            check!(it.next() == Some('['), "a broken colour code");
            loop {
                match it.next() {
                    Some('m') => break,
                    Some(d) if d.is_ascii_digit() || d == ';' => {}
                    other => return Err(format!("a broken colour code: {other:?} in it")),
                }
            }
        } else {
            out.push(c);
        }
    }
    Ok(out)
}

/// The colour code in force at every visible character
fn colors_of(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut now = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            now = it.by_ref().skip(1).take_while(|c| *c != 'm').collect();
        } else if !c.is_whitespace() {
            out.push(now.clone());
        }
    }
    out
}

fn rendered(act: &Act, width: usize, f: OutputFormat) -> Result<String, String> {
    let mut out = Vec::new();
    act.clone().cli_output(width, f, &mut out).map_err(|e| format!("{e:#}"))?;
    String::from_utf8(out).map_err(|e| e.to_string())
}

fn printed(c: &Ctx, act: &Act, widths: &[usize]) -> Result<(), String> {
    let Page(want, marks) = match Page::act(act) {
        Ok(w) => w,
        Err(()) => {
            // No written form for one of the headers.
            c.outcome("refused");
            let r = rendered(act, 105, OutputFormat::Plain);
            check!(r.is_err(), "a header that has no written form was printed");
            return Ok(());
        }
    };
    c.outcome("printed");
    c.steps(2 + 2 * widths.len() as u64);
    c.validated();
    let wide = rendered(act, 1_000_000, OutputFormat::Plain)?;
    let (g, w) = (normal(&wide), normal(&want));
    for (i, (g, w)) in g.iter().zip(&w).enumerate() {
        check!(g == w, "printed line {i} is {g:?} instead of {w:?}");
    }
    check!(g.len() == w.len(), "{} lines instead of {}: {:?}", g.len(), w.len(), g.last());
    let ink_want = ink(&want);
    let mut quotes = vec![];
    quoted_in(&act.children, &mut quotes);
    for width in widths.iter().copied().chain([1_000_000]) {
        let plain = rendered(act, width, OutputFormat::Plain).map_err(|e| format!("at width {width}: {e}"))?;
        if ink(&plain) != ink_want {
            let (a, b) = (ink(&plain), ink_want.clone());
            let at = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
            let cut = |s: &str| s.chars().skip(at.saturating_sub(10)).take(30).collect::<String>();
            return Err(format!("at width {width} the text is {:?} where it should be {:?}", cut(&a), cut(&b)));
        }
        if width >= 100 && quotes.is_empty() {
            for l in plain.lines().skip(1) {
                check!(l.trim_end().chars().count() <= width + 20, "at width {width} there is the line {l:?}");
            }
        }
        let test = rendered(act, width, OutputFormat::TestPlain)?;
        check!(test == plain, "the testing format of an act differs");
        let colored = rendered(act, width, OutputFormat::Colored)?;
        let colors = colors_of(&colored);
        let colored = strip_colors(&colored)?;
        check!(ink(&colored) == ink_want, "at width {width} the coloured text differs: {colored:?}");
        if width >= 100 {
            check!(normal(&colored) == normal(&plain), "at width {width} the coloured output is laid out differently: {colored:?}");
        }
        // References have a colour of their own.
        let of_references = marks.iter().position(|m| *m).map(|i| colors[i].clone());
        for (i, (color, mark)) in colors.iter().zip(&marks).enumerate() {
            if (Some(color) == of_references.as_ref()) != *mark {
                let near: String = ink_want.chars().skip(i).take(20).collect();
                return Err(format!("at width {width} {near:?} is {}coloured as a reference", if *mark { "not " } else { "" }));
            }
        }
    }
    Ok(())
}

struct Failing {
    room: usize,
    step: usize,
    taken: Vec<u8>,
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.room - self.taken.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.taken.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const FORMATS: [OutputFormat; 5] = [OutputFormat::Plain, OutputFormat::TestPlain, OutputFormat::Colored, OutputFormat::Json, OutputFormat::Yaml];

/// Every point at which the target can stop taking bytes.
fn failing_targets<T: CliOutput>(c: &Ctx, what: &str, v: impl Fn() -> T) {
    for f in FORMATS {
        let mut full = Vec::new();
        if v().cli_output(60, f, &mut full).is_err() {
            continue;
        }
        for step in [1, 7, usize::MAX] {
            for room in 0..=full.len() {
                c.case(
                    || format!("{what} as {f:?} to a target that takes {room} of {} bytes, {step} at a time", full.len()),
                    || {
                        let mut t = Failing { room, step, taken: vec![] };
                        c.steps(1);
                        c.validated();
                        let r = v().cli_output(60, f, &mut t);
                        check!(r.is_ok() == (room == full.len()), "the result is {r:?}");
                        check!(t.taken == full[..room], "other bytes were written");
                        Ok(())
                    },
                );
            }
        }
    }
}

fn printed_lines(c: &Ctx, lines: &[IndentedLine], desc: &str) {
    c.case(
        || desc.to_string(),
        || {
            c.steps(10);
            c.validated();
            let pages = || vec![PageOfLines { lines: lines.to_vec() }, PageOfLines { lines: lines.iter().rev().cloned().collect() }];
            let raw = doc::raw(lines.to_vec());
            for f in [OutputFormat::Plain, OutputFormat::Colored, OutputFormat::TestPlain] {
                let (mut a, mut p) = (vec![], vec![]);
                raw.clone().cli_output(20, f, &mut a).map_err(|e| e.to_string())?;
                pages().cli_output(20, f, &mut p).map_err(|e| e.to_string())?;
                let (a, p) = (String::from_utf8(a).map_err(|e| e.to_string())?, String::from_utf8(p).map_err(|e| e.to_string())?);
                let a: Vec<&str> = a.lines().collect();
                check!(a.len() == lines.len() + 3, "the act has {} lines of output", a.len());
                check!(a[0].contains(&raw.identifier.to_string()) && a[0].contains(&raw.subject) && a[1].contains("2023-04-05"), "the head is {:?}", &a[..2]);
                let p: Vec<&str> = p.lines().collect();
                check!(p.len() == 2 * (lines.len() + 3), "the pages have {} lines of output", p.len());
                let (p1, p2) = p.split_at(lines.len() + 3);
                let p2: Vec<&str> = p2[..3].iter().chain(p2[3..].iter().rev()).copied().collect();
                for out in [&a[..], p1, &p2] {
                    for (l, o) in lines.iter().zip(&out[3..]) {
                        if f == OutputFormat::TestPlain {
                            let back = IndentedLine::from_test_str(o);
                            check!(back.content() == l.content(), "line {:?} reads back as {:?}", l.content(), back.content());
                            check!(l.is_empty() || back.is_justified() == l.is_justified(), "line {o:?} lost its justification");
                            check!(l.is_empty() || back.is_bold() == l.is_bold(), "line {o:?} lost its boldness");
                            // To the nearest column where there is room for the marks.
                            let taken = if l.is_bold() { 6.0 } else { 0.0 } + if l.is_justified() { 0.0 } else { 4.0 };
                            if l.indent() / 5.0 >= taken + 1.0 {
                                check!((back.indent() - l.indent()).abs() < 15.0, "line {o:?} moved from {} to {}", l.indent(), back.indent());
                            }
                        } else {
                            check!(o.trim_start() == l.content(), "line {:?} is printed as {o:?}", l.content());
                            let col = o.chars().take_while(|c| *c == ' ').count() as f64;
                            check!(l.is_empty() || (l.indent() / 5.0 - col).abs() <= 1.0, "line {:?} at {} is printed at column {col}", l.content(), l.indent());
                        }
                    }
                }
            }
            let mut j = vec![];
            raw.clone().cli_output(20, OutputFormat::Json, &mut j).map_err(|e| e.to_string())?;
            let v: serde_json::Value = serde_json::from_slice(&j).map_err(|e| e.to_string())?;
            let back: Vec<IndentedLine> = serde_json::from_value(v["body"].clone()).map_err(|e| e.to_string())?;
            check!(back.len() == lines.len() && back.iter().zip(lines).all(|(a, b)| same_line(a, b)), "the JSON output of the lines differs");
            let mut y = vec![];
            pages().cli_output(20, OutputFormat::Yaml, &mut y).map_err(|e| e.to_string())?;
            #[derive(serde::Deserialize)]
            struct Page {
                lines: Vec<IndentedLine>,
            }
            let back: Vec<Page> = singleton_yaml::from_slice(&y).map_err(|e| e.to_string())?;
            check!(back.len() == 2 && back[0].lines.iter().zip(lines).all(|(a, b)| same_line(a, b)), "the YAML output of the lines differs");
            Ok(())
        },
    );
}

pub fn c24(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    let widths: &[usize] = if t {
        &[0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 14, 15, 16, 19, 20, 21, 24, 25, 26, 29, 30, 31, 34, 35, 36, 40, 45, 50, 60, 80, 104, 105, 120]
    } else {
        &[0, 1, 4, 5, 6, 10, 15, 16, 20, 21, 25, 26, 30, 35, 40, 60, 105]
    };
    let gen = |texts: &'static [&'static str], notes: bool| move |c: &mut Chooser| G { c, texts, notes, depth: 2 }.act();
    let judge = |w: &'static [usize]| {
        move |c: &Ctx, choices: &[usize], act: &Act| {
            c.case(|| format!("choices {choices:?}: {}", brief(act)), || printed(c, act, w));
        }
    };
    let mut u = choose::units("act", if t { 4 } else { 3 }, gen(PRINTED, false), judge(&[5, 30, 105]));
    u.extend(choose::units("width", 2, gen(PRINTED, false), judge(widths)));
    u.extend(choose::units("notes", if t { 3 } else { 2 }, gen(PRINTED, true), judge(&[30, 105])));
    u.extend(grown(2000, |c, a| printed(c, a, &[10, 30, 79, 105, 150, 250, 1000])));
    u.push(Unit {
        label: "targets".into(),
        run: Box::new(|c| {
            let mut ch = Chooser::new(&[]);
            let act = G { c: &mut ch, texts: &PRINTED[2..], notes: true, depth: 2 }.act();
            failing_targets(c, "an act", || act.clone());
            failing_targets(c, "another act", || everywhere("két szó"));
            let lines = vec![doc::line(20.0, "sor", true, false), EMPTY_LINE, doc::line(90.0, "másik sor", false, true)];
            failing_targets(c, "raw lines", || doc::raw(lines.clone()));
            failing_targets(c, "a page", || PageOfLines { lines: lines.clone() });
            failing_targets(c, "pages", || vec![PageOfLines { lines: lines.clone() }, PageOfLines { lines: lines.clone() }]);
        }),
    });
    let indents: Vec<f64> = vec![0.0, 4.9, 5.0, 10.0, 24.9, 25.0, 54.0, 61.0, 72.4, 99.0];
    for first in 0..indents.len() {
        let indents = indents.clone();
        u.push(Unit {
            label: format!("lines-{first}"),
            run: Box::new(move |c| {
                let mut all = vec![EMPTY_LINE];
                for text in ["a", "két szó", "(1) É"] {
                    for bold in [false, true] {
                        for just in [false, true] {
                            for i in &indents {
                                all.push(doc::line(*i, text, bold, just));
                            }
                        }
                    }
                }
                for a in all.iter().skip(first).step_by(indents.len()) {
                    for b in &all {
                        let lines = vec![a.clone(), b.clone(), EMPTY_LINE];
                        printed_lines(c, &lines, &format!("lines {}", doc::show(&lines)));
                    }
                }
            }),
        });
    }
    u
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, PartialEq)]
struct Event {
    enter: bool,
    position: String,
    content: String,
    kind: &'static str,
}

fn content<C: ChildrenCommon>(b: &SAEBody<C>) -> String {
    match b {
        SAEBody::Text(t) => format!("text {t}"),
        SAEBody::Children { intro, wrap_up, .. } => format!("{intro}…{wrap_up:?}"),
    }
}

/// The model: positions as plain texts.
struct Walk {
    events: Vec<Event>,
}
impl Walk {
    fn visit<I: IdentifierCommon, C: ChildrenCommon>(&mut self, at: &[String; 5], e: &SubArticleElement<I, C>, inner: impl FnOnce(&mut Self, &C)) {
        let ev = |enter| Event { enter, position: at.join("_"), content: content(&e.body), kind: C::parent_type_name() };
        self.events.push(ev(true));
        if let SAEBody::Children { children, .. } = &e.body {
            inner(self, children);
        }
        self.events.push(ev(false));
    }
    fn with(at: &[String; 5], level: usize, label: String) -> [String; 5] {
        let mut a = at.clone();
        a[level] = label;
        a
    }
    fn alpha_sub(&mut self, at: &[String; 5], v: &[AlphabeticSubpoint]) {
        v.iter().for_each(|e| self.visit(&Self::with(at, 4, e.identifier.to_string()), e, |_, _| ()));
    }
    fn num_sub(&mut self, at: &[String; 5], v: &[NumericSubpoint]) {
        v.iter().for_each(|e| self.visit(&Self::with(at, 4, e.identifier.to_string()), e, |_, _| ()));
    }
    fn act(&mut self, a: &Act) {
        let top: [String; 5] = [format!("{}.{}", a.identifier.year, a.identifier.number), String::new(), String::new(), String::new(), String::new()];
        for c in &a.children {
            let ActChild::Article(art) = c else { continue };
            let at = Self::with(&top, 1, art.identifier.to_string());
            for p in &art.children {
                let at = if p.identifier.is_empty() { at.clone() } else { Self::with(&at, 2, p.identifier.to_string()) };
                self.visit(&at, p, |w, ch| match ch {
                    ParagraphChildren::AlphabeticPoint(v) => v.iter().for_each(|e| {
                        let at = Self::with(&at, 3, e.identifier.to_string());
                        w.visit(&at, e, |w, ch| match ch {
                            AlphabeticPointChildren::AlphabeticSubpoint(v) => w.alpha_sub(&at, v),
                            AlphabeticPointChildren::NumericSubpoint(v) => w.num_sub(&at, v),
                        });
                    }),
                    ParagraphChildren::NumericPoint(v) => v.iter().for_each(|e| {
                        let at = Self::with(&at, 3, e.identifier.to_string());
                        w.visit(&at, e, |w, ch| match ch {
                            NumericPointChildren::AlphabeticSubpoint(v) => w.alpha_sub(&at, v),
                        });
                    }),
                    _ => {}
                });
            }
        }
    }
}

/// The position as the model writes it, through the public data form of references.
fn position(r: &Reference) -> String {
    let v = serde_json::to_value(r).unwrap();
    let s = |k: &str| match &v[k] {
        serde_json::Value::Null => String::new(),
        serde_json::Value::String(s) => s.clone(),
        other => other.to_string(),
    };
    let act = match &v["act"] {
        serde_json::Value::Null => String::new(),
        a => format!("{}.{}", a["year"], a["number"]),
    };
    [act, s("article"), s("paragraph"), s("point"), s("subpoint")].join("_")
}

struct Recorder {
    events: Vec<Event>,
    /// Refuses the event of this number.
    fail_at: usize,
    /// Changes the text of the element of this event.
    change_at: usize,
}
impl Recorder {
    fn note<I: IdentifierCommon, C: ChildrenCommon>(&mut self, enter: bool, r: &Reference, e: &SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.events.push(Event { enter, position: position(r), content: content(&e.body), kind: C::parent_type_name() });
        if self.events.len() - 1 == self.fail_at {
            return Err(anyhow::anyhow!("the visitor's own error"));
        }
        Ok(())
    }
    fn note_mut<I: IdentifierCommon, C: ChildrenCommon>(&mut self, enter: bool, r: &Reference, e: &mut SubArticleElement<I, C>) -> anyhow::Result<()> {
        if self.events.len() == self.change_at {
            match &mut e.body {
                SAEBody::Text(t) => *t = "MÁS".into(),
                SAEBody::Children { intro, .. } => *intro = "MÁS".into(),
            }
        }
        self.note(enter, r, e)
    }
}
impl SAEVisitor for Recorder {
    fn on_enter<I: IdentifierCommon, C: ChildrenCommon>(&mut self, r: &Reference, e: &SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.note(true, r, e)
    }
    fn on_exit<I: IdentifierCommon, C: ChildrenCommon>(&mut self, r: &Reference, e: &SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.note(false, r, e)
    }
}
impl SAEVisitorMut for Recorder {
    fn on_enter<I: IdentifierCommon, C: ChildrenCommon>(&mut self, r: &Reference, e: &mut SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.note_mut(true, r, e)
    }
    fn on_exit<I: IdentifierCommon, C: ChildrenCommon>(&mut self, r: &Reference, e: &mut SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.note_mut(false, r, e)
    }
}

fn compare_events(what: &str, got: &[Event], want: &[Event]) -> Result<(), String> {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        check!(g == w, "{what}: event {i} is {g:?} instead of {w:?}");
    }
    check!(got.len() == want.len(), "{what}: {} events instead of {}", got.len(), want.len());
    Ok(())
}

fn texts_of(a: &Act) -> Vec<String> {
    let mut w = Walk { events: vec![] };
    w.act(a);
    w.events.iter().filter(|e| e.enter).map(|e| e.content.clone()).collect()
}

fn walked(c: &Ctx, act: &Act) -> Result<(), String> {
    let mut w = Walk { events: vec![] };
    w.act(act);
    let want = w.events;
    const NEVER: usize = usize::MAX;
    let mut r = Recorder { events: vec![], fail_at: NEVER, change_at: NEVER };
    act.walk_saes(&mut r).map_err(|e| format!("walking is refused: {e:#}"))?;
    compare_events("walking", &r.events, &want)?;
    let mut copy = act.clone();
    let mut r = Recorder { events: vec![], fail_at: NEVER, change_at: NEVER };
    copy.walk_saes_mut(&mut r).map_err(|e| format!("mutable walking is refused: {e:#}"))?;
    compare_events("mutable walking", &r.events, &want)?;
    check!(copy == *act, "mutable walking changed the act by itself");
    c.steps(2 * want.len() as u64);
    c.validated();
    // Refused at, and changed at, every event (of long walks: at the first, the last, and some between).
    let some = want.len() > 120;
    for k in (0..want.len()).filter(|k| !some || *k < 3 || *k + 4 > want.len() || *k == want.len() / 2 || *k == want.len() / 2 + 1) {
        let mut r = Recorder { events: vec![], fail_at: k, change_at: NEVER };
        let res = act.walk_saes(&mut r);
        check!(res.is_err(), "the visitor's error at event {k} is lost");
        compare_events("walking until an error", &r.events, &want[..=k])?;
        let mut copy = act.clone();
        let mut r = Recorder { events: vec![], fail_at: k, change_at: NEVER };
        let res = copy.walk_saes_mut(&mut r);
        check!(res.is_err(), "the mutable visitor's error at event {k} is lost");
        compare_events("mutable walking until an error", &r.events, &want[..=k])?;
        let mut copy = act.clone();
        let mut r = Recorder { events: vec![], fail_at: NEVER, change_at: k };
        copy.walk_saes_mut(&mut r).map_err(|e| format!("{e:#}"))?;
        // The k-th event belongs to the n-th entered element.
        let n = if want[k].enter {
            want[..k].iter().filter(|e| e.enter).count()
        } else {
            let mut open = vec![];
            let mut count = 0;
            for e in &want[..k] {
                if e.enter {
                    open.push(count);
                    count += 1;
                } else {
                    open.pop();
                }
            }
            open[open.len() - 1]
        };
        let (before, after) = (texts_of(act), texts_of(&copy));
        check!(before.len() == after.len(), "a change changed the number of elements");
        for (i, (b, a)) in before.iter().zip(&after).enumerate() {
            if i == n {
                check!(a.contains("MÁS"), "the change at event {k} is lost");
            } else {
                check!(a == b, "the change at event {k} also changed element {i}");
            }
        }
        c.steps(3 * want.len() as u64);
    }
    // Articles by identifier.
    let ids: Vec<ArticleIdentifier> = act.children.iter().filter_map(|c| if let ActChild::Article(a) = c { Some(a.identifier) } else { None }).collect();
    check!(act.articles().map(|a| a.identifier).collect::<Vec<_>>() == ids, "articles() does not list the articles");
    let mut copy = act.clone();
    check!(copy.articles_mut().map(|a| a.identifier).collect::<Vec<_>>() == ids, "articles_mut() does not list the articles");
    let mut asked = ids.clone();
    asked.extend(["1", "2", "1/A", "1:1", "2:1", "999"].iter().map(|s| s.parse::<ArticleIdentifier>().unwrap()));
    for id in asked {
        let want = act.children.iter().find_map(|c| match c {
            ActChild::Article(a) if a.identifier == id => Some(a),
            _ => None,
        });
        check!(act.article(id) == want, "article({id}) is another one");
        check!(copy.article_mut(id).map(|a| a.clone()) == want.cloned(), "article_mut({id}) is another one");
    }
    Ok(())
}

pub fn c25(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    let gen = |c: &mut Chooser| G { c, texts: &["szöveg", "más szöveg"], notes: false, depth: 2 }.act();
    let mut u = choose::units("act", if t { 6 } else { 4 }, gen, |c: &Ctx, choices: &[usize], act: &Act| {
        c.case(|| format!("choices {choices:?}: {}", brief(act)), || walked(c, act));
    });
    u.extend(grown(2000, walked));
    u
}
