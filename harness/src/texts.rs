//! C09, C10, C11: what the structure parser and the block amendment conversion do with *any*
//! sequence of lines, over an alphabet of line kinds.
use crate::{
    check,
    core::{guarded, Ctx, Tier, Unit},
    doc::{self, act, show, L},
    ids::{self, letter_next, num_next, LETTERS},
};
use hun_law::{
    identifier::{range::IdentifierRangeFrom, ArticleIdentifier, HungarianIdentifierChar, NumericIdentifier},
    parser::structure::parse_act_structure,
    reference::{
        parts::{AnyReferencePart, RefPartPoint, RefPartSubpoint},
        structural::{StructuralReference, StructuralReferenceElement as SRE},
        Reference,
    },
    semantic_info::{self, SemanticInfo, SpecialPhrase},
    structure::*,
    util::{compact_string::CompactString, indentedline::IndentedLine},
};
use std::fmt::Write;

// ---- The alphabet ------------------------------------------------------------------------
const fn l(indent: f64, text: &'static str) -> L {
    L { indent, text, bold: false, just: true }
}
const fn n(indent: f64, text: &'static str) -> L {
    L { indent, text, bold: false, just: false }
}
const fn b(indent: f64, text: &'static str) -> L {
    L { indent, text, bold: true, just: false }
}

/// Line kinds of a full act; the first ones are combined to greater lengths.
const FULL: &[L] = &[
    // the 12 combined deepest
    l(50.0, "szöveg,"),
    l(20.0, "1. § (1) Szöveg:"),
    l(20.0, "2. § Szöveg."),
    l(20.0, "(2) Szöveg:"),
    l(30.0, "a) szöveg,"),
    l(30.0, "b) szöveg:"),
    l(40.0, "ba) szöveg,"),
    l(40.0, "bb) szöveg."),
    l(30.0, "1. szöveg:"),
    l(30.0, "2. szöveg,"),
    l(20.0, "„idézet"),
    l(20.0, "idézet”"),
    // up to 24 the second deepest
    l(0.0, ""),
    l(0.0, "Záró szöveg."),
    l(20.0, "1. § Szöveg:"),
    l(20.0, "1. § [Cím]"),
    l(20.0, "1. § [Cím"),
    l(50.0, "alcím]"),
    l(20.0, "(1) Szöveg."),
    l(30.0, "aa) szöveg,"),
    l(30.0, "ab) szöveg."),
    l(20.0, "(zárójel)"),
    l(20.0, "„idézet”"),
    b(50.0, "Alcím"),
    // the rest
    l(50.0, "ELSŐ KÖNYV"),
    l(50.0, "HUSZONKETTEDIK RÉSZ"),
    l(50.0, "ÁLTALÁNOS RÉSZ"),
    l(50.0, "XIV. CÍM"),
    l(50.0, "III. Fejezet"),
    b(50.0, "3. Alcím"),
    b(50.0, "3/A. Alcím"),
    b(20.0, "2. § Szöveg."),
    b(50.0, "alcím folytatása"),
    l(20.0, "1/A. § Szöveg."),
    l(20.0, "1:1. § Szöveg."),
    l(20.0, "1:2.§ (1) Szöveg."),
    l(20.0, "(2) bekezdés"),
    l(20.0, "(1a) Szöveg."),
    l(30.0, "b) pont,"),
    l(30.0, "c) szöveg;"),
    l(30.0, "1a. szöveg,"),
    l(30.0, "2/a. szöveg,"),
    l(30.0, "cs) szöveg,"),
    l(50.0, "szöveg-"),
    l(20.0, "[szögletes"),
    l(20.0, "szögletes]"),
    l(20.0, "„külső „belső” 2. §"),
    l(20.0, "“2. § idézet"),
    l(20.0, "”"),
    l(20.0, "„"),
    l(20.0, "„”"),
    l(20.0, "2. §"),
    l(30.0, "b) "),
    l(20.0, "(2) "),
    l(0.0, " "),
];

/// What stands before and after the explored lines of a full act.
const AROUND: &[(&[L], &[L])] = &[
    (&[], &[]),
    (&[l(20.0, "1. § Szöveg:")], &[]),
    (&[l(20.0, "1. § (1) Szöveg:"), l(30.0, "a) szöveg:")], &[]),
    (&[l(20.0, "1. § (1) Szöveg:")], &[l(20.0, "(2) Szöveg.")]),
    (&[l(20.0, "1. § Szöveg:"), l(30.0, "1. szöveg:")], &[l(30.0, "2. szöveg.")]),
    (&[l(20.0, "1. § Szöveg:"), l(20.0, "„idézet")], &[l(20.0, "idézet”")]),
    (&[l(20.0, "1. § Szöveg:"), l(20.0, "(bevezető)"), l(20.0, "„idézet”")], &[]),
    (
        &[l(20.0, "1. § Szöveg:"), l(30.0, "a) szöveg,"), l(30.0, "b) szöveg:"), l(40.0, "ba) szöveg,")],
        &[l(20.0, "2. § Szöveg.")],
    ),
];

/// Line kinds inside a block amendment.
const AMEND: &[L] = &[
    // the 12 combined deepest
    l(20.0, "szöveg,"),
    n(20.0, "szöveg."),
    l(20.0, "5. § (1) Szöveg:"),
    n(20.0, "6. § Szöveg."),
    n(20.0, "(2) Szöveg:"),
    l(20.0, "a) szöveg,"),
    n(20.0, "b) szöveg:"),
    n(20.0, "ba) szöveg,"),
    n(20.0, "bb) szöveg."),
    n(20.0, "1. szöveg:"),
    n(20.0, "2. szöveg,"),
    l(20.0, "„idézet"),
    // up to 24 the second deepest
    l(20.0, "idézet”"),
    l(0.0, ""),
    n(20.0, "(1) Szöveg."),
    n(20.0, "a) szöveg:"),
    n(20.0, "aa) szöveg,"),
    n(20.0, "ab) szöveg."),
    n(20.0, "c) szöveg."),
    n(20.0, "5. § (2) Szöveg."),
    n(20.0, "5. § [Cím]"),
    b(20.0, "3. Alcím"),
    b(20.0, "Alcím"),
    n(20.0, "II. FEJEZET"),
    // the rest
    n(20.0, "(2a) Szöveg:"),
    n(20.0, "(3) Szöveg:"),
    n(20.0, "(2) bekezdés"),
    n(20.0, "b) pont"),
    n(20.0, "5/A. § Szöveg."),
    n(20.0, "2a. szöveg."),
    n(20.0, "3. szöveg."),
    n(20.0, "MÁSODIK RÉSZ"),
    n(20.0, "KÜLÖNÖS RÉSZ"),
    n(20.0, "II. CÍM"),
    n(20.0, "ELSŐ KÖNYV"),
    b(20.0, "6. § Szöveg."),
    n(20.0, "(zárójel)"),
    n(20.0, "„idézet”"),
    n(20.0, "“6. § idézet"),
    n(20.0, "”"),
    n(20.0, "b) "),
    n(20.0, "5. §"),
    l(20.0, "szöveg-"),
];

fn sra(e: SRE, title_only: bool) -> Position {
    Position::S(StructuralReference { act: None, book: None, parent: None, structural_element: e, title_only })
}

#[derive(Clone, Debug)]
pub enum Position {
    R(Reference),
    S(StructuralReference),
}

pub fn num(s: &str) -> NumericIdentifier {
    s.parse().unwrap()
}

const POSITIONS: &[&str] = &[
    "5_2", "5_1-3", "5_2a", "5_2_b", "5_2_a-c", "5__a", "5__1", "5_2_2", "5_2_1-2", "5_2_b_ba", "5_2_1_a", "5_2_b_1-2", "5_2_b_bb",
    "5__1_b", "5", "",
];

pub fn positions() -> Vec<Position> {
    let art = |s: &str| s.parse::<ArticleIdentifier>().unwrap();
    let arts = |a: &str, b: &str| SRE::Article(hun_law::identifier::range::IdentifierRange::from_range(art(a), art(b)));
    let mut v: Vec<Position> = POSITIONS.iter().map(|s| Position::R(doc::reference(true, s))).collect();
    v.extend([
        sra(arts("5", "5"), false),
        sra(arts("5", "6"), false),
        sra(arts("5/A", "5/A"), false),
        sra(SRE::Part(num("2")), false),
        sra(SRE::Chapter(num("2")), false),
        sra(SRE::SubtitleId(num("3")), false),
        sra(SRE::SubtitleUnknown, false),
        sra(SRE::SubtitleBeforeArticleInclusive(art("5")), false),
        sra(SRE::Part(num("2")), true),
        sra(SRE::Title(num("2")), true),
        sra(SRE::Chapter(num("2")), true),
        sra(SRE::SubtitleId(num("3")), true),
        sra(SRE::SubtitleTitle("Alcím".into()), true),
        sra(SRE::SubtitleUnknown, true),
        sra(arts("5", "5"), true),
    ]);
    v
}

pub fn show_position(p: &Position) -> String {
    match p {
        Position::R(r) => r.compact_string().to_string(),
        Position::S(s) => {
            let mut j = serde_json::to_value(s).unwrap();
            j.as_object_mut().unwrap().remove("title_only");
            format!("{}{}", j, if s.title_only { " (title only)" } else { "" })
        }
    }
}

/// An act whose only paragraph is a block amendment of `p` with the given quoted lines.
pub fn amending_act(p: &Position, intro: Option<&str>, wrap_up: Option<&str>, lines: Vec<IndentedLine>) -> Act {
    let special_phrase = Some(match p {
        Position::R(r) => SpecialPhrase::BlockAmendment(semantic_info::BlockAmendment {
            position: r.clone(),
            pure_insertion: false,
        }),
        Position::S(s) => SpecialPhrase::StructuralBlockAmendment(semantic_info::StructuralBlockAmendment {
            position: s.clone(),
            pure_insertion: false,
        }),
    });
    act(
        "",
        vec![Article {
            identifier: "1".parse().unwrap(),
            title: None,
            children: vec![Paragraph {
                identifier: Default::default(),
                body: SAEBody::Children {
                    intro: "A tv. helyébe a következő lép:".into(),
                    children: ParagraphChildren::QuotedBlock(vec![QuotedBlock {
                        intro: intro.map(str::to_string),
                        lines,
                        wrap_up: wrap_up.map(str::to_string),
                    }]),
                    wrap_up: None,
                },
                semantic_info: SemanticInfo { special_phrase, ..Default::default() },
                last_change: None,
            }],
            last_change: None,
        }
        .into()],
    )
}

/// What the amending paragraph's children were converted to.
pub fn amended(a: &Act) -> Option<&ParagraphChildren> {
    match &a.articles().next()?.children.first()?.body {
        SAEBody::Children { children, .. } => Some(children),
        SAEBody::Text(_) => None,
    }
}

// ---- Rendering a parse back to text --------------------------------------------------------
trait Render {
    fn render(&self, out: &mut String);
}
impl<T: Render> Render for Vec<T> {
    fn render(&self, out: &mut String) {
        self.iter().for_each(|x| x.render(out));
    }
}
impl Render for Option<String> {
    fn render(&self, out: &mut String) {
        out.push_str(self.as_deref().unwrap_or(""));
    }
}
fn body<C: ChildrenCommon + Render>(b: &SAEBody<C>, out: &mut String) {
    match b {
        SAEBody::Text(t) => out.push_str(t),
        SAEBody::Children { intro, children, wrap_up } => {
            out.push_str(intro);
            children.render(out);
            wrap_up.render(out);
        }
    }
}
macro_rules! sae_render {
    ($t:ty, $fmt:literal) => {
        impl Render for $t {
            fn render(&self, out: &mut String) {
                let _ = write!(out, $fmt, self.identifier);
                body(&self.body, out);
            }
        }
    };
}
sae_render!(Paragraph, "{}");
sae_render!(NumericPoint, "{}.");
sae_render!(AlphabeticPoint, "{}");
sae_render!(NumericSubpoint, "{}.");
sae_render!(AlphabeticSubpoint, "{}");
impl Render for AlphabeticSubpointChildren {
    fn render(&self, _: &mut String) {
        match *self {}
    }
}
impl Render for NumericSubpointChildren {
    fn render(&self, _: &mut String) {
        match *self {}
    }
}
impl Render for NumericPointChildren {
    fn render(&self, out: &mut String) {
        match self {
            Self::AlphabeticSubpoint(x) => x.render(out),
        }
    }
}
impl Render for AlphabeticPointChildren {
    fn render(&self, out: &mut String) {
        match self {
            Self::AlphabeticSubpoint(x) => x.render(out),
            Self::NumericSubpoint(x) => x.render(out),
        }
    }
}
impl Render for BlockAmendmentChildren {
    fn render(&self, out: &mut String) {
        match self {
            Self::Paragraph(x) => x.render(out),
            Self::AlphabeticPoint(x) => x.render(out),
            Self::NumericPoint(x) => x.render(out),
            Self::AlphabeticSubpoint(x) => x.render(out),
            Self::NumericSubpoint(x) => x.render(out),
        }
    }
}
impl Render for ParagraphChildren {
    fn render(&self, out: &mut String) {
        match self {
            Self::AlphabeticPoint(x) => x.render(out),
            Self::NumericPoint(x) => x.render(out),
            Self::QuotedBlock(x) => x.render(out),
            Self::BlockAmendment(x) => {
                x.intro.render(out);
                x.children.render(out);
                x.wrap_up.render(out);
            }
            Self::StructuralBlockAmendment(x) => {
                x.intro.render(out);
                x.children.render(out);
                x.wrap_up.render(out);
            }
        }
    }
}
impl Render for QuotedBlock {
    fn render(&self, out: &mut String) {
        self.intro.render(out);
        for l in &self.lines {
            out.push_str(l.content());
        }
        self.wrap_up.render(out);
    }
}
const ORDINALS: [&str; 30] = [
    "?", "ELSŐ", "MÁSODIK", "HARMADIK", "NEGYEDIK", "ÖTÖDIK", "HATODIK", "HETEDIK", "NYOLCADIK", "KILENCEDIK", "TIZEDIK",
    "TIZENEGYEDIK", "TIZENKETTEDIK", "TIZENHARMADIK", "TIZENNEGYEDIK", "TIZENÖTÖDIK", "TIZENHATODIK", "TIZENHETEDIK",
    "TIZENNYOLCADIK", "TIZENKILENCEDIK", "HUSZADIK", "HUSZONEGYEDIK", "HUSZONKETTEDIK", "HUSZONHARMADIK", "HUSZONNEGYEDIK",
    "HUSZONÖTÖDIK", "HUSZONHATODIK", "HUSZONHETEDIK", "HUSZONNYOLCADIK", "HUSZONKILENCEDIK",
];
impl Render for ActChild {
    fn render(&self, out: &mut String) {
        match self {
            Self::StructuralElement(x) => {
                // Independent of the code's own header text.
                let n: usize = x.identifier.to_string().parse().unwrap_or(0);
                let roman = ids::roman_model(n as u32).unwrap_or_default();
                let ord = ORDINALS.get(n).unwrap_or(&"?");
                let _ = match x.element_type {
                    StructuralElementType::Book => write!(out, "{ord} KÖNYV"),
                    StructuralElementType::Part { is_special: false } => write!(out, "{ord} RÉSZ"),
                    StructuralElementType::Part { is_special: true } => {
                        write!(out, "{} RÉSZ", ["?", "ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ"].get(n).unwrap_or(&"?"))
                    }
                    StructuralElementType::Title => write!(out, "{roman}. CÍM"),
                    StructuralElementType::Chapter => write!(out, "{roman}. FEJEZET"),
                };
                out.push_str(&x.title);
            }
            Self::Subtitle(x) => {
                if let Some(id) = x.identifier {
                    let _ = write!(out, "{id}.");
                }
                out.push_str(&x.title);
            }
            Self::Article(x) => {
                let _ = write!(out, "{}. §", x.identifier);
                x.title.render(out);
                x.children.render(out);
            }
        }
    }
}

/// What must be the same before and after: every character but spacing, brackets and quotation
/// marks around elements, and the slash of an identifier; without regard to case, in which headers differ.
pub fn essence(s: &str) -> String {
    s.chars()
        .filter(|c| !c.is_whitespace() && !"()[]„“”/".contains(*c))
        .flat_map(char::to_uppercase)
        .collect()
}
fn essence_of_lines(lines: &[IndentedLine]) -> String {
    lines.iter().map(|l| essence(l.content())).collect()
}

// ---- Numbering -----------------------------------------------------------------------------
fn model_num(id: NumericIdentifier) -> Result<ids::MNum, String> {
    let t = id.to_string();
    let digits: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
    let rest = &t[digits.len()..];
    let n = digits.parse().map_err(|e| format!("identifier {t}: {e}"))?;
    let suffix = match rest {
        "" => None,
        r => Some(LETTERS.iter().position(|l| *l == r).ok_or_else(|| format!("identifier {t}"))?),
    };
    Ok((n, suffix))
}
fn model_letter(s: &str) -> Result<usize, String> {
    LETTERS.iter().position(|l| *l == s).ok_or_else(|| format!("identifier {s}"))
}

/// Something with a list number: (follows, opens a list)
trait Numbered {
    fn follows(&self, prev: &Self) -> Result<bool, String>;
    fn opens(&self) -> Result<bool, String>;
    fn name(&self) -> String;
    fn inside(&self, first: bool) -> Result<(), String>;
}
fn list<T: Numbered>(what: &str, v: &[T], least: usize, must_open: bool) -> Result<(), String> {
    check!(v.len() >= least, "a list of {} {what}", v.len());
    if must_open && !v.is_empty() {
        check!(v[0].opens()?, "{what} start with {}", v[0].name());
    }
    for w in v.windows(2) {
        check!(w[1].follows(&w[0])?, "{what} {} comes after {}", w[1].name(), w[0].name());
    }
    for (i, x) in v.iter().enumerate() {
        x.inside(i == 0)?;
    }
    Ok(())
}
macro_rules! numeric_sae {
    ($t:ty, $inside:expr) => {
        impl Numbered for $t {
            fn follows(&self, prev: &Self) -> Result<bool, String> {
                Ok(num_next(model_num(self.identifier)?, model_num(prev.identifier)?))
            }
            fn opens(&self) -> Result<bool, String> {
                Ok(model_num(self.identifier)? == (1, None))
            }
            fn name(&self) -> String {
                self.identifier.to_string()
            }
            fn inside(&self, _: bool) -> Result<(), String> {
                let f: fn(&Self) -> Result<(), String> = $inside;
                f(self)
            }
        }
    };
}
numeric_sae!(NumericSubpoint, |_| Ok(()));
numeric_sae!(NumericPoint, |p| match &p.body {
    SAEBody::Children { children: NumericPointChildren::AlphabeticSubpoint(c), .. } => {
        for s in c {
            check!(s.identifier.get_prefix().is_none(), "subpoint {} in numeric point {}", s.identifier, p.identifier);
        }
        list("subpoints", c, 2, true)
    }
    SAEBody::Text(_) => Ok(()),
});
impl Numbered for AlphabeticPoint {
    fn follows(&self, prev: &Self) -> Result<bool, String> {
        Ok(letter_next(model_letter(&self.name())?, model_letter(&prev.name())?))
    }
    fn opens(&self) -> Result<bool, String> {
        Ok(self.name() == "a")
    }
    fn name(&self) -> String {
        self.identifier.to_string()
    }
    fn inside(&self, _: bool) -> Result<(), String> {
        match &self.body {
            SAEBody::Children { children: AlphabeticPointChildren::AlphabeticSubpoint(c), .. } => {
                for s in c {
                    check!(
                        s.identifier.get_prefix().map(|p: HungarianIdentifierChar| p.to_string()) == Some(self.name()),
                        "subpoint {} in point {}",
                        s.identifier,
                        self.identifier
                    );
                }
                list("subpoints", c, 2, true)
            }
            SAEBody::Children { children: AlphabeticPointChildren::NumericSubpoint(c), .. } => list("subpoints", c, 2, true),
            SAEBody::Text(_) => Ok(()),
        }
    }
}
impl Numbered for AlphabeticSubpoint {
    fn follows(&self, prev: &Self) -> Result<bool, String> {
        let part = |s: &Self| -> Result<(String, usize), String> {
            let p = s.identifier.get_prefix().map_or(String::new(), |p| p.to_string());
            let t = s.identifier.to_string();
            let own = t.strip_prefix(p.as_str()).ok_or_else(|| format!("identifier {t}"))?.to_string();
            Ok((p, model_letter(&own)?))
        };
        let (a, b) = (part(prev)?, part(self)?);
        Ok(a.0 == b.0 && letter_next(b.1, a.1))
    }
    fn opens(&self) -> Result<bool, String> {
        let t = self.identifier.to_string();
        Ok(match self.identifier.get_prefix() {
            Some(p) => t == format!("{p}a"),
            None => t == "a",
        })
    }
    fn name(&self) -> String {
        self.identifier.to_string()
    }
    fn inside(&self, _: bool) -> Result<(), String> {
        Ok(())
    }
}
impl Numbered for Paragraph {
    fn follows(&self, prev: &Self) -> Result<bool, String> {
        match (self.identifier.numeric(), prev.identifier.numeric()) {
            (Some(a), Some(b)) => Ok(num_next(model_num(a)?, model_num(b)?)),
            _ => Ok(false),
        }
    }
    fn opens(&self) -> Result<bool, String> {
        self.identifier.numeric().map_or(Ok(true), |n| Ok(model_num(n)? == (1, None)))
    }
    fn name(&self) -> String {
        format!("({})", self.identifier)
    }
    fn inside(&self, _: bool) -> Result<(), String> {
        match &self.body {
            SAEBody::Text(_) => Ok(()),
            SAEBody::Children { children, .. } => match children {
                ParagraphChildren::AlphabeticPoint(c) => list("points", c, 2, true),
                ParagraphChildren::NumericPoint(c) => list("points", c, 2, true),
                ParagraphChildren::QuotedBlock(c) => {
                    check!(!c.is_empty(), "an empty list of quoted blocks");
                    Ok(())
                }
                ParagraphChildren::BlockAmendment(_) | ParagraphChildren::StructuralBlockAmendment(_) => Ok(()),
            },
        }
    }
}
trait MaybeNumber {
    fn numeric(&self) -> Option<NumericIdentifier>;
}
impl MaybeNumber for hun_law::identifier::ParagraphIdentifier {
    fn numeric(&self) -> Option<NumericIdentifier> {
        self.to_string().parse().ok()
    }
}
impl Numbered for &Article {
    fn follows(&self, prev: &Self) -> Result<bool, String> {
        Ok(ids::art_next(model_art(self.identifier)?, model_art(prev.identifier)?))
    }
    fn opens(&self) -> Result<bool, String> {
        let m = model_art(self.identifier)?;
        Ok(m.1 == (1, None) && m.0.map_or(true, |b| b == 1))
    }
    fn name(&self) -> String {
        self.identifier.to_string()
    }
    fn inside(&self, _: bool) -> Result<(), String> {
        let p = &self.children;
        check!(!p.is_empty(), "article {} has no paragraph", self.identifier);
        if p.len() == 1 {
            check!(
                p[0].identifier.to_string().is_empty(),
                "the only paragraph of article {} is numbered {}",
                self.identifier,
                p[0].identifier
            );
        } else {
            check!(!p[0].identifier.to_string().is_empty(), "unnumbered first paragraph of several in article {}", self.identifier);
        }
        list("paragraphs", p, 1, true)
    }
}
fn model_art(id: ArticleIdentifier) -> Result<ids::MArt, String> {
    let t = id.to_string();
    let (book, rest) = match t.split_once(':') {
        Some((b, r)) => (Some(b.parse().map_err(|e| format!("article {t}: {e}"))?), r),
        None => (None, t.as_str()),
    };
    let (n, s) = match rest.split_once('/') {
        Some((n, s)) => (n, Some(model_letter(&s.to_lowercase())?)),
        None => (rest, None),
    };
    Ok((book, (n.parse().map_err(|e| format!("article {t}: {e}"))?, s)))
}

fn articles(v: &[ActChild]) -> Vec<&Article> {
    v.iter().filter_map(|c| if let ActChild::Article(a) = c { Some(a) } else { None }).collect()
}

/// The first identifier an amendment of `p` must start with.
fn first_of(p: &Position) -> Option<String> {
    match p {
        Position::R(r) => {
            Some(match r.get_last_part() {
                AnyReferencePart::Paragraph(x) => x.first_in_range().to_string(),
                AnyReferencePart::Point(RefPartPoint::Numeric(x)) => x.first_in_range().to_string(),
                AnyReferencePart::Point(RefPartPoint::Alphabetic(x)) => x.first_in_range().to_string(),
                AnyReferencePart::Subpoint(RefPartSubpoint::Numeric(x)) => x.first_in_range().to_string(),
                AnyReferencePart::Subpoint(RefPartSubpoint::Alphabetic(x)) => x.first_in_range().to_string(),
                _ => return None,
            })
        }
        Position::S(s) => match &s.structural_element {
            SRE::Article(r) => Some(r.first_in_range().to_string()),
            _ => None,
        },
    }
}

fn numbering_of_amendment(p: &Position, c: &ParagraphChildren) -> Result<(), String> {
    fn starts<T: Numbered>(what: &str, p: &Position, v: &[T], named: impl Fn(&T) -> String) -> Result<(), String> {
        list(what, v, 1, false)?;
        if let Some(want) = first_of(p) {
            check!(named(&v[0]) == want, "the amendment of {} starts with {}", show_position(p), named(&v[0]));
        }
        Ok(())
    }
    match c {
        ParagraphChildren::BlockAmendment(ba) => match &ba.children {
            BlockAmendmentChildren::Paragraph(v) => starts("paragraphs", p, v, |x| x.identifier.to_string()),
            BlockAmendmentChildren::AlphabeticPoint(v) => starts("points", p, v, |x| x.identifier.to_string()),
            BlockAmendmentChildren::NumericPoint(v) => starts("points", p, v, |x| x.identifier.to_string()),
            BlockAmendmentChildren::AlphabeticSubpoint(v) => starts("subpoints", p, v, |x| x.identifier.to_string()),
            BlockAmendmentChildren::NumericSubpoint(v) => starts("subpoints", p, v, |x| x.identifier.to_string()),
        },
        ParagraphChildren::StructuralBlockAmendment(sba) => {
            let a = articles(&sba.children);
            list("articles", &a, 0, false)?;
            if let Position::S(StructuralReference { structural_element: SRE::Article(_), title_only: _, .. }) = p {
                check!(a.len() == sba.children.len(), "an article amendment with something else");
                check!(!a.is_empty(), "an article amendment without articles");
                let want = first_of(p).unwrap();
                check!(a[0].identifier.to_string() == want, "the amendment of article {want} starts with {}", a[0].identifier);
            }
            Ok(())
        }
        other => Err(format!("not converted: {other:?}")),
    }
}

// ---- The exploration -----------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
pub enum Claim {
    /// C09
    Text,
    /// C10
    Total,
    /// C11
    Numbering,
}

fn judge_full(c: &Ctx, claim: Claim, body: &[IndentedLine]) -> Result<(), String> {
    let raw = doc::raw(body.to_vec());
    c.steps(body.len() as u64);
    let got = match guarded(|| parse_act_structure(&raw)) {
        Ok(r) => r,
        Err(p) if claim == Claim::Total => return Err(p),
        Err(_) => {
            c.outcome("crashed (C10)");
            return Ok(());
        }
    };
    let Ok(a) = got else {
        c.outcome("refused");
        return Ok(());
    };
    c.outcome("accepted");
    match claim {
        Claim::Total => Ok(()),
        Claim::Text => {
            c.validated();
            let mut out = a.preamble.clone();
            a.children.render(&mut out);
            let (got, want) = (essence(&out), essence_of_lines(body));
            check!(got == want, "the lines' text is\n  {want}\nbut the act's is\n  {got}");
            check!(a.identifier == raw.identifier && a.subject == raw.subject && a.publication_date == raw.publication_date, "another act's data");
            Ok(())
        }
        Claim::Numbering => {
            c.validated();
            let arts = articles(&a.children);
            list("articles", &arts, 0, true)
        }
    }
}

fn judge_amendment(c: &Ctx, claim: Claim, p: &Position, lines: &[IndentedLine]) -> Result<(), String> {
    let mut a = amending_act(p, Some("bevezető"), Some("záró"), lines.to_vec());
    c.steps(lines.len() as u64);
    let got = match guarded(|| a.convert_block_amendments()) {
        Ok(r) => r,
        Err(p) if claim == Claim::Total => return Err(p),
        Err(_) => {
            c.outcome("crashed (C10)");
            return Ok(());
        }
    };
    if got.is_err() {
        c.outcome("amendment refused");
        return Ok(());
    }
    c.outcome("amendment converted");
    let children = amended(&a).ok_or("the amending paragraph lost its children")?;
    match claim {
        Claim::Total => Ok(()),
        Claim::Numbering => {
            c.validated();
            numbering_of_amendment(p, children)
        }
        Claim::Text => {
            c.validated();
            let mut out = String::new();
            children.render(&mut out);
            let got = essence(&out);
            let mut text = essence_of_lines(lines);
            if let (Position::R(r), Some(first)) = (p, lines.first()) {
                // A paragraph amendment may repeat the article's header.
                let header = r.article().map(|x| format!("{}. § ", x.first_in_range()));
                if let (Some(h), AmendsParagraph(true)) = (header, amends_paragraph(r)) {
                    if first.content().starts_with(&h) {
                        text = essence(&first.content()[h.len()..]) + &essence_of_lines(&lines[1..]);
                    }
                }
            }
            let want = format!("BEVEZETŐ{text}ZÁRÓ");
            if let (Position::S(StructuralReference { title_only: true, .. }), ParagraphChildren::StructuralBlockAmendment(s)) = (p, children) {
                // The header of a retitled element need not be repeated.
                if let [ActChild::StructuralElement(e)] = &s.children[..] {
                    if essence(&e.title) == text {
                        return Ok(());
                    }
                }
            }
            check!(got == want, "the amendment's text is\n  {want}\nbut the converted one's is\n  {got}");
            Ok(())
        }
    }
}
struct AmendsParagraph(bool);
fn amends_paragraph(r: &Reference) -> AmendsParagraph {
    AmendsParagraph(matches!(r.get_last_part(), AnyReferencePart::Paragraph(_)))
}

fn sequences(
    c: &Ctx,
    pool: &[IndentedLine],
    len: usize,
    cur: &mut Vec<IndentedLine>,
    f: &dyn Fn(&Ctx, &[IndentedLine]),
) {
    if len == 0 {
        f(c, cur);
        return;
    }
    for l in pool {
        cur.push(l.clone());
        sequences(c, pool, len - 1, cur, f);
        cur.pop();
    }
}

fn units(claim: Claim, tier: Tier) -> Vec<Unit<'static>> {
    let mut u: Vec<Unit> = vec![];
    let real = |v: &[L]| -> Vec<IndentedLine> { v.iter().map(|l| l.real()).collect() };
    // (size of the alphabet, length)
    let t = tier == Tier::Thorough;
    let full = if t { [(12, 6), (24, 5), (FULL.len(), 4)] } else { [(12, 5), (24, 4), (FULL.len(), 3)] };
    for (size, len) in full {
        for (k, around) in AROUND.iter().enumerate() {
            for first in 0..size {
                let (before, after) = (real(around.0), real(around.1));
                let pool = real(&FULL[..size]);
                u.push(Unit {
                    label: format!("act-{size}-{k}-{first}"),
                    run: Box::new(move |c| {
                        for n in 0..len {
                            if n + 1 < len && size < FULL.len() {
                                continue; // shorter ones belong to the larger alphabets
                            }
                            let mut cur = before.clone();
                            cur.push(pool[first].clone());
                            sequences(c, &pool, n, &mut cur, &|c, body| {
                                let mut body = body.to_vec();
                                body.extend(after.iter().cloned());
                                c.case(|| show(&body), || judge_full(c, claim, &body));
                            });
                        }
                    }),
                });
            }
        }
    }
    let amend = if t { [(12, 5), (24, 4), (AMEND.len(), 3)] } else { [(12, 4), (24, 3), (AMEND.len(), 2)] };
    for (size, len) in amend {
        for (k, p) in positions().into_iter().enumerate() {
            let pool = real(&AMEND[..size]);
            u.push(Unit {
                label: format!("amendment-{size}-{k}"),
                run: Box::new(move |c| {
                    for n in 0..=len {
                        if n < len && size < AMEND.len() {
                            continue;
                        }
                        sequences(c, &pool, n, &mut vec![], &|c, lines| {
                            c.case(
                                || format!("amendment of {}: {}", show_position(&p), show(lines)),
                                || judge_amendment(c, claim, &p, lines),
                            );
                        });
                    }
                }),
            });
        }
    }
    u
}

pub fn c09(tier: Tier) -> Vec<Unit<'static>> {
    all(Claim::Text, tier)
}
pub fn c10(tier: Tier) -> Vec<Unit<'static>> {
    all(Claim::Total, tier)
}
pub fn c11(tier: Tier) -> Vec<Unit<'static>> {
    all(Claim::Numbering, tier)
}
fn all(claim: Claim, tier: Tier) -> Vec<Unit<'static>> {
    let mut u = long_documents(claim, tier);
    u.extend(grown(claim));
    u.extend(units(claim, tier));
    u
}

/// Long documents that repeat a short pattern of line kinds; and long amendments.
fn long_documents(claim: Claim, tier: Tier) -> Vec<Unit<'static>> {
    let (size, repeat) = if tier == Tier::Thorough { (24, 100) } else { (24, 30) };
    let mut u: Vec<Unit> = vec![];
    for first in 0..size {
        u.push(Unit {
            label: format!("long-{first}"),
            run: Box::new(move |c: &Ctx| {
                let pool: Vec<IndentedLine> = FULL[..size].iter().map(|l| l.real()).collect();
                for n in 0..3 {
                    let mut cur = vec![pool[first].clone()];
                    sequences(c, &pool, n, &mut cur, &|c, pattern| {
                        let mut body = vec![FULL[14].real()];
                        for _ in 0..repeat {
                            body.extend(pattern.iter().cloned());
                        }
                        c.case(|| format!("{repeat} times: {}", show(pattern)), || judge_full(c, claim, &body));
                    });
                }
            }),
        });
    }
    for (k, p) in positions().into_iter().enumerate() {
        u.push(Unit {
            label: format!("long-amendment-{k}"),
            run: Box::new(move |c: &Ctx| {
                let pool: Vec<IndentedLine> = AMEND[..size].iter().map(|l| l.real()).collect();
                for first in &pool {
                    for n in 1..3 {
                        sequences(c, &pool, n, &mut vec![], &|c, pattern| {
                            let mut lines = vec![first.clone()];
                            for _ in 0..repeat {
                                lines.extend(pattern.iter().cloned());
                            }
                            c.case(
                                || format!("amendment of {}: {}, then {repeat} times {}", show_position(&p), show(&[first.clone()]), show(pattern)),
                                || judge_amendment(c, claim, &p, &lines),
                            );
                        });
                    }
                }
            }),
        });
    }
    u
}

/// Acts of the conventional layout with one dimension grown large.
fn grown(claim: Claim) -> Vec<Unit<'static>> {
    crate::layout::GROWN
        .iter()
        .map(|(name, max, f)| Unit {
            label: format!("grown-{name}"),
            run: Box::new(move |c| {
                for n in crate::layout::sizes(*max) {
                    c.case(|| format!("{name}: {n}"), || judge_full(c, claim, &f(n).0));
                }
            }),
        })
        .collect()
}
