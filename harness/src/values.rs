//! Acts as values (not as text): every kind of element and annotation an act can consist of.
use crate::{choose::Chooser, doc};
use chrono::NaiveDate;
use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        ActIdentifier, ArticleIdentifier, NumericIdentifier,
    },
    reference::structural::{StructuralReference, StructuralReferenceElement as SRE, StructuralReferenceParent as SRP},
    semantic_info::{
        BlockAmendment as BA, EnforcementDate, EnforcementDateType as EDT, OutgoingReference, RepealReference, SemanticInfo,
        SpecialPhrase as SP, StructuralBlockAmendment as SBA, TextAmendment, TextAmendmentReference as TAR, TextAmendmentSAEPart as Part,
    },
    structure::*,
    util::indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE},
};

pub struct G<'a> {
    pub c: &'a mut Chooser,
    pub texts: &'a [&'a str],
    /// Whether to vary annotations (semantic information, changes, abbreviations).
    pub notes: bool,
    /// How deep amendments may hold amendments.
    pub depth: usize,
}

fn date(k: usize) -> NaiveDate {
    [(2023, 4, 5), (1, 1, 1), (9999, 12, 31), (2024, 2, 29)]
        .map(|(y, m, d)| NaiveDate::from_ymd_opt(y, m, d).unwrap())[k]
}
fn numeric(s: &str) -> NumericIdentifier {
    s.parse().unwrap()
}

impl G<'_> {
    pub fn text(&mut self) -> String {
        self.c.of(self.texts).to_string()
    }
    fn opt_text(&mut self) -> Option<String> {
        match self.c.pick(self.texts.len() + 1) {
            0 => None,
            k => Some(self.texts[k - 1].to_string()),
        }
    }
    fn opt_text_short(&mut self) -> Option<String> {
        // Presence only: used where the text itself is varied elsewhere.
        match self.c.pick(4) {
            0 => None,
            k => Some(self.texts[(k - 1) % self.texts.len()].to_string()),
        }
    }
    fn change(&mut self) -> Option<LastChange> {
        if !self.notes {
            return None;
        }
        let cause = match self.c.pick(5) {
            0 => return None,
            1 => ChangeCause::AutoRepeal,
            2 => ChangeCause::Amendment(doc::reference(true, "1_2_a_ab")),
            3 => ChangeCause::Other("ok".into()),
            _ => ChangeCause::Other(String::new()),
        };
        Some(LastChange { date: date(self.c.pick(4)), cause })
    }
    fn structural(&mut self) -> StructuralReference {
        let n = numeric("3/A");
        let a: ArticleIdentifier = "2:3/B".parse().unwrap();
        let e = match self.c.pick(13) {
            0 => SRE::Part(n),
            1 => SRE::Title(n),
            2 => SRE::Chapter(n),
            3 => SRE::SubtitleId(n),
            4 => SRE::SubtitleRange(IdentifierRange::from_range(n, numeric("5"))),
            5 => SRE::SubtitleTitle("null".into()),
            6 => SRE::SubtitleAfterArticle(a),
            7 => SRE::SubtitleBeforeArticle(a),
            8 => SRE::SubtitleBeforeArticleInclusive(a),
            9 => SRE::SubtitleUnknown,
            10 => SRE::Article(IdentifierRange::from_single(a)),
            11 => SRE::Article(IdentifierRange::from_range(a, 4.into())),
            _ => SRE::SubtitleRange(IdentifierRange::from_single(n)),
        };
        let parent = match self.c.pick(7) {
            0 => None,
            1 => Some(SRP::Part(n)),
            2 => Some(SRP::Title(n)),
            3 => Some(SRP::Chapter(n)),
            4 => Some(SRP::SubtitleId(n)),
            5 => Some(SRP::SubtitleRange(IdentifierRange::from_range(n, numeric("5")))),
            _ => Some(SRP::SubtitleTitle("- a".into())),
        };
        StructuralReference {
            act: self.c.yes().then_some(ActIdentifier { year: 1989, number: 20 }),
            book: self.c.yes().then_some(n),
            parent,
            structural_element: e,
            title_only: self.c.yes(),
        }
    }
    /// `text`: what references may point into.
    fn semantic(&mut self, text: &str) -> SemanticInfo {
        let mut s = SemanticInfo::default();
        if !self.notes {
            return s;
        }
        let b: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
        let at = |i: usize| b[i.min(b.len() - 1)];
        let or = |start: usize, end: usize, r: &str| OutgoingReference { start, end, reference: doc::reference(true, r) };
        s.outgoing_references = match self.c.pick(7) {
            0 => vec![],
            1 => vec![or(0, text.len(), "1")],
            2 => vec![or(at(1), at(3), "1_2"), or(at(4), at(6), "2_1_a-c")],
            3 => vec![or(at(0), at(2), "1-3"), or(at(2), at(4), "1__1_a")],
            4 => vec![or(at(2), text.len(), "1_2_a_1-3")],
            5 => vec![or(at(0), at(1), "1"), or(at(1), at(1), "1"), or(at(1), at(2), "2")],
            _ => (0..b.len().saturating_sub(1)).map(|i| or(b[i], b[i + 1], "1_2_a")).collect(),
        };
        for k in 0..self.c.pick(3) {
            let name = ["Ptk.", "null"][k].to_string();
            s.new_abbreviations.insert(name, ActIdentifier { year: 2013, number: 5 });
        }
        let r = || doc::reference(true, "3/A_2_b");
        s.special_phrase = match self.c.pick(11) {
            0 => None,
            1 => Some(SP::BlockAmendment(BA { position: r(), pure_insertion: self.c.yes() })),
            2 => Some(SP::StructuralBlockAmendment(SBA { position: self.structural(), pure_insertion: self.c.yes() })),
            3 => Some(SP::Repeal(vec![])),
            4 => Some(SP::Repeal(vec![RepealReference::Reference(r()), RepealReference::StructuralReference(self.structural())])),
            5 => Some(SP::TextAmendment(vec![])),
            k @ (6 | 7) => {
                let reference = match self.c.pick(5) {
                    0 => TAR::SAE { reference: r(), amended_part: Part::All },
                    1 => TAR::SAE { reference: r(), amended_part: Part::IntroOnly },
                    2 => TAR::SAE { reference: r(), amended_part: Part::WrapUpOnly },
                    3 => TAR::Structural(self.structural()),
                    _ => TAR::ArticleTitle(r()),
                };
                let mut v = vec![TextAmendment { reference, from: "mi".into(), to: String::new() }];
                if k == 7 {
                    v.push(v[0].clone());
                    v[1].to = "hova".into();
                }
                Some(SP::TextAmendment(v))
            }
            _ => {
                let date = match self.c.pick(7) {
                    0 => EDT::Date(date(0)),
                    1 => EDT::DaysAfterPublication(8),
                    2 => EDT::DaysAfterPublication(u16::MAX),
                    3 => EDT::DayInMonthAfterPublication { month: None, day: 1 },
                    4 => EDT::DayInMonthAfterPublication { month: Some(2), day: 15 },
                    5 => EDT::DayInMonthAfterPublication { month: Some(0), day: 0 },
                    _ => EDT::Date(self::date(2)),
                };
                let positions = (0..self.c.pick(3)).map(|_| r()).collect();
                let structural_positions = (0..self.c.pick(3)).map(|_| self.structural()).collect();
                Some(SP::EnforcementDate(EnforcementDate {
                    positions,
                    structural_positions,
                    is_default: self.c.yes(),
                    date,
                    inline_repeal: self.c.yes().then_some(self::date(1)),
                }))
            }
        };
        s
    }

    fn body<C: ChildrenCommon>(&mut self, children: Option<C>) -> (SAEBody<C>, SemanticInfo) {
        match children {
            None => {
                let t = self.text();
                let s = self.semantic(&t);
                (SAEBody::Text(t), s)
            }
            Some(children) => {
                let intro = self.text();
                let s = self.semantic(&intro);
                (SAEBody::Children { intro, children, wrap_up: self.opt_text() }, s)
            }
        }
    }
    fn sae<I: hun_law::identifier::IdentifierCommon, C: ChildrenCommon>(&mut self, identifier: I, children: Option<C>) -> SubArticleElement<I, C> {
        let (body, semantic_info) = self.body(children);
        SubArticleElement { identifier, body, semantic_info, last_change: self.change() }
    }
    /// Labels of a list: length, and where it starts.
    fn labels(&mut self, all: &[&'static str]) -> Vec<&'static str> {
        let n = [2, 1, 3, 0][self.c.pick(4)];
        let from = self.c.pick(all.len() - 2);
        all[from..].iter().copied().take(n).collect()
    }
    fn alpha_subpoints(&mut self) -> Vec<AlphabeticSubpoint> {
        let l = self.labels(&["aa", "ab", "ny", "ba", "zz"]);
        l.iter().map(|i| self.sae(i.parse().unwrap(), None)).collect()
    }
    fn num_subpoints(&mut self) -> Vec<NumericSubpoint> {
        let l = self.labels(&["1", "2", "2a", "65535zs", "0"]);
        l.iter().map(|i| self.sae(i.parse().unwrap(), None)).collect()
    }
    fn alpha_points(&mut self) -> Vec<AlphabeticPoint> {
        let l = self.labels(&["a", "b", "sz", "zs", "x"]);
        l.iter()
            .map(|i| {
                let ch = match self.c.pick(3) {
                    0 => None,
                    1 => Some(AlphabeticPointChildren::AlphabeticSubpoint(self.alpha_subpoints())),
                    _ => Some(AlphabeticPointChildren::NumericSubpoint(self.num_subpoints())),
                };
                self.sae(i.parse().unwrap(), ch)
            })
            .collect()
    }
    fn num_points(&mut self) -> Vec<NumericPoint> {
        let l = self.labels(&["1", "2", "10", "10a", "12/B"]);
        l.iter()
            .map(|i| {
                let ch = match self.c.pick(2) {
                    0 => None,
                    _ => Some(NumericPointChildren::AlphabeticSubpoint(self.alpha_subpoints())),
                };
                self.sae(i.parse().unwrap(), ch)
            })
            .collect()
    }
    fn quoted_line(&mut self) -> IndentedLine {
        let text = match self.c.pick(self.texts.len() + 1) {
            0 => "7. § Idézet.".to_string(),
            k => self.texts[k - 1].to_string(),
        };
        if text.is_empty() {
            return EMPTY_LINE;
        }
        let dx = [5.0, 5.400000095367432, 0.1, 1.0 / 3.0, -2.5, 12345.678][self.c.pick(6)];
        let indent = [20.0, 0.0, 93.45600128173828, 1e-7, 70.5][self.c.pick(5)];
        let bold = self.c.pick(4);
        let just = self.c.yes();
        IndentedLine::from_parts(
            text.chars()
                .enumerate()
                .map(|(i, content)| IndentedLinePart {
                    dx: if i == 0 { indent } else { dx },
                    content,
                    bold: bold == 1 || (bold == 2 && i % 2 == 0) || (bold == 3 && i == 0),
                })
                .collect(),
            just,
        )
    }
    fn quoted(&mut self) -> QuotedBlock {
        let n = [2, 1, 0, 3][self.c.pick(4)];
        QuotedBlock {
            intro: self.opt_text_short(),
            lines: (0..n).map(|_| self.quoted_line()).collect(),
            wrap_up: self.opt_text_short(),
        }
    }
    fn paragraph(&mut self, id: Option<&str>) -> Paragraph {
        let kinds = if self.depth > 0 { 10 } else { 3 };
        let ch = match self.c.pick(kinds) {
            0 => None,
            1 => Some(ParagraphChildren::AlphabeticPoint(self.alpha_points())),
            2 => Some(ParagraphChildren::NumericPoint(self.num_points())),
            3 => {
                let n = [1, 2, 0][self.c.pick(3)];
                Some(ParagraphChildren::QuotedBlock((0..n).map(|_| self.quoted()).collect()))
            }
            4 => {
                self.depth -= 1;
                let n = [2, 1, 0, 3][self.c.pick(4)];
                let mut children: Vec<ActChild> = vec![];
                for k in 0..n {
                    let c = self.child(k + 4);
                    children.push(c);
                }
                self.depth += 1;
                Some(ParagraphChildren::StructuralBlockAmendment(StructuralBlockAmendment {
                    intro: self.opt_text_short(),
                    children,
                    wrap_up: self.opt_text_short(),
                }))
            }
            k => {
                self.depth -= 1;
                let children = match k {
                    5 => {
                        let l = self.labels(&["3", "4", "4a", "5"]);
                        BlockAmendmentChildren::Paragraph(l.iter().map(|i| self.paragraph(Some(i))).collect())
                    }
                    6 => BlockAmendmentChildren::AlphabeticPoint(self.alpha_points()),
                    7 => BlockAmendmentChildren::NumericPoint(self.num_points()),
                    8 => BlockAmendmentChildren::AlphabeticSubpoint(self.alpha_subpoints()),
                    _ => BlockAmendmentChildren::NumericSubpoint(self.num_subpoints()),
                };
                self.depth += 1;
                Some(ParagraphChildren::BlockAmendment(BlockAmendment {
                    intro: self.opt_text_short(),
                    children,
                    wrap_up: self.opt_text_short(),
                }))
            }
        };
        let identifier = match id {
            Some(i) => i.parse().unwrap(),
            None => Default::default(),
        };
        self.sae(identifier, ch)
    }
    fn article(&mut self, n: usize) -> Article {
        let id = match self.c.pick(5) {
            0 => (n + 1).to_string(),
            1 => format!("{}/ZS", n + 1),
            2 => format!("2:{}", n + 1),
            3 => format!("255:{}/A", 65530 + n % 6),
            _ => format!("{}", n + 1000),
        };
        let title = self.opt_text_short();
        let children = match self.c.pick(5) {
            0 => vec![self.paragraph(None)],
            1 => vec![self.paragraph(Some("1")), self.paragraph(Some("2"))],
            2 => vec![],
            3 => vec![self.paragraph(Some("3b")), self.paragraph(Some("12")), self.paragraph(Some("65535"))],
            _ => vec![self.paragraph(None), self.paragraph(None)],
        };
        Article { identifier: id.parse().unwrap(), title, children, last_change: self.change() }
    }
    fn child(&mut self, n: usize) -> ActChild {
        match self.c.pick(8) {
            0 => self.article(n).into(),
            1 => Subtitle { identifier: None, title: self.text(), last_change: self.change() }.into(),
            2 => {
                let id = ["1", "12a", "0"][self.c.pick(3)];
                Subtitle { identifier: Some(numeric(id)), title: self.text(), last_change: self.change() }.into()
            }
            k => {
                let element_type = match k {
                    3 => StructuralElementType::Book,
                    4 => StructuralElementType::Part { is_special: false },
                    5 => StructuralElementType::Part { is_special: true },
                    6 => StructuralElementType::Title,
                    _ => StructuralElementType::Chapter,
                };
                let id = ["1", "2", "3", "11/A", "1000"][self.c.pick(5)];
                StructuralElement { identifier: numeric(id), title: self.text(), element_type, last_change: self.change() }.into()
            }
        }
    }
    pub fn act(&mut self) -> Act {
        let (year, number) = [(2023, 13), (1, 1), (i16::MAX, 3999), (2013, 5), (1867, 4000)][self.c.pick(5)];
        let subject = self.text();
        let preamble = self.text();
        let publication_date = date(self.c.pick(4));
        let n = [1, 2, 0, 3][self.c.pick(4)];
        let children = (0..n).map(|k| self.child(k)).collect();
        let mut contained_abbreviations = std::collections::BTreeMap::new();
        if self.notes {
            for k in 0..self.c.pick(3) {
                contained_abbreviations.insert(["Ptk.", "~"][k].to_string(), ActIdentifier { year: 2013, number: 5 });
            }
        }
        Act { identifier: ActIdentifier { year, number }, subject, preamble, publication_date, contained_abbreviations, children }
    }
}

/// One dimension of an act at a time grown large.
pub const GROWN: &[(&str, usize)] = &[
    ("articles", 1100),
    ("paragraphs", 1100),
    ("numeric points", 1100),
    ("alphabetic points", 40),
    ("numeric subpoints", 300),
    ("alphabetic subpoints", 400),
    ("words", 1100),
    ("letters", 700),
    ("references", 400),
    ("quoted lines", 600),
    ("quoted blocks", 300),
    ("amended paragraphs", 300),
    ("amended points", 300),
    ("amended articles", 300),
    ("subtitles", 300),
    ("chapters", 300),
    ("abbreviations", 300),
    ("changes", 300),
    ("text amendments", 300),
    ("indentation", 300),
];

pub fn grown(kind: &str, n: usize) -> Act {
    fn sae<I: hun_law::identifier::IdentifierCommon, C: ChildrenCommon>(id: I, body: SAEBody<C>) -> SubArticleElement<I, C> {
        SubArticleElement { identifier: id, body, semantic_info: Default::default(), last_change: None }
    }
    fn text<C: ChildrenCommon>(t: impl ToString) -> SAEBody<C> {
        SAEBody::Text(t.to_string())
    }
    fn list<C: ChildrenCommon>(children: impl Into<C>) -> SAEBody<C> {
        SAEBody::Children { intro: "A következők:".into(), children: children.into(), wrap_up: Some("azok.".into()) }
    }
    let par = |k: usize, body: SAEBody<ParagraphChildren>| -> Paragraph { sae((k as u16).into(), body) };
    let art = |k: usize, children: Vec<Paragraph>| -> ActChild { Article { identifier: (k as u16).into(), title: None, children, last_change: None }.into() };
    let last = |k: usize| art(k, vec![sae(Default::default(), text("Az utolsó."))]);
    let numbers = |n: usize| -> Vec<NumericPoint> { (1..=n).map(|i| sae((i as u16).into(), text(format!("szám {i}")))).collect() };
    // Every letter, single or double, that can stand alone.
    let letters: Vec<String> = {
        let a = || 'a'..='z';
        let all: Vec<String> = a().map(String::from).chain(a().flat_map(|x| a().map(move |y| format!("{x}{y}")))).collect();
        all.into_iter().filter(|s| s.parse::<hun_law::identifier::AlphabeticIdentifier>().is_ok()).collect()
    };
    let word = |i: usize| ["alma", "körte,", "és", "barack", "elő-", "adó", "(zárójel)", "„idézet”", "a", "fogyasztóvédelmi"][i % 10];
    let words = |n: usize| (0..n).map(word).collect::<Vec<_>>().join(" ");
    let mut act = doc::act("A bevezetés.", vec![]);
    act.children = match kind {
        "articles" => (1..=n).map(|i| art(i, vec![sae(Default::default(), text(format!("szöveg {i}")))])).collect(),
        "paragraphs" => vec![art(1, (1..=n).map(|i| par(i, text(format!("szöveg {i}")))).collect()), last(2)],
        "numeric points" => vec![art(1, vec![par(1, list(numbers(n))), par(2, text("szöveg"))]), last(2)],
        "alphabetic points" => {
            let v: Vec<AlphabeticPoint> = letters.iter().take(n).map(|i| sae(i.parse().unwrap(), text(format!("betű {i}")))).collect();
            vec![art(1, vec![par(1, list(v)), par(2, text("szöveg"))]), last(2)]
        }
        "numeric subpoints" | "alphabetic subpoints" => {
            let points: Vec<AlphabeticPoint> = ["a", "b"]
                .iter()
                .map(|p| {
                    let ch: AlphabeticPointChildren = if kind == "numeric subpoints" {
                        (1..=n).map(|i| sae((i as u16).into(), text(format!("szám {i}")))).collect::<Vec<NumericSubpoint>>().into()
                    } else {
                        let two: Vec<&String> = letters.iter().filter(|l| l.len() == 2 && l.parse::<hun_law::identifier::PrefixedAlphabeticIdentifier>().is_ok()).collect();
                        let ids: Vec<String> = (0..n).map(|i| two.get(i).map_or_else(|| format!("{p}{}", letters[i % 26]), |s| s.to_string())).collect();
                        let v: Vec<AlphabeticSubpoint> = ids.iter().filter_map(|i| Some(sae(i.parse().ok()?, text(format!("betű {i}"))))).collect();
                        v.into()
                    };
                    sae(p.parse().unwrap(), list(ch))
                })
                .collect();
            vec![art(1, vec![par(1, list(points)), par(2, text("szöveg"))]), last(2)]
        }
        "words" => {
            act.preamble = words(n);
            act.subject = "a szavakról".into();
            let t = words(n);
            let v: Vec<AlphabeticPoint> = vec![sae(
                "a".parse().unwrap(),
                SAEBody::Children { intro: t.clone(), children: vec![sae("ab".parse().unwrap(), text(&t)) as AlphabeticSubpoint].into(), wrap_up: Some(t.clone()) },
            )];
            let mut a = Article { identifier: 1.into(), title: Some(t.clone()), children: vec![], last_change: None };
            a.children.push(par(1, text(&t)));
            a.children.push(par(2, SAEBody::Children { intro: t.clone(), children: v.into(), wrap_up: Some(t.clone()) }));
            vec![Subtitle { identifier: Some(1.into()), title: t.clone(), last_change: None }.into(), a.into(), last(2)]
        }
        "letters" => {
            let t = "á".repeat(n);
            vec![
                Subtitle { identifier: None, title: t.clone(), last_change: None }.into(),
                art(1, vec![par(1, text(&t)), par(2, text(format!("{t} {t}")))]),
                last(2),
            ]
        }
        "references" => {
            let t = words(2 * n + 1);
            let mut p = par(1, text(&t));
            let mut at = 0;
            for i in 0..n {
                // Every second word is one.
                let start = at + word(2 * i).len() + 1;
                let end = start + word(2 * i + 1).len();
                p.semantic_info.outgoing_references.push(OutgoingReference { start, end, reference: doc::reference(true, &format!("{}_2_a", i + 1)) });
                at = end + 1;
            }
            vec![art(1, vec![p, par(2, text("szöveg"))]), last(2)]
        }
        "quoted lines" | "indentation" => {
            let lines: Vec<IndentedLine> = if kind == "indentation" {
                vec![doc::line(20.0, "első sor", false, true), doc::line(20.0 + n as f64 * 2.5, "beljebb", false, true), doc::line(20.0, "utolsó", false, true)]
            } else {
                (0..n).map(|i| doc::line(20.0 + (i % 4) as f64 * 15.0, &format!("{i}. idézett sor"), i % 5 == 0, i % 3 == 0)).collect()
            };
            let b = QuotedBlock { intro: Some("elé".into()), lines, wrap_up: Some("utána".into()) };
            vec![art(1, vec![par(1, list(vec![b]))]), last(2)]
        }
        "quoted blocks" => {
            let b: Vec<QuotedBlock> =
                (0..n).map(|i| QuotedBlock { intro: None, lines: vec![doc::line(20.0, &format!("{i}. idézet"), false, true)], wrap_up: None }).collect();
            vec![art(1, vec![par(1, list(b))]), last(2)]
        }
        "amended paragraphs" | "amended points" => {
            let children = if kind == "amended points" {
                BlockAmendmentChildren::NumericPoint(numbers(n))
            } else {
                BlockAmendmentChildren::Paragraph((1..=n).map(|i| par(i, text(format!("szöveg {i}")))).collect())
            };
            let b = ParagraphChildren::BlockAmendment(BlockAmendment { intro: Some("elé".into()), children, wrap_up: Some("utána".into()) });
            vec![art(1, vec![par(1, SAEBody::Children { intro: "lép:".into(), children: b, wrap_up: None })]), last(2)]
        }
        "amended articles" => {
            let children = (1..=n).map(|i| art(i, vec![sae(Default::default(), text(format!("szöveg {i}")))])).collect();
            let b = ParagraphChildren::StructuralBlockAmendment(StructuralBlockAmendment { intro: None, children, wrap_up: None });
            vec![art(1, vec![par(1, SAEBody::Children { intro: "lép:".into(), children: b, wrap_up: None })]), last(2)]
        }
        "subtitles" => (1..=n)
            .flat_map(|i| {
                [
                    Subtitle { identifier: (i % 2 == 0).then_some((i as u16).into()), title: format!("Alcím {i}"), last_change: None }.into(),
                    art(i, vec![sae(Default::default(), text("szöveg"))]),
                ]
            })
            .collect(),
        "chapters" => (1..=n)
            .map(|i| StructuralElement { identifier: (i as u16).into(), title: format!("Fejezet {i}"), element_type: StructuralElementType::Chapter, last_change: None }.into())
            .chain([last(1)])
            .collect(),
        "abbreviations" => {
            let mut p = par(1, text("szöveg"));
            for i in 0..n {
                let id = ActIdentifier { year: 2000 + (i % 20) as i16, number: (1 + i) as _ };
                act.contained_abbreviations.insert(format!("Törv. {i}"), id);
                p.semantic_info.new_abbreviations.insert(format!("Rövid {i}"), id);
            }
            vec![art(1, vec![p]), last(2)]
        }
        "changes" => {
            let mut v: Vec<Paragraph> = (1..=n).map(|i| par(i, text("szöveg"))).collect();
            for (i, p) in v.iter_mut().enumerate() {
                let cause = if i % 2 == 0 { ChangeCause::AutoRepeal } else { ChangeCause::Amendment(doc::reference(true, &format!("{}_1", i + 1))) };
                p.last_change = Some(LastChange { date: date(i % 4), cause });
            }
            vec![art(1, v), last(2)]
        }
        _ => {
            let mut p = par(1, text("szöveg"));
            p.semantic_info.special_phrase = Some(SP::TextAmendment(
                (0..n)
                    .map(|i| TextAmendment {
                        reference: TAR::SAE { reference: doc::reference(true, &format!("{}_1", i + 1)), amended_part: Part::All },
                        from: format!("mi {i}"),
                        to: format!("mivé {i}"),
                    })
                    .collect(),
            ));
            vec![art(1, vec![p]), last(2)]
        }
    };
    act
}
