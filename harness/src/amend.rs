//! C13: a block amendment is converted to exactly the elements its quoted text spells out.
use crate::{
    check,
    choose::{self, Chooser},
    core::{Ctx, Tier, Unit},
    doc::{self, act, join, line, show},
    layout::first_difference,
    quotes::{article, par, sae, text, with},
    texts::{num, show_position, Position},
};
use hun_law::{
    identifier::range::{IdentifierRange, IdentifierRangeFrom},
    reference::structural::{StructuralReference, StructuralReferenceElement as SRE, StructuralReferenceParent as SRP},
    semantic_info::{self, EnforcementDate, EnforcementDateType, SemanticInfo, SpecialPhrase},
    structure::*,
    util::indentedline::IndentedLine,
};

/// Running texts; all lines but the last reach the margin.
const TEXTS: &[&[&str]] = &[
    &["szöveg,"],
    &["szöveg", "folytatása,"],
    &["alma-", "körte,"],
    &["szó", "szó", "szó", "szó"],
    &["az „idézett", "(3) Szöveg.", "6. § Szöveg.", "c) szöveg,", "3. szöveg,", "bb) szöveg” szó."],
    &["az", "(3) bekezdése,", "c) pontja, a", "6. §-a és a", "3. alpontja szerint,"],
];

struct B<'a> {
    c: &'a mut Chooser,
    lines: Vec<IndentedLine>,
}

impl B<'_> {
    fn put(&mut self, s: &str, just: bool) {
        self.lines.push(line(20.0, s, false, just));
    }
    fn texts(&mut self, head: &str, t: &[&str]) -> String {
        for (i, l) in t.iter().enumerate() {
            let s = if i == 0 { format!("{head}{l}") } else { l.to_string() };
            self.put(&s, i + 1 < t.len());
        }
        join(t)
    }
    fn text(&mut self, head: &str) -> String {
        let t = self.c.of(TEXTS);
        self.texts(head, t)
    }
    /// The closing text of a list: always one full line, or one and a half.
    fn wrap_up(&mut self) -> Option<String> {
        match self.c.pick(4) {
            0 => None,
            1 => Some(self.texts("", &["a záró szöveg,"])),
            3 => Some(self.texts("", &["a záró-", "szöveg,"])),
            _ => Some(self.texts("", &["a záró", "szöveg második sora,"])),
        }
    }
    fn count(&mut self, options: &[usize]) -> usize {
        self.c.of(options)
    }
    fn subpoints_alpha(&mut self, ids: &[&str]) -> Vec<AlphabeticSubpoint> {
        ids.iter()
            .map(|i| {
                let t = self.text(&format!("{i}) "));
                sae(i, text(t))
            })
            .collect()
    }
    fn subpoints_num(&mut self, ids: &[&str]) -> Vec<NumericSubpoint> {
        ids.iter()
            .map(|i| {
                let t = self.text(&format!("{i}. "));
                sae(i, text(t))
            })
            .collect()
    }
    /// Returns whether a later text would still be read as this point's.
    fn point_alpha(&mut self, id: &str) -> (AlphabeticPoint, bool) {
        // Subpoints of points lettered with a digraph can only be numbered.
        let kinds: &[usize] = if id.len() == 1 { &[0, 1, 2] } else { &[0, 2] };
        match self.c.of(kinds) {
            0 => (sae(id, { let t = self.text(&format!("{id}) ")); text(t) }), false),
            k => {
                let t = self.c.of(&[&["bevezető:"][..], &["bevezető", "szöveg:"]]);
                let intro = self.texts(&format!("{id}) "), t);
                let n = self.count(&[2, 3]);
                let children: AlphabeticPointChildren = if k == 1 {
                    let ids: Vec<String> = ["a", "b", "c"][..n].iter().map(|x| format!("{id}{x}")).collect();
                    let ids: Vec<&str> = ids.iter().map(String::as_str).collect();
                    self.subpoints_alpha(&ids).into()
                } else {
                    self.subpoints_num(&["1", "2", "3"][..n]).into()
                };
                let w = self.wrap_up();
                let open = w.is_none();
                (sae(id, with(&intro, children, w.as_deref())), open)
            }
        }
    }
    fn point_num(&mut self, id: &str) -> (NumericPoint, bool) {
        match self.c.pick(2) {
            0 => (sae(id, { let t = self.text(&format!("{id}. ")); text(t) }), false),
            _ => {
                let intro = self.texts(&format!("{id}. "), &["bevezető:"]);
                let n = self.count(&[2, 3]);
                let children: NumericPointChildren = self.subpoints_alpha(&["a", "b", "c"][..n]).into();
                let w = self.wrap_up();
                let open = w.is_none();
                (sae(id, with(&intro, children, w.as_deref())), open)
            }
        }
    }
    fn par_body(&mut self, head: &str) -> SAEBody<ParagraphChildren> {
        match self.c.pick(4) {
            0 => text(self.text(head)),
            k @ (1 | 2) => {
                let t = self.c.of(&[&["Bevezető:"][..], &["Bevezető", "szöveg:"]]);
                let intro = self.texts(head, t);
                let n = self.count(&[2, 3]);
                let mut open = false;
                let children: ParagraphChildren = if k == 1 {
                    let v: Vec<_> = ["a", "b", "c"][..n]
                        .iter()
                        .map(|i| {
                            let (p, o) = self.point_alpha(i);
                            open = o;
                            p
                        })
                        .collect();
                    v.into()
                } else {
                    let v: Vec<_> = ["1", "2", "3"][..n]
                        .iter()
                        .map(|i| {
                            let (p, o) = self.point_num(i);
                            open = o;
                            p
                        })
                        .collect();
                    v.into()
                };
                // Right after subpoints a closing text is theirs.
                let w = if open { None } else { self.wrap_up() };
                with(&intro, children, w.as_deref())
            }
            _ => {
                let intro = self.texts(head, &["Bevezető:"]);
                let (a, b) = self.c.of(&[("(3) Idézett.", "6. § Idézett."), ("idézett", "a) szöveg,")]);
                self.put(&format!("„{a}"), true);
                self.put(&format!("{b}”"), true);
                let lines = vec![line(25.0, a, false, true), line(20.0, b, false, false)];
                with(&intro, vec![QuotedBlock { intro: None, lines, wrap_up: None }].into(), None)
            }
        }
    }
    fn paragraph(&mut self, id: &str, head: &str) -> Paragraph {
        let body = self.par_body(&format!("{head}({id}) "));
        par(id, body)
    }
    fn article(&mut self, id: &str) -> ActChild {
        let mut head = format!("{id}{}", self.c.of(&[". § ", ".§ "]));
        let title = match self.c.pick(3) {
            0 => None,
            1 => {
                self.put(&format!("{head}[Cím]"), false);
                Some("Cím".to_string())
            }
            _ => {
                self.put(&format!("{head}[Hosszú"), true);
                self.put("cím]", false);
                Some("Hosszú cím".to_string())
            }
        };
        if title.is_some() {
            head = String::new();
        }
        let children = match self.c.pick(3) {
            0 => vec![par("", self.par_body(&head))],
            n => (0..n + 1).map(|i| self.paragraph(&(i + 1).to_string(), if i == 0 { &head } else { "" })).collect(),
        };
        Article { identifier: id.parse().unwrap(), title, children, last_change: None }.into()
    }
    fn subtitle(&mut self) -> ActChild {
        let (head, id) = self.c.of(&[("3. ", Some("3")), ("3/A. ", Some("3a")), ("", None)]);
        let long = self.c.yes();
        self.lines.push(line(60.0, &format!("{head}Új alcím"), true, false));
        if long {
            self.lines.push(line(60.0, "második sora", true, false));
        }
        Subtitle {
            identifier: id.map(num),
            title: if long { "Új alcím második sora".into() } else { "Új alcím".to_string() },
            last_change: None,
        }
        .into()
    }
    fn structural(&mut self, k: usize) -> ActChild {
        let (element_type, header) = [
            (StructuralElementType::Chapter, "II. FEJEZET"),
            (StructuralElementType::Part { is_special: false }, "MÁSODIK RÉSZ"),
            (StructuralElementType::Title, "II. CÍM"),
            (StructuralElementType::Book, "MÁSODIK KÖNYV"),
            (StructuralElementType::Part { is_special: true }, "KÜLÖNÖS RÉSZ"),
        ][k];
        self.lines.push(line(60.0, header, false, false));
        let title = match self.c.pick(3) {
            0 => String::new(),
            1 => {
                self.lines.push(line(60.0, "ÚJ CÍM", false, false));
                "ÚJ CÍM".into()
            }
            _ => {
                self.lines.push(line(60.0, "ÚJ", false, false));
                self.lines.push(line(60.0, "HOSSZÚ CÍM", false, false));
                "ÚJ HOSSZÚ CÍM".into()
            }
        };
        StructuralElement { identifier: num("2"), title, element_type, last_change: None }.into()
    }
}

pub struct Doc {
    position: Position,
    lines: Vec<IndentedLine>,
    /// None: must be refused
    children: Option<ParagraphChildren>,
    intro: Option<&'static str>,
    wrap_up: Option<&'static str>,
    pure_insertion: bool,
}

fn sr(e: SRE, title_only: bool, parent: Option<SRP>) -> Position {
    Position::S(StructuralReference { act: None, book: None, parent, structural_element: e, title_only })
}
fn arts(a: &str, b: &str) -> SRE {
    SRE::Article(IdentifierRange::from_range(a.parse().unwrap(), b.parse().unwrap()))
}

fn generate(c: &mut Chooser, kind: usize) -> Doc {
    let mut b = B { c, lines: vec![] };
    let intro = b.c.of(&[None, Some("A bevezető")]);
    let wrap_up = b.c.of(&[None, Some("a záró")]);
    let pure_insertion = b.c.yes();
    enum Out {
        B(BlockAmendmentChildren),
        S(Vec<ActChild>),
        Refused,
    }
    let r = |s: &str| Position::R(doc::reference(true, s));
    let (position, out) = match kind {
        // Paragraphs
        0 => {
            let ids = b.c.of(&[&["2"][..], &["2", "3"], &["2", "2a"], &["2", "3", "4"], &["2a"], &["2a", "2b", "3"], &["1", "2"]]);
            let art = b.c.of(&["5", "5/A", "2:5", "112", "10:1234/Z"]);
            let head = if b.c.yes() { format!("{art}. § ") } else { String::new() };
            let head = head.as_str();
            let range = b.c.yes();
            let v: Vec<Paragraph> = ids.iter().enumerate().map(|(i, id)| b.paragraph(id, if i == 0 { head } else { "" })).collect();
            let p = if range { r(&format!("{art}_{}-{}", ids[0], ids[ids.len() - 1])) } else { r(&format!("{art}_{}", ids[0])) };
            (p, Out::B(v.into()))
        }
        // Alphabetic points
        1 => {
            let ids = b.c.of(&[&["b"][..], &["b", "c"], &["a", "b"], &["c", "cs"], &["g", "gy", "h"], &["zs"]]);
            let upto = if b.c.yes() { format!("-{}", ids[ids.len() - 1]) } else { String::new() };
            let v: Vec<AlphabeticPoint> = ids.iter().map(|i| b.point_alpha(i).0).collect();
            let p = b.c.of(&["5_2_", "5__"]);
            (r(&format!("{p}{}{upto}", ids[0])), Out::B(v.into()))
        }
        // Numeric points
        2 => {
            let ids = b.c.of(&[&["2"][..], &["2", "3"], &["1", "2"], &["2", "2a"], &["2a", "2b"], &["10", "11", "12"]]);
            let upto = if b.c.yes() { format!("-{}", ids[ids.len() - 1]) } else { String::new() };
            let v: Vec<NumericPoint> = ids.iter().map(|i| b.point_num(i).0).collect();
            let p = b.c.of(&["5_2_", "5__"]);
            (r(&format!("{p}{}{upto}", ids[0])), Out::B(v.into()))
        }
        // Subpoints
        3 => {
            let (p, ids) = b.c.of(&[
                ("5_2_b_", &["ba"][..]),
                ("5_2_b_", &["bb", "bc"]),
                ("5__b_", &["ba", "bb", "bc"]),
                ("5_2_1_", &["a", "b"]),
                ("5_2_1_", &["b"]),
                ("5_2_c_", &["cc", "cd"]),
            ]);
            let upto = if b.c.yes() { format!("-{}", ids[ids.len() - 1]) } else { String::new() };
            let v = b.subpoints_alpha(ids);
            (r(&format!("{p}{}{upto}", ids[0])), Out::B(v.into()))
        }
        4 => {
            let ids = b.c.of(&[&["1"][..], &["2", "3"], &["1", "2", "3"], &["2", "2a", "3"]]);
            let upto = if b.c.yes() { format!("-{}", ids[ids.len() - 1]) } else { String::new() };
            let v = b.subpoints_num(ids);
            (r(&format!("5_2_b_{}{upto}", ids[0])), Out::B(v.into()))
        }
        // Articles
        5 => {
            let ids = b.c.of(&[&["5"][..], &["5", "6"], &["5/A"], &["5", "5/A", "6"], &["2:5", "2:6"]]);
            let last = if b.c.yes() { ids[ids.len() - 1] } else { ids[0] };
            let v: Vec<ActChild> = ids.iter().map(|i| b.article(i)).collect();
            (sr(arts(ids[0], last), false, None), Out::S(v))
        }
        // Whole structural elements
        6 => {
            let k = b.c.pick(5);
            let mut v = vec![b.structural(k)];
            match b.c.pick(4) {
                0 => v.push(b.article("5")),
                1 => {
                    v.push(b.subtitle());
                    v.push(b.article("5"));
                }
                2 => {
                    v.push(b.article("5"));
                    v.push(b.article("6"));
                }
                _ => {
                    v.push(b.article("5"));
                    v.push(b.subtitle());
                    v.push(b.article("5/A"));
                }
            }
            let e = [SRE::Chapter(num("2")), SRE::Part(num("2")), SRE::Title(num("2")), SRE::Part(num("2")), SRE::Part(num("2"))][k].clone();
            (sr(e, false, None), Out::S(v))
        }
        7 => {
            let mut v = vec![b.subtitle()];
            let e = match b.c.pick(6) {
                0 => SRE::SubtitleId(num("3")),
                1 => SRE::SubtitleTitle("Új alcím".into()),
                2 => SRE::SubtitleAfterArticle("4".parse().unwrap()),
                3 => SRE::SubtitleBeforeArticleInclusive("5".parse().unwrap()),
                4 => SRE::SubtitleRange(IdentifierRange::from_range(num("3"), num("4"))),
                _ => SRE::SubtitleUnknown,
            };
            let parent = b.c.of(&[None, Some(SRP::Chapter(num("1")))]);
            v.push(b.article("5"));
            if b.c.yes() {
                v.push(b.article("6"));
            }
            (sr(e, false, parent), Out::S(v))
        }
        // Titles only
        8 => {
            let k = b.c.pick(3);
            let e = [SRE::Chapter(num("2")), SRE::Part(num("2")), SRE::Title(num("2"))][k].clone();
            let element = if b.c.yes() {
                b.structural(k)
            } else {
                let element_type =
                    [StructuralElementType::Chapter, StructuralElementType::Part { is_special: false }, StructuralElementType::Title][k];
                let long = b.c.yes();
                b.lines.push(line(60.0, "ÚJ CÍM", false, false));
                if long {
                    b.lines.push(line(60.0, "FOLYTATÁSA", false, false));
                }
                let title = if long { "ÚJ CÍM FOLYTATÁSA" } else { "ÚJ CÍM" }.to_string();
                StructuralElement { identifier: num("2"), title, element_type, last_change: None }.into()
            };
            (sr(e, true, None), Out::S(vec![element]))
        }
        9 => {
            let e = match b.c.pick(4) {
                0 => SRE::SubtitleId(num("3")),
                1 => SRE::SubtitleTitle("Régi alcím".into()),
                2 => SRE::SubtitleAfterArticle("4".parse().unwrap()),
                _ => SRE::SubtitleBeforeArticle("5".parse().unwrap()),
            };
            let v = vec![b.subtitle()];
            (sr(e, true, None), Out::S(v))
        }
        // The quoted text is not what the amendment says: refused
        10 => {
            let p = b.c.of(&["5_3", "5_2a", "5_1-3", "5_2_b", "5_2_2", "5_2_b_ba", "5", ""]);
            b.paragraph("2", "");
            (r(p), Out::Refused)
        }
        11 => {
            let p = b.c.of(&["5_2_c", "5_2_a-b", "5_2_2", "5_1", "5_2_b_ba", "5_2_b_1", "5"]);
            b.point_alpha("b");
            (r(p), Out::Refused)
        }
        12 => {
            let p = b.c.of(&["5_2_3", "5_2_1-2", "5_2_b", "5_2", "5_2_b_1", "5_2_2_b"]);
            b.point_num("2");
            (r(p), Out::Refused)
        }
        13 => {
            let p = b.c.of(&["5_2_b_bc", "5_2_b_ba", "5_2_c_cb", "5_2_b_2", "5_2_1_b", "5_2_2"]);
            b.subpoints_alpha(&["bb"]);
            (r(p), Out::Refused)
        }
        14 => {
            let e = b.c.of(&[("6", "6"), ("4", "5"), ("5/A", "5/A"), ("1:5", "1:5")]);
            b.article("5");
            (sr(arts(e.0, e.1), false, None), Out::Refused)
        }
        // A title-only amendment of a subtitle that is no subtitle
        15 => {
            b.article("5");
            (sr(SRE::SubtitleId(num("3")), true, None), Out::Refused)
        }
        // Junk before a structural amendment
        16 => {
            b.put("szöveg,", false);
            b.structural(0);
            b.article("5");
            (sr(SRE::Chapter(num("2")), false, None), Out::Refused)
        }
        _ => unreachable!(),
    };
    let own = |s: Option<&str>| s.map(str::to_string);
    let children = match out {
        Out::B(children) => Some(BlockAmendment { intro: own(intro), children, wrap_up: own(wrap_up) }.into()),
        Out::S(children) => Some(StructuralBlockAmendment { intro: own(intro), children, wrap_up: own(wrap_up) }.into()),
        Out::Refused => None,
    };
    Doc { position, lines: b.lines, children, intro, wrap_up, pure_insertion }
}

const KINDS: usize = 17;

/// The amendment among other things, most of which look like one.
fn whole(d: &Doc, amendment: ParagraphChildren) -> Act {
    let phrase = |p: &Position| -> SpecialPhrase {
        match p.clone() {
            Position::R(position) => {
                semantic_info::BlockAmendment { position, pure_insertion: d.pure_insertion }.into()
            }
            Position::S(position) => {
                semantic_info::StructuralBlockAmendment { position, pure_insertion: d.pure_insertion }.into()
            }
        }
    };
    let info = |p: Option<SpecialPhrase>| SemanticInfo { special_phrase: p, ..Default::default() };
    let quoted = || QuotedBlock { intro: d.intro.map(str::to_string), lines: d.lines.clone(), wrap_up: d.wrap_up.map(str::to_string) };
    let p = |id: &str, children: ParagraphChildren, sp: Option<SpecialPhrase>| {
        let mut p = par(id, with("A tv. helyébe:", children, Some("lép.")));
        p.semantic_info = info(sp);
        p
    };
    let date = EnforcementDate {
        positions: vec![],
        structural_positions: vec![],
        is_default: true,
        date: EnforcementDateType::DaysAfterPublication(3),
        inline_repeal: None,
    };
    let mut plain = par("5", text("Szöveg."));
    plain.semantic_info = info(Some(phrase(&d.position)));
    act(
        "Bevezetés",
        vec![
            article(
                "1",
                vec![
                    par("1", text("Szöveg.")),
                    p("2", amendment, Some(phrase(&d.position))),
                    p("3", vec![quoted()].into(), None),
                    p("4", vec![quoted(), quoted()].into(), Some(phrase(&d.position))),
                    plain,
                ],
            ),
            article("2", vec![p("", vec![quoted()].into(), Some(date.into()))]),
        ],
    )
}

fn judge(c: &Ctx, choices: &[usize], d: &Doc) {
    c.case(
        || format!("{choices:?}: amendment of {}: {}", show_position(&d.position), show(&d.lines)),
        || {
            c.steps(d.lines.len() as u64);
            let quoted = QuotedBlock {
                intro: d.intro.map(str::to_string),
                lines: d.lines.clone(),
                wrap_up: d.wrap_up.map(str::to_string),
            };
            let mut got = whole(d, vec![quoted].into());
            let r = got.convert_block_amendments();
            c.validated();
            match (&d.children, r) {
                (None, Err(_)) => Ok(()),
                (None, Ok(())) => Err(format!("accepted as {}", first_difference(&got, &act("Bevezetés", vec![])))),
                (Some(_), Err(e)) => Err(format!("refused: {e:#}")),
                (Some(children), Ok(())) => {
                    let want = whole(d, children.clone());
                    check!(got == want, "{}", first_difference(&got, &want));
                    Ok(())
                }
            }
        },
    );
}

/// A document without the frills.
fn simple(position: Position, lines: Vec<IndentedLine>, children: ParagraphChildren) -> Doc {
    Doc { position, lines, children: Some(children), intro: None, wrap_up: None, pure_insertion: false }
}
fn ba(children: BlockAmendmentChildren) -> ParagraphChildren {
    BlockAmendment { intro: None, children, wrap_up: None }.into()
}
fn sba(children: Vec<ActChild>) -> ParagraphChildren {
    StructuralBlockAmendment { intro: None, children, wrap_up: None }.into()
}
fn flat(s: &str) -> IndentedLine {
    line(20.0, s, false, false)
}

/// Every identifier of every kind: the amendment of the element, and of it and those after it.
fn identifiers() -> Vec<Unit<'static>> {
    let mut u: Vec<Unit> = vec![];
    let numbers: Vec<String> = (1..=130)
        .flat_map(|i: usize| {
            let letters = if i < 4 || i % 25 == 0 { "abcdefghijklmnopqrstuvwxyz" } else { "a" };
            std::iter::once(i.to_string()).chain(letters.chars().map(move |l| format!("{i}{l}")).collect::<Vec<_>>())
        })
        .collect();
    let articles: Vec<String> = (1..=1100)
        .flat_map(|i: usize| {
            let letters = if i < 4 || i % 250 == 0 { "ABCDEFGHIJKLMNOPQRSTUVWXYZ" } else if i % 10 == 0 { "A" } else { "" };
            std::iter::once(i.to_string()).chain(letters.chars().map(move |l| format!("{i}/{l}")).collect::<Vec<_>>())
        })
        .flat_map(|s| if s.len() < 3 { vec![s.clone(), format!("1:{s}"), format!("12:{s}")] } else { vec![s] })
        .collect();
    let with_digraphs: Vec<String> = crate::ids::LETTERS.iter().map(|s| s.to_string()).collect();
    let simple_letters: Vec<String> = with_digraphs.iter().filter(|s| s.chars().count() == 1 && s.is_ascii()).cloned().collect();
    {
        let numbers = numbers.clone();
        u.push(Unit {
            label: "id-paragraph".into(),
            run: Box::new(move |c| {
                for id in &numbers {
                    let d = simple(Position::R(doc::reference(true, &format!("5_{id}"))), vec![flat(&format!("({id}) Szöveg."))], ba(vec![par(id, text("Szöveg."))].into()));
                    judge(c, &[], &d);
                }
            }),
        });
    }
    {
        let articles = articles.clone();
        u.push(Unit {
            label: "id-paragraph-of-article".into(),
            run: Box::new(move |c| {
                for a in &articles {
                    for (header, justified) in [("", false), ("x", false), ("x", true)] {
                        let h = if header.is_empty() { String::new() } else { format!("{a}. § ") };
                        let lines = vec![line(20.0, &format!("{h}(1) Szöveg"), false, justified), flat("vége."), flat("(2) Szöveg.")];
                        let children: Vec<Paragraph> = vec![par("1", text("Szöveg vége.")), par("2", text("Szöveg."))];
                        let d = simple(Position::R(doc::reference(true, &format!("{a}_1-2"))), lines, ba(children.into()));
                        judge(c, &[], &d);
                    }
                }
            }),
        });
    }
    {
        let articles = articles.clone();
        u.push(Unit {
            label: "id-article".into(),
            run: Box::new(move |c| {
                for a in &articles {
                    let d = simple(sr(arts(a, a), false, None), vec![flat(&format!("{a}. § Szöveg."))], sba(vec![article(a, vec![par("", text("Szöveg."))])]));
                    judge(c, &[], &d);
                }
            }),
        });
    }
    {
        let numbers = numbers.clone();
        u.push(Unit {
            label: "id-numeric".into(),
            run: Box::new(move |c| {
                for id in &numbers {
                    let line = vec![flat(&format!("{id}. szöveg,"))];
                    let v: Vec<NumericPoint> = vec![sae(id, text("szöveg,"))];
                    judge(c, &[], &simple(Position::R(doc::reference(true, &format!("5_2_{id}"))), line.clone(), ba(v.into())));
                    let v: Vec<NumericSubpoint> = vec![sae(id, text("szöveg,"))];
                    judge(c, &[], &simple(Position::R(doc::reference(true, &format!("5_2_b_{id}"))), line, ba(v.into())));
                }
            }),
        });
    }
    u.push(Unit {
        label: "id-letters".into(),
        run: Box::new(move |c| {
            for id in &with_digraphs {
                let v: Vec<AlphabeticPoint> = vec![sae(id, text("szöveg,"))];
                judge(c, &[], &simple(Position::R(doc::reference(true, &format!("5_2_{id}"))), vec![flat(&format!("{id}) szöveg,"))], ba(v.into())));
            }
            for p in &simple_letters {
                for l in &simple_letters {
                    let id = format!("{p}{l}");
                    let v: Vec<AlphabeticSubpoint> = vec![sae(&id, text("szöveg,"))];
                    judge(c, &[], &simple(Position::R(doc::reference(true, &format!("5_2_{p}_{id}"))), vec![flat(&format!("{id}) szöveg,"))], ba(v.into())));
                }
                let v: Vec<AlphabeticSubpoint> = vec![sae(p, text("szöveg,"))];
                judge(c, &[], &simple(Position::R(doc::reference(true, &format!("5_2_3_{p}"))), vec![flat(&format!("{p}) szöveg,"))], ba(v.into())));
            }
        }),
    });
    // Structural elements: the number in the header counts, and if there is none, the one in the announcement.
    u.push(Unit {
        label: "id-structural".into(),
        run: Box::new(move |c| {
            for n in 1..=100u32 {
                let roman = crate::ids::roman_model(n).unwrap();
                let ord = crate::numerals::ordinal(n).unwrap().to_uppercase();
                let suffixes = if n < 4 || n % 25 == 0 { "-abcdefghijklmnopqrstuvwxyz" } else { "-a" };
                for s in suffixes.chars() {
                    for k in 0..3 {
                        let (id, tail) =
                            if s == '-' { (n.to_string(), String::new()) } else { (format!("{n}{s}"), format!("/{}", s.to_ascii_uppercase())) };
                        if k == 1 && s != '-' {
                            continue;
                        }
                        let (make, element_type, header) = [
                            (SRE::Chapter as fn(_) -> _, StructuralElementType::Chapter, format!("{roman}{tail}. FEJEZET")),
                            (SRE::Part, StructuralElementType::Part { is_special: false }, format!("{ord} RÉSZ")),
                            (SRE::Title, StructuralElementType::Title, format!("{roman}{tail}. CÍM")),
                        ][k]
                            .clone();
                        let element = |id: &str, title: &str| -> ActChild {
                            StructuralElement { identifier: num(id), title: title.into(), element_type, last_change: None }.into()
                        };
                        let h = |s: &str| line(60.0, s, false, false);
                        for named in [id.as_str(), "7"] {
                            let at = |title_only| sr(make(num(named)), title_only, None);
                            judge(c, &[], &simple(at(true), vec![h(&header), h("ÚJ CÍM")], sba(vec![element(&id, "ÚJ CÍM")])));
                            judge(c, &[], &simple(at(true), vec![h("ÚJ CÍM"), h("VÉGE")], sba(vec![element(named, "ÚJ CÍM VÉGE")])));
                            let lines = vec![h(&header), h("ÚJ CÍM"), flat("5. § Szöveg.")];
                            let v = vec![element(&id, "ÚJ CÍM"), article("5", vec![par("", text("Szöveg."))])];
                            judge(c, &[], &simple(at(false), lines, sba(v)));
                        }
                    }
                }
            }
        }),
    });
    // Many elements, and elements of many lines
    for kind in 0..6 {
        u.push(Unit {
            label: format!("grown-{kind}"),
            run: Box::new(move |c| {
                for n in crate::layout::sizes(300) {
                    let words: Vec<String> = (0..n).map(|i| format!("szó {i}")).collect();
                    let all = words.join(" ");
                    let put = |head: &str, lines: &mut Vec<IndentedLine>| {
                        for (i, w) in words.iter().enumerate() {
                            lines.push(line(20.0, &if i == 0 { format!("{head}{w}") } else { w.clone() }, false, i + 1 < n));
                        }
                    };
                    let d = match kind {
                        0 => simple(
                            Position::R(doc::reference(true, &format!("5_2-{}", n + 1))),
                            (2..n + 2).map(|i| flat(&format!("({i}) Szöveg {i}."))).collect(),
                            ba((2..n + 2).map(|i| par(&i.to_string(), text(format!("Szöveg {i}.")))).collect::<Vec<_>>().into()),
                        ),
                        1 => simple(
                            Position::R(doc::reference(true, &format!("5_2_2-{}", n + 1))),
                            (2..n + 2).map(|i| flat(&format!("{i}. szöveg {i}."))).collect(),
                            ba((2..n + 2).map(|i| sae::<_, NumericPointChildren>(&i.to_string(), text(format!("szöveg {i}.")))).collect::<Vec<_>>().into()),
                        ),
                        2 => simple(
                            sr(arts("2", &format!("{}", n + 1)), false, None),
                            // Each quotes the header of its successor.
                            (2..n + 2)
                                .flat_map(|i| [flat(&format!("{i}. § Az „idézett")), flat(&format!("{}. § szöveg” szó.", i + 1))])
                                .collect(),
                            sba((2..n + 2).map(|i| article(&i.to_string(), vec![par("", text(format!("Az „idézett {}. § szöveg” szó.", i + 1)))])).collect()),
                        ),
                        3 => {
                            let mut lines = vec![];
                            put("(2) ", &mut lines);
                            put("a) ", &mut lines);
                            put("b) ", &mut lines);
                            put("", &mut lines);
                            put("(3) ", &mut lines);
                            let points: Vec<AlphabeticPoint> = vec![sae("a", text(all.clone())), sae("b", text(all.clone()))];
                            let v = vec![par("2", with(&all, points.into(), Some(&all))), par("3", text(all.clone()))];
                            simple(Position::R(doc::reference(true, "5_2-3")), lines, ba(v.into()))
                        }
                        4 => {
                            let mut lines = vec![];
                            put("5. § (1) ", &mut lines);
                            put("(2) ", &mut lines);
                            put("6. § ", &mut lines);
                            let v = vec![
                                article("5", vec![par("1", text(all.clone())), par("2", text(all.clone()))]),
                                article("6", vec![par("", text(all.clone()))]),
                            ];
                            simple(sr(arts("5", "6"), false, None), lines, sba(v))
                        }
                        _ => {
                            let mut lines = vec![line(60.0, "II. FEJEZET", false, false), line(60.0, "ÚJ CÍM", false, false)];
                            let mut v = vec![StructuralElement {
                                identifier: num("2"),
                                title: "ÚJ CÍM".into(),
                                element_type: StructuralElementType::Chapter,
                                last_change: None,
                            }
                            .into()];
                            for i in 5..n + 5 {
                                lines.push(line(60.0, &format!("{i}. Új alcím"), true, false));
                                v.push(Subtitle { identifier: Some((i as u16).into()), title: "Új alcím".into(), last_change: None }.into());
                                lines.push(flat(&format!("{i}. § Szöveg.")));
                                v.push(article(&i.to_string(), vec![par("", text("Szöveg."))]));
                            }
                            simple(sr(SRE::Chapter(num("2")), false, None), lines, sba(v))
                        }
                    };
                    judge(c, &[n], &d);
                }
            }),
        });
    }
    u
}

pub fn c13(tier: Tier) -> Vec<Unit<'static>> {
    let bound = if tier == Tier::Quick { 5 } else { 6 };
    let mut u = identifiers();
    u.extend(
        (0..KINDS).flat_map(|k| choose::units(&format!("kind{k}-"), bound, move |c| generate(c, k), judge)),
    );
    u
}
