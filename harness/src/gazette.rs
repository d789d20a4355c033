//! C14: the acts of a gazette issue, each with exactly its own lines.
use crate::{
    check,
    choose::{self, Chooser},
    core::{guarded, Ctx, Tier, Unit},
    doc::{line, show},
};
use chrono::NaiveDate;
use hun_law::{
    identifier::ActIdentifier,
    parser::{
        mk_act_section::{parse_mk_pages_into_acts, ActRawText},
        pdf::PageOfLines,
    },
    util::indentedline::{IndentedLine, EMPTY_LINE},
};

fn plain(s: &str) -> IndentedLine {
    line(20.0, s, false, true)
}
fn bold(s: &str) -> IndentedLine {
    line(60.0, s, true, false)
}

const HEADERS: &[(&str, i16, i32)] = &[
    ("2011. évi CXII. törvény", 2011, 112),
    ("2012. évi I. törvény", 2012, 1),
    ("1999. évi XLIX. törvény", 1999, 49),
    ("2019. évi CCXCIV. törvény", 2019, 294),
];
const SUBJECTS: &[(&[&str], &str)] = &[
    (&["az alma szedéséről*"], "az alma szedéséről"),
    (&["az alma", "szedéséről*"], "az alma szedéséről"),
    (&["az alma-", "szedésről* és", "2012. évi I. törvény", "módosításáról*"], "az alma-szedésről* és 2012. évi I. törvény módosításáról"),
    // With a gap, or the end of a page, inside
    (&["az alma", "", "szedéséről*"], "az alma szedéséről"),
    (&["", "az alma szedéséről*"], "az alma szedéséről"),
    (&["az alma", "|", "szedéséről*"], "az alma szedéséről"),
];
const SIGNATURES: &[(&str, &str)] = &[
    ("Áder János s. k., Kövér László s. k.,", "köztársasági elnök az Országgyűlés elnöke"),
    ("Dr. Schmitt Pál s. k., Jakab István s. k.,", "köztársasági elnök az Országgyűlés alelnöke"),
    ("Kövér László s. k., Jakab István s. k.,", "az Országgyűlés elnöke, az Országgyűlés alelnöke,"),
];
/// Body lines; "" is an empty line, "!" stands before bold ones.
const BODIES: &[&[&str]] = &[
    &["", "1. § Szöveg.", "2. § Szöveg."],
    &["Az Országgyűlés:", "1. § Szöveg.", "", "2. § Szöveg."],
    &["", "", "1. § Szöveg.", "", "", "", "2. § Szöveg.", "", ""],
    &["", "1. § Szöveg.", "* nem lábjegyzet, mert nem áll egyedül", "2. § Szöveg."],
    &["", "1. § Szöveg:", "köztársasági elnök az Országgyűlés elnöke", "2. § Szöveg.", "2012. évi I. törvény", "2. §"],
    &["", "1. § Szöveg.", "III. Kormányrendeletek", "II. Törvények", "2. § Szöveg."],
    &["", "2013. évi V. törvény", "a Polgári Törvénykönyvről*", "", "1. § Szöveg."],
    &["", "1. § Szöveg:", "szó", "szó", "szó", "2. § Szöveg."],
    &["", "!1. Az alma", "1. § Szöveg.", "", "!III. Kormánybiztosok", "!a II. Törvények", "!2012. évi I. törvény", "2. § Szöveg."],
    &["", "1. § Szöveg.", "* nem lábjegyzet, mert nem áll egyedül", "", "2. § Szöveg."],
];
/// The sections after the acts; long titles are broken at various places.
const STOPS: &[&str] = &[
    "III. Kormányrendeletek",
    "IX. Határozatok Tára",
    "V. A Kormány tagjainak rendeletei és más",
    "IV. A Magyar Nemzeti Bank elnökének rendeletei, valamint az önálló",
    "VI. Az Alkotmánybíróság határozatai, teljes ülési határozatai és",
    "VII. A Kúria határozatai",
];
const FOOTER: &str = "* A törvényt az Országgyűlés a 2010. november 22-i ülésnapján fogadta el.";
const DATES: &[(&str, (i32, u32, u32))] = &[
    ("2011. június 28., kedd", (2011, 6, 28)),
    ("2012. február 29., szerda", (2012, 2, 29)),
    ("1999. december 1.", (1999, 12, 1)),
];

pub struct Issue {
    pages: Vec<Vec<IndentedLine>>,
    want: Vec<ActRawText>,
}

struct B<'a> {
    c: &'a mut Chooser,
    pages: Vec<Vec<IndentedLine>>,
}
impl B<'_> {
    fn put(&mut self, l: IndentedLine) {
        self.pages.last_mut().unwrap().push(l);
    }
    /// A page break; the page may end or start with an empty line, and there may be an empty page.
    fn page(&mut self) {
        match self.c.pick(4) {
            0 => self.pages.push(vec![]),
            1 => {
                self.put(EMPTY_LINE);
                self.pages.push(vec![]);
            }
            2 => self.pages.push(vec![EMPTY_LINE]),
            _ => {
                self.pages.push(vec![EMPTY_LINE]);
                self.pages.push(vec![]);
            }
        }
    }
    /// The gap before an act's header.
    fn gap(&mut self) {
        match self.c.pick(6) {
            0 => self.put(EMPTY_LINE),
            1 => self.page(),
            2 => {
                self.put(EMPTY_LINE);
                self.put(EMPTY_LINE);
            }
            3 => {
                self.put(EMPTY_LINE);
                self.put(plain("Más szöveg, ami nem törvény"));
                self.put(EMPTY_LINE);
            }
            4 => {
                self.put(EMPTY_LINE);
                self.page();
            }
            _ => {
                for _ in 0..4 {
                    self.put(EMPTY_LINE);
                }
            }
        }
    }
    fn act(&mut self, i: usize, header_bold: bool) -> ActRawText {
        self.gap();
        let h = HEADERS[(i + self.c.pick(HEADERS.len())) % HEADERS.len()];
        self.put(if header_bold { bold(h.0) } else { plain(h.0) });
        let (lines, subject) = self.c.of(SUBJECTS);
        for s in lines {
            match s {
                &"" => self.put(EMPTY_LINE),
                &"|" => self.page(),
                s => self.put(bold(s)),
            }
        }
        let k = self.c.pick(BODIES.len());
        let body = BODIES[k];
        let mut out: Vec<IndentedLine> = vec![];
        // A page break would make the look-alikes in these the real thing.
        let fixed = k == 3 || k == 4 || k == 9;
        let break_at = if fixed { 0 } else { self.c.pick(body.len() + 1) };
        let footer_at = if fixed { 0 } else { self.c.pick(body.len() + 1) };
        for (k, s) in body.iter().enumerate() {
            let l = match s.strip_prefix('!') {
                _ if s.is_empty() => EMPTY_LINE,
                Some(s) => bold(s),
                None => plain(s),
            };
            // A page break after line break_at, the act's footnote after line footer_at.
            self.put(l.clone());
            out.push(l);
            if footer_at == k + 1 && k > 0 {
                self.put(EMPTY_LINE);
                self.put(plain(FOOTER));
                if self.c.yes() {
                    self.put(EMPTY_LINE);
                } else {
                    self.pages.push(vec![]);
                }
                out.push(EMPTY_LINE);
            }
            if break_at == k + 1 {
                self.page();
                out.push(EMPTY_LINE);
            }
        }
        let s = self.c.of(SIGNATURES);
        self.put(EMPTY_LINE);
        self.put(plain(s.0));
        self.put(plain(s.1));
        out.push(EMPTY_LINE);
        ActRawText {
            identifier: ActIdentifier { year: h.1, number: h.2 },
            subject: subject.into(),
            publication_date: Default::default(),
            body: out,
        }
    }
}

fn generate(c: &mut Chooser) -> Issue {
    let mut b = B { c, pages: vec![vec![]] };
    let (date, ymd) = b.c.of(DATES);
    b.put(bold("MAGYAR KÖZLÖNY 71. szám"));
    b.put(EMPTY_LINE);
    b.put(plain("A MAGYAR KÖZTÁRSASÁG HIVATALOS LAPJA"));
    b.put(plain(date));
    let toc = b.c.pick(3);
    if toc != 1 {
        b.put(EMPTY_LINE);
        b.put(plain("Tartalomjegyzék"));
        b.put(plain("2011. évi CXII. törvény az alma szedéséről 1234"));
        b.put(EMPTY_LINE);
        b.put(plain("2012. évi I. törvény a körtéről* 1235"));
    }
    let mode = b.c.pick(3);
    if mode == 1 {
        // No section title anywhere; the table of contents has the act in bold.
        b.put(bold("2011. évi CXII. törvény az alma szedéséről"));
    }
    b.pages.push(vec![]);
    if toc == 2 {
        b.put(plain("I. Az Országgyűlés határozatai"));
        b.put(plain("Más szöveg"));
        b.put(EMPTY_LINE);
        if mode != 1 {
            b.put(plain("2010. évi X. törvény"));
            b.put(plain("ami nem ide tartozik*"));
        }
    }
    if mode != 1 {
        b.put(bold("II. Törvények"));
    }
    let mut want = vec![];
    let n = b.c.of(&[2, 1, 3, 0]);
    for i in 0..n {
        want.push(b.act(i, mode != 2));
    }
    match b.c.pick(STOPS.len() + 1) {
        0 => {}
        k => {
            b.put(EMPTY_LINE);
            b.put(bold(STOPS[k - 1]));
            // Whatever follows is not an act of this section.
            b.act(1, true);
            if b.c.yes() {
                b.pages.push(vec![]);
                b.put(bold("II. Törvények"));
                want.push(b.act(2, true));
            }
        }
    }
    let publication_date = NaiveDate::from_ymd_opt(ymd.0, ymd.1, ymd.2).unwrap();
    for a in &mut want {
        a.publication_date = publication_date;
        a.body.dedup_by(|x, y| x.is_empty() && y.is_empty());
    }
    Issue { pages: b.pages, want }
}

fn pages(v: &[Vec<IndentedLine>]) -> Vec<PageOfLines> {
    v.iter().map(|lines| PageOfLines { lines: lines.clone() }).collect()
}
fn show_pages(v: &[Vec<IndentedLine>]) -> String {
    v.iter().map(|p| show(p)).collect::<Vec<_>>().join(" ¶¶ ")
}

/// Empty lines at the end of the body are no matter.
fn trimmed(v: &[IndentedLine]) -> &[IndentedLine] {
    let mut v = v;
    while let [rest @ .., last] = v {
        if !last.is_empty() {
            break;
        }
        v = rest;
    }
    v
}

fn judge(c: &Ctx, choices: &[usize], d: &Issue) {
    c.case(
        || format!("{choices:?}: {}", show_pages(&d.pages)),
        || {
            c.steps(d.pages.iter().map(|p| p.len() as u64 + 1).sum());
            let got = parse_mk_pages_into_acts(&pages(&d.pages)).map_err(|e| format!("refused: {e:#}"))?;
            c.validated();
            let ids = |v: &[ActRawText]| v.iter().map(|a| format!("{} {}", a.identifier, a.subject)).collect::<Vec<_>>();
            check!(ids(&got) == ids(&d.want), "found the acts {:?} instead of {:?}", ids(&got), ids(&d.want));
            for (a, w) in got.iter().zip(&d.want) {
                check!(a.identifier == w.identifier, "identifier {:?}", a.identifier);
                check!(a.publication_date == w.publication_date, "published on {}", a.publication_date);
                let (x, y) = (trimmed(&a.body), trimmed(&w.body));
                check!(
                    x == y && x.iter().zip(y).all(|(p, q)| p.is_justified() == q.is_justified()),
                    "the body of {} is {} instead of {}",
                    a.identifier,
                    show(x),
                    show(y)
                );
            }
            Ok(())
        },
    );
}

// ---- Any sequence of lines -----------------------------------------------------------------
fn kinds() -> Vec<Option<IndentedLine>> {
    let mut v: Vec<Option<IndentedLine>> = vec![
        Some(EMPTY_LINE),
        Some(plain("2011. évi CXII. törvény")),
        Some(plain("tárgy*")),
        Some(plain("szöveg")),
        Some(plain(FOOTER)),
        Some(plain("Nevek")),
        Some(plain(SIGNATURES[0].1)),
        None,
        Some(bold("2012. évi I. törvény")),
        Some(bold("II. Törvények")),
        Some(bold("III. Kormányrendeletek")),
        Some(plain("*")),
        Some(plain("2012. évi IIX. törvény")),
    ];
    v.truncate(13);
    v
}

/// Whatever comes: no crash, and every act's body consists of input lines in their order, each
/// used once, with no two empty lines in a row.
fn any_case(c: &Ctx, seq: &[Option<IndentedLine>], title: bool) -> Result<(), String> {
    let mut p = vec![vec![bold("MAGYAR KÖZLÖNY"), EMPTY_LINE, plain("LAP"), plain(DATES[0].0)], vec![]];
    if title {
        p[1].push(bold("II. Törvények"));
    }
    for s in seq {
        match s {
            Some(l) => p.last_mut().unwrap().push(l.clone()),
            None => p.push(vec![]),
        }
    }
    c.steps(seq.len() as u64);
    let got = guarded(|| parse_mk_pages_into_acts(&pages(&p)))?.map_err(|e| format!("refused: {e:#}"))?;
    c.validated();
    c.outcome(match got.len() {
        0 => "no act",
        1 => "one act",
        _ => "more acts",
    });
    let mut input = p.iter().flatten().filter(|l| !l.is_empty());
    for a in &got {
        let h = format!(". évi {}. törvény", roman::to(a.identifier.number).unwrap_or_default());
        check!(
            input.any(|l| l.content().ends_with(&h) && l.content().starts_with(&a.identifier.year.to_string())),
            "no header for act {:?}",
            a.identifier
        );
        for l in a.body.iter().filter(|l| !l.is_empty()) {
            check!(input.any(|x| x == l), "line '{}' of an act's body is not in the issue at that place", l.content());
        }
        check!(input.any(|l| l.content() == SIGNATURES[0].1), "an act without signature");
        check!(!a.body.windows(2).any(|w| w[0].is_empty() && w[1].is_empty()), "two empty lines in a row");
        check!(a.publication_date == NaiveDate::from_ymd_opt(2011, 6, 28).unwrap(), "published on {}", a.publication_date);
    }
    Ok(())
}

fn any(c: &Ctx, k: &[Option<IndentedLine>], cur: &mut Vec<Option<IndentedLine>>, len: usize, title: bool) {
    if len == 0 {
        let text = |seq: &[Option<IndentedLine>]| {
            seq.iter().map(|x| x.as_ref().map_or("(page)".into(), |l| show(&[l.clone()]))).collect::<Vec<_>>().join(" ¶ ")
        };
        c.case(|| text(cur), || any_case(c, cur, title));
        return;
    }
    for x in k {
        cur.push(x.clone());
        any(c, k, cur, len - 1, title);
        cur.pop();
    }
}

/// One dimension of an issue at a time grown large.
fn grown() -> Vec<Unit<'static>> {
    let sizes = |max: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (1..=40).collect();
        v.extend([50, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 500, 513, 700, 1000, 1001, 1025, 2000]);
        v.retain(|n| *n <= max);
        v
    };
    // (what, the largest, acts, pages between the acts' first and last line, body lines, subject lines, lines before)
    let mut u: Vec<Unit> = vec![];
    for (what, max) in [("acts", 300), ("pages of an act", 400), ("lines of an act", 2000), ("lines of a subject", 100), ("lines of contents", 1000), ("pages before", 300), ("pages between", 200), ("empty lines", 300)] {
        u.push(Unit {
            label: format!("grown-{what}"),
            run: Box::new(move |c: &Ctx| {
                for n in sizes(max) {
                    let of = |w: &str, k: usize| if what == w { n } else { k };
                    let mut b = vec![vec![bold("MAGYAR KÖZLÖNY 71. szám"), EMPTY_LINE, plain("A HIVATALOS LAP"), plain(DATES[0].0)]];
                    for i in 0..of("lines of contents", 2) {
                        b[0].push(plain(&format!("2011. évi {}. törvény az alma szedéséről {i}", roman::to(i as i32 + 1).unwrap())));
                    }
                    for _ in 0..of("pages before", 1) {
                        b.push(vec![plain("I. Az Országgyűlés határozatai"), EMPTY_LINE, plain("2010. évi X. törvény")]);
                    }
                    b.push(vec![bold("II. Törvények")]);
                    let mut want = vec![];
                    for i in 0..of("acts", 2) {
                        for k in 0..of("pages between", 1) {
                            b.push(if k % 2 == 0 { vec![] } else { vec![plain("szöveg"), EMPTY_LINE] });
                        }
                        for _ in 0..of("empty lines", 1) {
                            b.last_mut().unwrap().push(EMPTY_LINE);
                        }
                        let number = i as i32 + 1;
                        b.last_mut().unwrap().push(bold(&format!("2012. évi {}. törvény", roman::to(number).unwrap())));
                        let words: Vec<String> = (0..of("lines of a subject", 2)).map(|k| format!("az alma szedéséről és a hozzá tartozó dolgokról {k}")).collect();
                        for (k, w) in words.iter().enumerate() {
                            b.last_mut().unwrap().push(bold(&format!("{w}{}", if k + 1 == words.len() { "*" } else { "" })));
                        }
                        let mut body = vec![];
                        for p in 0..of("pages of an act", 2) {
                            b.last_mut().unwrap().push(EMPTY_LINE);
                            body.push(EMPTY_LINE);
                            for k in 0..of("lines of an act", 3) {
                                let l = plain(&format!("{p}. oldal {k}. sora"));
                                b.last_mut().unwrap().push(l.clone());
                                body.push(l);
                            }
                            for _ in 0..of("empty lines", 1) {
                                b.last_mut().unwrap().push(EMPTY_LINE);
                            }
                            body.push(EMPTY_LINE);
                            if p == 0 {
                                b.last_mut().unwrap().push(plain(FOOTER));
                            }
                            b.push(vec![]);
                        }
                        for l in [EMPTY_LINE, plain(SIGNATURES[0].0), plain(SIGNATURES[0].1)] {
                            b.last_mut().unwrap().push(l);
                        }
                        body.dedup_by(|x, y| x.is_empty() && y.is_empty());
                        want.push(ActRawText {
                            identifier: ActIdentifier { year: 2012, number },
                            subject: words.join(" "),
                            publication_date: NaiveDate::from_ymd_opt(2011, 6, 28).unwrap(),
                            body,
                        });
                    }
                    b.last_mut().unwrap().push(bold("III. Kormányrendeletek"));
                    judge(c, &[n], &Issue { pages: b, want });
                }
            }),
        });
    }
    // Every year and number an act can have
    for year in (1900..2100).step_by(10) {
        u.push(Unit {
            label: format!("years-{year}"),
            run: Box::new(move |c: &Ctx| {
                for year in year..year + 10 {
                    for number in 1..=399 {
                        if roman::to(number).unwrap().contains(['D', 'M']) {
                            continue;
                        }
                        let mut p = vec![bold(&format!("{year}. évi {}. törvény", crate::ids::roman_model(number as u32).unwrap()))];
                        p.insert(0, EMPTY_LINE);
                        p.insert(0, bold("II. Törvények"));
                        p.push(bold("az almáról*"));
                        let body = vec![EMPTY_LINE, plain("1. § Szöveg."), plain("2. § Szöveg.")];
                        p.extend(body.iter().cloned());
                        p.extend([EMPTY_LINE, plain(SIGNATURES[1].0), plain(SIGNATURES[1].1)]);
                        let cover = vec![bold("MAGYAR KÖZLÖNY 71. szám"), EMPTY_LINE, plain("A HIVATALOS LAP"), plain(DATES[1].0)];
                        let want = vec![ActRawText {
                            identifier: ActIdentifier { year, number },
                            subject: "az almáról".into(),
                            publication_date: NaiveDate::from_ymd_opt(2012, 2, 29).unwrap(),
                            body,
                        }];
                        judge(c, &[], &Issue { pages: vec![cover, p], want });
                    }
                }
            }),
        });
    }
    u
}

pub fn c14(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    let mut u = grown();
    // A whole act, then anything; and anything from the start.
    let start: Vec<Vec<usize>> = vec![vec![], vec![0, 1], vec![0, 1, 2, 0, 3], vec![0, 1, 2, 0, 3, 0, 4], vec![0, 1, 2, 0, 3, 0, 5, 6]];
    for (si, s) in start.into_iter().enumerate() {
        for title in [true, false] {
            for first in 0..kinds().len() {
                for second in 0..kinds().len() {
                    let s = s.clone();
                    u.push(Unit {
                        label: format!("any-{si}-{title}-{first}-{second}"),
                        run: Box::new(move |c: &Ctx| {
                            let k = kinds();
                            let mut cur: Vec<_> = s.iter().map(|i| k[*i].clone()).collect();
                            cur.push(k[first].clone());
                            cur.push(k[second].clone());
                            any(c, &k, &mut cur, if t { 4 } else { 3 }, title);
                        }),
                    });
                }
            }
        }
    }
    u.extend(choose::units("issue", if t { 6 } else { 5 }, generate, judge));
    u
}
