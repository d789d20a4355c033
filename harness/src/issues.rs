//! C33: a gazette issue as it is published, from the PDF file to the acts.
use crate::{
    check,
    choose::{self, sizes, Chooser},
    core::{Ctx, Tier, Unit},
    doc::{brief, show},
    layout,
    typeset::{self, gap, row, Row, Sheet},
};
use chrono::NaiveDate;
use hun_law::{
    identifier::ActIdentifier,
    mk_downloader::DEFAULT_MK_CROP,
    parser::{
        mk_act_section::parse_mk_pages_into_acts,
        pdf::parse_pdf,
        structure::parse_act_structure,
    },
    structure::Act,
    util::indentedline::{IndentedLine, EMPTY_LINE},
};

struct Issue {
    sheets: Vec<Sheet>,
    /// The acts, with the rows of their bodies and what the generator meant
    acts: Vec<(ActIdentifier, String, Vec<IndentedLine>, Act)>,
    style: usize,
}

fn header(n: usize) -> String {
    format!("{} M A G Y A R K Ö Z L Ö N Y • 2013. évi 31. szám", 2100 + n)
}

/// As the reader puts a space before every opening quotation mark
fn printable(lines: &[IndentedLine]) -> bool {
    lines.iter().all(|l| {
        let mut last = ' ';
        l.content().chars().all(|c| {
            let ok = c != '„' || last == ' ';
            last = c;
            ok
        })
    })
}

/// Lines of an act, and the numbers of those after which a page may end
fn typeset_act(ch: &mut Chooser, d: &layout::Doc) -> Vec<Option<Row>> {
    let mut out: Vec<Option<Row>> = vec![];
    let n = d.lines.len();
    let break_after = ch.pick(n);
    let note_after = ch.pick(3);
    for (i, l) in d.lines.iter().enumerate() {
        out.push(Some(if l.is_empty() { gap() } else { row(l.indent(), l.content(), l.is_bold()) }));
        // Titles are not broken.
        let heading = |l: Option<&IndentedLine>| l.is_some_and(|l| l.indent() >= 170.0);
        if break_after > 0 && break_after == i + 1 && !heading(Some(l)) && !heading(d.lines.get(i + 1)) {
            if note_after == 1 {
                out.push(Some(gap()));
                out.push(Some(row(60.0, "* A törvényt az Országgyűlés a 2013. november 22-i ülésnapján fogadta el.", false)));
            }
            out.push(None);
        }
    }
    out
}

/// Puts the rows on the pages; tells which rows of which pages those of the body are.
fn set(sheets: &mut Vec<Sheet>, rows: Vec<Option<Row>>, body: std::ops::Range<usize>, go_on: bool) -> Option<Vec<(usize, usize)>> {
    let mut places = vec![];
    for (i, r) in rows.into_iter().enumerate() {
        let full = sheets.last().unwrap().rows.len() == typeset::ROWS;
        if full && !go_on {
            return None;
        }
        if r.is_none() || full {
            sheets.push(Sheet { header: header(sheets.len()), rows: vec![] });
        }
        let Some(r) = r else { continue };
        let sheet = sheets.len() - 1;
        sheets[sheet].rows.push(r);
        if body.contains(&i) {
            places.push((sheet, sheets[sheet].rows.len() - 1));
        }
    }
    Some(places)
}

type Placed = (ActIdentifier, Vec<(usize, usize)>, Act);
fn bodies(sheets: &[Sheet], acts: Vec<Placed>) -> Vec<(ActIdentifier, String, Vec<IndentedLine>, Act)> {
    let printed: Vec<Vec<IndentedLine>> = sheets.iter().map(typeset::lines).collect();
    acts
        .into_iter()
        .map(|(id, places, act)| {
            let mut body: Vec<IndentedLine> = vec![];
            let mut page = places[0].0;
            for (s, r) in places {
                if s != page {
                    body.push(EMPTY_LINE);
                    page = s;
                }
                let row = &sheets[s].rows[r];
                if row.text.starts_with("* ") {
                    continue;
                }
                if row.text.is_empty() {
                    body.push(EMPTY_LINE);
                } else {
                    let whole = &printed[s];
                    // Rows with text are the lines with text.
                    let nth = sheets[s].rows[..r].iter().filter(|r| !r.text.is_empty()).count();
                    body.push(whole.iter().filter(|l| !l.is_empty()).nth(nth).unwrap().clone());
                }
            }
            body.dedup_by(|a, b| a.is_empty() && b.is_empty());
            (id, "a vizsgálatról".to_string(), body, act)
        })
        .collect()
}

/// Issues grown along one dimension: (name, how large, the lines and children of each act)
type Grown = fn(usize) -> Vec<(Vec<IndentedLine>, String, Vec<hun_law::structure::ActChild>)>;
const KINDS: &[(&str, usize, Grown)] = &[
    ("acts", 100, |n| (0..n).map(|_| layout_grown("articles", 2)).collect()),
    ("long acts", 20, |n| (0..n).map(|i| layout_grown("articles", 30 + i)).collect()),
    ("articles", 2001, |n| vec![layout_grown("articles", n.max(2)), layout_grown("articles", 2)]),
    ("books of articles", 40, |n| vec![layout_grown("books of articles", n), layout_grown("articles", 2)]),
    ("lines of the preamble", 200, |n| vec![layout_grown("lines of the preamble", n), layout_grown("articles", 2)]),
    ("lines of a quoted block", 300, |n| vec![layout_grown("lines of a quoted block", n), layout_grown("articles", 2)]),
    ("characters of a line", 80, |n| vec![layout_grown("characters of a line", n), layout_grown("articles", 2)]),
];
fn layout_grown(kind: &str, n: usize) -> (Vec<IndentedLine>, String, Vec<hun_law::structure::ActChild>) {
    (layout::GROWN.iter().find(|g| g.0 == kind).unwrap().2)(n)
}
fn roman(n: usize) -> String {
    crate::ids::roman_model(n as _).unwrap()
}

fn grown(style: usize, f: Grown, n: usize) -> Issue {
    let mut sheets = front();
    let mut acts = vec![];
    for (k, (lines, preamble, children)) in f(n).into_iter().enumerate() {
        let mut rows = vec![Some(gap()), Some(row(220.0, &format!("2013. évi {}. törvény", roman(k + 1)), true)), Some(row(200.0, "a vizsgálatról*", true))];
        // A title is not broken.
        if sheets.last().unwrap().rows.len() + 5 > typeset::ROWS {
            rows[0] = None;
        }
        let used = if rows[0].is_none() { 0 } else { sheets.last().unwrap().rows.len() + 1 };
        let body_at = rows.len();
        rows.extend(lines.iter().map(|l| Some(if l.is_empty() { gap() } else { row(l.indent(), l.content(), l.is_bold()) })));
        let body_end = rows.len();
        // Neither are the signatures.
        let used = (used + rows.len() - 1 + typeset::ROWS - 1) % typeset::ROWS + 1;
        rows.push(if used + 3 > typeset::ROWS { None } else { Some(gap()) });
        rows.push(Some(row(80.0, "Áder János s. k.,               Kövér László s. k.,", false)));
        rows.push(Some(row(80.0, "köztársasági elnök            az Országgyűlés elnöke", false)));
        let places = set(&mut sheets, rows, body_at..body_end, true).unwrap();
        let identifier = ActIdentifier { year: 2013, number: (k + 1) as _ };
        let act = Act { identifier, ..crate::doc::act(&preamble, children) };
        acts.push((identifier, places, act));
    }
    let acts = bodies(&sheets, acts);
    Issue { sheets, acts, style }
}

fn front() -> Vec<Sheet> {
    vec![
        Sheet {
            header: String::new(),
            rows: vec![
                row(60.0, "MAGYAR KÖZLÖNY 31. szám", true),
                gap(),
                row(60.0, "MAGYARORSZÁG HIVATALOS LAPJA", false),
                row(60.0, "2013. április 5., péntek", false),
                gap(),
                row(60.0, "Tartalomjegyzék", false),
            ],
        },
        Sheet { header: header(1), rows: vec![row(60.0, "II. Törvények", true)] },
    ]
}

const HEADS: &[(&str, i16, i32)] = &[("2013. évi CXII. törvény", 2013, 112), ("2012. évi I. törvény", 2012, 1)];

fn generate(ch: &mut Chooser) -> Option<Issue> {
    let style = ch.pick(typeset::STYLES);
    let mut sheets = front();
    let mut acts = vec![];
    for (n, (head, year, number)) in HEADS.iter().enumerate() {
        let d = layout::generate(ch);
        // Shorter acts are not recognised.
        if !printable(&d.lines) || d.lines.iter().filter(|l| !l.is_empty()).count() < 2 || d.lines.is_empty() || d.lines[0].is_empty() {
            return None;
        }
        let mut rows = vec![Some(gap()), Some(row(220.0, head, true))];
        if ch.pick(2) == 0 {
            rows.push(Some(row(200.0, "a vizsgálatról*", true)));
        } else {
            rows.push(Some(row(200.0, "a", true)));
            rows.push(Some(row(180.0, "vizsgálatról*", true)));
        }
        let body_at = rows.len();
        rows.extend(typeset_act(ch, &d));
        let body_end = rows.len();
        rows.push(Some(gap()));
        rows.push(Some(row(80.0, "Áder János s. k.,               Kövér László s. k.,", false)));
        rows.push(Some(row(80.0, "köztársasági elnök            az Országgyűlés elnöke", false)));
        let places = set(&mut sheets, rows, body_at..body_end, false)?;
        let mut act = d.act;
        act.identifier = ActIdentifier { year: *year, number: *number };
        acts.push((act.identifier, places, act));
        if n + 1 < HEADS.len() && !ch.yes() {
            break;
        }
    }
    match ch.pick(3) {
        0 => {}
        1 => {
            sheets.push(Sheet { header: header(sheets.len()), rows: vec![gap(), row(60.0, "III. Kormányrendeletek", true), row(60.0, "Szöveg", false)] });
        }
        _ => sheets.push(Sheet { header: header(sheets.len()), rows: vec![] }),
    }
    let acts = bodies(&sheets, acts);
    Some(Issue { sheets, acts, style })
}

fn trimmed(v: &[IndentedLine]) -> &[IndentedLine] {
    let mut v = v;
    while let [rest @ .., last] = v {
        if !last.is_empty() {
            break;
        }
        v = rest;
    }
    while let [first, rest @ ..] = v {
        if !first.is_empty() {
            break;
        }
        v = rest;
    }
    v
}

fn judge(c: &Ctx, choices: &[usize], d: &Option<Issue>) {
    let Some(d) = d else { return };
    c.case(
        || format!("{choices:?}: {}", d.sheets.iter().map(|s| show(&typeset::lines(s))).collect::<Vec<_>>().join(" ¶¶ ")),
        || {
            c.steps(d.sheets.iter().map(|s| s.rows.len() as u64 + 1).sum());
            c.validated();
            let file = typeset::pdf(&d.sheets, d.style);
            let pages = parse_pdf(&file, DEFAULT_MK_CROP.clone()).map_err(|e| format!("the file is refused: {e:#}"))?;
            let acts = parse_mk_pages_into_acts(&pages).map_err(|e| format!("the issue is refused: {e:#}"))?;
            let ids: Vec<_> = acts.iter().map(|a| (a.identifier, a.subject.clone())).collect();
            let want: Vec<_> = d.acts.iter().map(|a| (a.0, a.1.clone())).collect();
            check!(ids == want, "found the acts {ids:?} instead of {want:?}");
            for (got, (_, _, body, meant)) in acts.iter().zip(&d.acts) {
                let date = NaiveDate::from_ymd_opt(2013, 4, 5).unwrap();
                check!(got.publication_date == date, "published on {}", got.publication_date);
                let (x, y) = (trimmed(&got.body), trimmed(body));
                let same = x.len() == y.len()
                    && x.iter().zip(y).all(|(p, q)| {
                        p.content() == q.content()
                            && p.is_bold() == q.is_bold()
                            && (p.is_empty() || ((p.indent() - q.indent()).abs() < 0.02 && p.is_justified() == q.is_justified()))
                    });
                check!(same, "the body of {} is {} instead of {}", got.identifier, show(x), show(y));
                let parsed = parse_act_structure(got).map_err(|e| format!("{} is refused: {e:#}", got.identifier))?;
                let meant = Act { subject: got.subject.clone(), publication_date: date, ..meant.clone() };
                let (a, b) = (text_of(&parsed), text_of(&meant));
                check!(a == b, "parsed to {}, and {} was meant", brief(&a), brief(&b));
                c.outcome(["first", "second"][(got.identifier.year == 2012) as usize]);
            }
            Ok(())
        },
    );
}

/// Quoted lines as their texts, without empty ones
fn text_of(a: &Act) -> serde_json::Value {
    use serde_json::Value::*;
    fn go(v: serde_json::Value) -> serde_json::Value {
        match v {
            Object(x) if x.contains_key("cached_content") => x["cached_content"].clone(),
            Object(x) => Object(x.into_iter().map(|(k, v)| (k, go(v))).collect()),
            Array(x) => Array(x.into_iter().map(go).filter(|v| v.as_str() != Some("")).collect()),
            v => v,
        }
    }
    go(serde_json::to_value(a).unwrap())
}

pub fn c33(tier: Tier) -> Vec<Unit<'static>> {
    let mut u = choose::units("", if tier == Tier::Quick { 3 } else { 4 }, generate, judge);
    for (kind, max, f) in KINDS {
        for n in sizes(*max) {
            u.push(Unit {
                label: format!("{kind}-{n}"),
                run: Box::new(move |c| {
                    for style in 0..typeset::STYLES {
                        judge(c, &[n, style], &Some(grown(style, *f, n)));
                    }
                }),
            });
        }
    }
    u
}
