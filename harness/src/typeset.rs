//! Typesets lines as the pages of a PDF file.
use crate::pdfgen::{simple_font, Pdf};
use hun_law::util::indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE};

/// Codes from 128 on
const SPECIAL: &[(char, &str)] = &[
    ('á', "aacute"), ('é', "eacute"), ('í', "iacute"), ('ó', "oacute"), ('ö', "odieresis"), ('ő', "ohungarumlaut"), ('ú', "uacute"),
    ('ü', "udieresis"), ('ű', "uhungarumlaut"), ('Á', "Aacute"), ('É', "Eacute"), ('Í', "Iacute"), ('Ó', "Oacute"), ('Ö', "Odieresis"),
    ('Ő', "Ohungarumlaut"), ('Ú', "Uacute"), ('Ü', "Udieresis"), ('Ű', "Uhungarumlaut"), ('§', "section"), ('„', "quotedblbase"),
    ('”', "quotedblright"), ('“', "quotedblleft"), ('–', "endash"), ('•', "bullet"),
];

fn code(c: char) -> u8 {
    if c.is_ascii() {
        c as u8
    } else {
        128 + SPECIAL.iter().position(|s| s.0 == c).unwrap_or_else(|| panic!("{c:?} cannot be typeset")) as u8
    }
}

fn hex(t: &str) -> String {
    format!("<{}>", t.chars().map(|c| format!("{:02X}", code(c))).collect::<String>())
}

#[derive(Clone, Debug)]
pub struct Row {
    pub indent: f64,
    pub text: String,
    pub bold: bool,
}

pub fn row(indent: f64, text: &str, bold: bool) -> Row {
    Row { indent, text: text.into(), bold }
}
pub fn gap() -> Row {
    row(0.0, "", false)
}

/// What is printed on a page: a header above the text, the rows from the top (rows without text are gaps).
#[derive(Clone, Debug, Default)]
pub struct Sheet {
    pub header: String,
    pub rows: Vec<Row>,
}

pub const ADVANCE: f64 = 5.0;
const LEADING: f64 = 12.5;
/// Just below, and just above where the text of a page begins
const TOP: f64 = 750.0;
const HEADER: f64 = 754.0;
pub const ROWS: usize = 54;

/// Ways of writing the same page
pub const STYLES: usize = 4;

pub fn pdf(sheets: &[Sheet], style: usize) -> Vec<u8> {
    let mut pdf = Pdf::default();
    let differences = format!("/Encoding << /Type /Encoding /BaseEncoding /WinAnsiEncoding /Differences [128 {}] >>", SPECIAL.iter().map(|s| format!("/{}", s.1)).collect::<Vec<_>>().join(" "));
    let widths = vec![500; 128 + SPECIAL.len() - 32];
    let regular = pdf.add(simple_font("AAAAAB+MyriadPro-Light", &differences, 32, &widths, ""));
    let bold = pdf.add(simple_font("AAAAAC+MyriadPro-Semibold", &differences.replace("/Type /Encoding", ""), 32, &widths, ""));
    let resources = format!("<< /Font << /R {regular} 0 R /B {bold} 0 R >> >>");
    let pages: Vec<(String, Vec<u8>)> = sheets
        .iter()
        .map(|s| {
            let mut items = vec![];
            if !s.header.is_empty() {
                items.push((60.0, HEADER, &s.header, false));
            }
            let mut y = TOP;
            for r in &s.rows {
                if !r.text.is_empty() {
                    items.push((r.indent, y, &r.text, r.bold));
                }
                y -= LEADING;
            }
            assert!(y > 10.0, "the page is full");
            (resources.clone(), contents(&items, style))
        })
        .collect();
    pdf.finish(&pages)
}

fn contents(items: &[(f64, f64, &String, bool)], style: usize) -> Vec<u8> {
    let mut s = String::new();
    let font = |b: bool| if b { "B" } else { "R" };
    match style {
        0 => {
            for (x, y, t, b) in items {
                s += &format!("BT /{} 10 Tf 1 0 0 1 {x:.2} {y:.2} Tm {} Tj ET\n", font(*b), hex(t));
            }
        }
        // From the bottom upwards, word by word
        1 => {
            for (x, y, t, b) in items.iter().rev() {
                s += &format!("q BT /{} 1 Tf 10 0 0 10 {x:.2} {y:.2} Tm\n", font(*b));
                for (i, w) in t.split(' ').enumerate() {
                    if i > 0 {
                        s += "[-500] TJ ";
                    }
                    s += &format!("{} Tj\n", hex(w));
                }
                s += "ET Q\n";
            }
        }
        // One text object, moved relatively, the spaces by word spacing
        2 => {
            s += "BT 2 Tw\n";
            let (mut px, mut py) = (0.0, 0.0);
            for (x, y, t, b) in items {
                s += &format!("/{} 10 Tf {:.2} {:.2} Td [", font(*b), x - px, y - py);
                for (i, w) in t.split(' ').enumerate() {
                    if i > 0 {
                        s += "200 <20> ";
                    }
                    s += &hex(w);
                }
                s += "] TJ\n";
                (px, py) = (*x, *y);
            }
            s += "ET\n";
        }
        // In two layers: first the regular ones, then the bold ones
        _ => {
            for layer in [false, true] {
                s += &format!("BT /{} 10 Tf\n", font(layer));
                for (x, y, t, _) in items.iter().filter(|i| i.3 == layer) {
                    s += &format!("1 0 0 1 0 0 Tm {x:.2} {y:.2} Td 1 TL [{}] TJ T*\n", hex(t));
                }
                s += "ET\n";
            }
        }
    }
    s.into_bytes()
}

/// The lines printed on a page, as the reader should see them.
pub fn lines(s: &Sheet) -> Vec<IndentedLine> {
    let right = s.rows.iter().filter(|r| !r.text.is_empty()).map(|r| r.indent + ADVANCE * r.text.chars().count() as f64).fold(0.0, f64::max);
    let mut out: Vec<IndentedLine> = vec![];
    for r in &s.rows {
        if r.text.is_empty() {
            if out.last().is_some_and(|l| !l.is_empty()) {
                out.push(EMPTY_LINE);
            }
            continue;
        }
        let end = r.indent + ADVANCE * r.text.chars().count() as f64;
        out.push(IndentedLine::from_parts(
            r.text
                .chars()
                .enumerate()
                .map(|(i, content)| IndentedLinePart { dx: if i == 0 { r.indent } else { ADVANCE }, content, bold: r.bold })
                .collect(),
            end + 0.8 * ADVANCE > right,
        ));
    }
    while out.last().is_some_and(|l| l.is_empty()) {
        out.pop();
    }
    out
}
