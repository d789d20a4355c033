//! C35: no file crashes the PDF reader, and nothing that cannot be read is silently left out.
use crate::{
    check,
    core::{Ctx, Tier, Unit},
    pdfgen::*,
    pdfs,
};
use hun_law::parser::pdf::CropBox;

/// What the reader has to make of an operator.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    /// Nothing wrong with it
    Read,
    /// It needs something that is not there, and what it shows would be lost
    Refuse,
    /// Either is fine
    Any,
}

#[derive(Clone, Default)]
struct Model {
    saved: Vec<Option<u8>>,
    marked: usize,
    /// 1: one-byte, 2: two-byte
    font: Option<u8>,
}

const HUGE: &str = "999999999999999999999999999999999999999999999";
fn alphabet() -> Vec<String> {
    [
        "q", "Q", "BT", "ET", "EMC", "/P BMC", "/Span << /ActualText (xyz) >> BDC", "/Span << /ActualText () >> BDC", "/Span << /ActualText 5 >> BDC",
        "/Span /Nothing BDC", "/F0 10 Tf", "/F2 10 Tf", "/Nothing 10 Tf", "/NoWidths 10 Tf", "/NoEncoding 10 Tf", "/Gone 10 Tf", "/F0 0 Tf", "/F0 -10 Tf",
        "/F0 HUGE Tf", "/G gs", "/Plain gs", "/Nothing gs", "(ab) Tj", "<0041004> Tj", "() Tj", "(\\001) Tj", "<FFFFD800> Tj", "[(a) -1000 (b) 1000 (c)] TJ", "[] TJ",
        "[(a) HUGE (b)] TJ", "T*", "(a) '", "1 2 (a) \"", "0 Tz", "-100 Tz", "HUGE Tz", "HUGE Tc", "-HUGE Tw", "HUGE TL", "HUGE Ts", "5 -HUGE Td",
        "0 0 0 0 0 0 Tm", "0 1 -1 0 100 700 Tm", "HUGE 0 0 HUGE HUGE HUGE Tm", "1 0 0 1 100 700 Tm", "/Good Do", "/Restores Do", "/EndsMark Do", "/Self Do",
        "/Mutual Do", "/Saves Do", "/Marks Do", "/Image Do", "/Nothing Do", "/Gone Do", "/Twice Do", "Tj", "/F0 Tf", "BX foo EX", "BI /W 1 /H 1 /BPC 8 /CS /G ID a EI", "%",
        "0 0 m 10 10 l S", "1 0 0 1 HUGE 0 cm",
    ]
    .iter()
    .map(|s| s.replace("HUGE", HUGE))
    .collect()
}

fn step(m: &mut Model, op: &str) -> Must {
    use Must::*;
    let shows = |m: &Model| if m.font.is_some() { Read } else { Refuse };
    match op {
        "q" => m.saved.push(m.font),
        "Q" => match m.saved.pop() {
            Some(f) => m.font = f,
            None => return Refuse,
        },
        "EMC" => match m.marked.checked_sub(1) {
            Some(n) => m.marked = n,
            None => return Refuse,
        },
        "/P BMC" | "/Span << /ActualText (xyz) >> BDC" | "/Span << /ActualText () >> BDC" | "/Span << /ActualText 5 >> BDC" | "/Span /Nothing BDC" => m.marked += 1,
        "/F0 10 Tf" | "/F0 0 Tf" | "/F0 -10 Tf" => m.font = Some(1),
        "/F2 10 Tf" => m.font = Some(2),
        "/G gs" => m.font = Some(1),
        "/Nothing 10 Tf" | "/NoWidths 10 Tf" | "/NoEncoding 10 Tf" | "/Nothing gs" | "/Nothing Do" => return Refuse,
        "/Plain gs" | "BT" | "ET" | "/Image Do" | "T*" | "0 0 m 10 10 l S" => {}
        "(ab) Tj" | "[(a) -1000 (b) 1000 (c)] TJ" | "(a) '" => {
            return if op != "(ab) Tj" && m.font == Some(2) { Any } else { shows(m) };
        }
        "0 Tz" | "-100 Tz" | "0 1 -1 0 100 700 Tm" | "0 0 0 0 0 0 Tm" | "1 0 0 1 100 700 Tm" => {}
        "/Good Do" | "/Twice Do" => {}
        "/Self Do" | "/Mutual Do" => return Refuse,
        _ => return Any,
    }
    Read
}

struct File {
    pdf: Pdf,
    resources: String,
}
fn file() -> File {
    let mut pdf = Pdf::default();
    let f0 = pdf.add(pdfs::font(0));
    let f2 = pdfs::type0(&mut pdf, "ABC+MyriadPro-Regular", "32 [250]", "");
    let no_widths = pdf.add("<< /Type /Font /Subtype /TrueType /BaseFont /Nope /Encoding /WinAnsiEncoding >>");
    let no_encoding = pdf.add(simple_font("Nope", "", 32, &[500; 100], ""));
    const FORM: &str = "/Type /XObject /Subtype /Form /BBox [0 0 600 900]";
    let res = format!("/Resources << /Font << /F0 {f0} 0 R >> >>");
    let good = pdf.stream(&format!("{FORM} {res}"), b"BT /F0 10 Tf 1 0 0 1 200 600 Tm (good) Tj ET");
    let twice = pdf.stream(&format!("{FORM} /Resources << /XObject << /A {good} 0 R /B {good} 0 R >> >>"), b"/A Do /B Do /A Do");
    let restores = pdf.stream(&format!("{FORM} {res}"), b"Q Q");
    let ends = pdf.stream(&format!("{FORM} {res}"), b"EMC");
    let saves = pdf.stream(&format!("{FORM} {res}"), b"q q");
    let marks = pdf.stream(&format!("{FORM} {res}"), b"/Span << /ActualText (u) >> BDC");
    let image = pdf.stream("/Type /XObject /Subtype /Image /Width 1 /Height 1 /ColorSpace /DeviceGray /BitsPerComponent 8", b"a");
    // A form that draws itself has to know its own number.
    let n = image + 1;
    let own = pdf.stream(&format!("{FORM} /Resources << /Font << /F0 {f0} 0 R >> /XObject << /Self {n} 0 R >> >>"), b"/Self Do");
    assert_eq!(n, own);
    let (a, b) = (own + 1, own + 2);
    pdf.stream(&format!("{FORM} /Resources << /XObject << /Other {b} 0 R >> >>"), b"/Other Do");
    pdf.stream(&format!("{FORM} /Resources << /XObject << /Other {a} 0 R >> >>"), b"q /Other Do Q");
    let gone = 900;
    let resources = format!(
        "<< /Font << /F0 {f0} 0 R /F2 {f2} 0 R /NoWidths {no_widths} 0 R /NoEncoding {no_encoding} 0 R >> \
         /ExtGState << /G << /Type /ExtGState /Font [{f0} 0 R 9] >> /Plain << /Type /ExtGState /LW 1 >> >> \
         /XObject << /Good {good} 0 R /Twice {twice} 0 R /Restores {restores} 0 R /EndsMark {ends} 0 R /Saves {saves} 0 R /Marks {marks} 0 R \
         /Image {image} 0 R /Self {own} 0 R /Mutual {a} 0 R /Gone {gone} 0 R >> >>"
    );
    File { pdf, resources }
}
fn crop() -> CropBox {
    CropBox { bottom: 0.0, left: 0.0, top: 1000.0, right: 1000.0 }
}

fn judge(c: &Ctx, file: &File, ops: &[&str], expected: Must) {
    c.case(
        || format!("a page of {ops:?}"),
        || {
            c.steps(ops.len() as u64);
            let got = parse(&file.pdf.clone().finish(&[(file.resources.clone(), ops.join("\n").into_bytes())]), &crop());
            c.validated();
            match (&got, expected) {
                (Ok(_), Must::Refuse) => return Err("read, though something it needs is not there".into()),
                (Err(e), Must::Read) => return Err(format!("refused, though nothing is wrong with it: {e}")),
                (Ok(p), _) => {
                    c.outcome("read");
                    check!(p.len() == 1, "{} pages of one", p.len());
                    check!(!p[0].lines.is_empty(), "no lines at all");
                }
                (Err(_), _) => c.outcome("refused"),
            }
            Ok(())
        },
    );
}
fn walk<'a>(c: &Ctx, file: &File, all: &'a [String], ops: &mut Vec<&'a str>, m: &Model, so_far: Must, depth: usize) {
    if depth == 0 || c.stopped() {
        return;
    }
    for op in all {
        let mut m = m.clone();
        let mut e = so_far;
        if so_far == Must::Read {
            e = step(&mut m, op);
        }
        // What the file's own syntax makes of an operand is the PDF library's affair.
        if matches!(op.as_str(), "Tj" | "/F0 Tf" | "%") || op.contains("BI ") || op.contains("HUGE") {
            e = Must::Any;
        }
        ops.push(op);
        judge(c, file, ops, e);
        walk(c, file, all, ops, &m, e, depth - 1);
        ops.pop();
    }
}

/// A small file of everything: plain and two-byte fonts, a form, a graphics state, a tree of pages.
fn small() -> Vec<u8> {
    let mut pdf = Pdf::default();
    let tu = pdf.stream("", b"1 beginbfchar\n<0041> <0150>\nendbfchar\nendcmap");
    let f2 = pdfs::type0(&mut pdf, "Ab", "65 [500 300]", &format!("/ToUnicode {tu} 0 R"));
    let f0 = pdf.add(simple_font("B", "/Encoding << /BaseEncoding /WinAnsiEncoding /Differences [66 /Oacute] >>", 65, &[500, 600], ""));
    let x = pdf.stream("/Type /XObject /Subtype /Form /BBox [0 0 9 9]", b"BT /F0 9 Tf 50 60 Td (A) Tj ET");
    pdf.finish(&[
        (
            format!("<< /Font << /F0 {f0} 0 R /F2 {f2} 0 R >> /XObject << /X {x} 0 R >> /ExtGState << /G << /Font [{f0} 0 R 9] >> >> >>"),
            b"BT /G gs 100 100 Td [(A) 5 (B)] TJ /F2 10 Tf <0041> Tj ET /X Do".to_vec(),
        ),
        (String::new(), vec![]),
    ])
}
/// Damage other than this is left to the PDF library, which does not survive all of it.
fn cut_off(c: &Ctx, at: usize) {
    let whole = small();
    c.case(
        || format!("a file cut off at byte {at} of {}", whole.len()),
        || {
            c.steps(1);
            c.validated();
            let got = parse(&whole[..at], &crop());
            if whole[at..].iter().all(|b| b.is_ascii_whitespace() || b"%EOF".contains(b)) {
                return Ok(());
            }
            check!(got.is_err(), "the beginning of a file was taken for the whole");
            c.outcome("cut off, refused");
            Ok(())
        },
    );
}

pub fn c35(tier: Tier) -> Vec<Unit<'static>> {
    let depth = if tier == Tier::Thorough { 4 } else { 3 };
    let mut u: Vec<Unit> = vec![];
    for (si, start) in [vec![], vec!["BT", "/F0 10 Tf", "1 0 0 1 100 700 Tm"]].into_iter().enumerate() {
        for first in 0..alphabet().len() {
            let start = start.clone();
            u.push(Unit {
                label: format!("operators-{si}-{first}"),
                run: Box::new(move |c| {
                    let all = alphabet();
                    let file = file();
                    let mut m = Model::default();
                    let mut ops = start.clone();
                    for o in &start {
                        step(&mut m, o);
                    }
                    let e = step(&mut m, &all[first]);
                    ops.push(&all[first]);
                    judge(c, &file, &ops, e);
                    walk(c, &file, &all, &mut ops, &m, e, depth - 1);
                }),
            });
        }
    }
    for at in 0..small().len() {
        u.push(Unit { label: format!("cut-{at}"), run: Box::new(move |c| cut_off(c, at)) });
    }
    u
}
