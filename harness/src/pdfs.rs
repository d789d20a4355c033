//! C16: glyphs on a page become lines.  C17: what the operators and fonts of a file mean.
use crate::{
    check,
    choose::{self, sizes, Chooser},
    core::{Ctx, Tier, Unit},
    pdfgen::*,
};
use hun_law::parser::pdf::CropBox;

/// Widths of the two fonts, from the space (32) to 'z' (122).
pub fn width(font: usize, code: u8) -> u32 {
    if code == 32 {
        return [250, 330, 290][font];
    }
    let base = [500, 570, 530][font];
    base + (code as u32 * 37) % 90
}
fn widths(font: usize) -> Vec<u32> {
    (32..=150u32).map(|c| width(font, c as u8)).collect()
}
pub fn font(f: usize) -> String {
    simple_font(["AAAAAB+MyriadPro-Light", "AAAAAC+MyriadPro-Bold"][f], "/Encoding /WinAnsiEncoding", 32, &widths(f), "")
}
pub fn decode(code: u8) -> char {
    match code {
        0x84 => '„',
        0x94 => '”',
        c => c as char,
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug)]
struct Run {
    text: &'static [u8],
    font: usize,
    size: f64,
    x: f64,
    y: f64,
}
impl Run {
    fn end(&self) -> f64 {
        self.x + self.text.iter().map(|c| width(self.font, *c) as f64 / 1000.0 * self.size).sum::<f64>()
    }
    fn glyphs(&self, out: &mut Vec<Glyph>) {
        let mut x = self.x;
        for c in self.text {
            let w = width(self.font, *c) as f64 / 1000.0 * self.size;
            out.push(Glyph {
                x,
                y: self.y,
                width: w,
                space: width(self.font, 32) as f64 / 1000.0 * self.size,
                bold: self.font == 1,
                c: decode(*c),
            });
            x += w;
        }
    }
}
#[derive(Debug)]
struct Page {
    runs: Vec<Run>,
    style: usize,
}

const CROP: (f32, f32, f32, f32) = (50.0, 40.0, 800.0, 500.0);
fn crop() -> CropBox {
    CropBox { bottom: CROP.0, left: CROP.1, top: CROP.2, right: CROP.3 }
}

fn page(c: &mut Chooser) -> Page {
    let n = [3, 2, 1, 4, 0][c.pick(5)];
    let style = c.pick(5);
    let mut runs: Vec<Run> = vec![];
    for i in 0..n {
        let text: &'static [u8] = c.of(&[b"Ab" as &[u8], b"C d", b"\x84E", b"e\x94", b"F", b"Gg h\x84ii"]);
        let (font, size) = c.of(&[(0, 10.0), (1, 10.0), (0, 12.0), (0, 6.0), (1, 14.0), (0, 2.0)]);
        let space = width(0, 32) as f64 / 1000.0 * 10.0;
        let (px, py, pe, ps) = runs.last().map_or((60.0, 712.0, 60.0, space), |r: &Run| {
            (60.0, r.y, r.end(), width(r.font, 32) as f64 / 1000.0 * r.size)
        });
        let _ = px;
        let (x, y) = match c.pick(20) {
            0 => (60.0, py - 12.0),
            1 => (pe, py),
            2 => (pe + 0.45 * ps, py),
            3 => (pe + 0.55 * ps, py),
            4 => (pe + 3.0 * ps, py),
            5 => (pe + 0.05, py + 0.4),
            6 => (pe + 0.55 * ps, py - 0.4),
            7 => (pe, py + 3.0),
            8 => (pe, py - 3.0),
            9 => (60.0, py - 15.8),
            10 => (60.0, py - 16.2),
            11 => (60.0, py - 40.0),
            12 => (80.0, py - 12.0),
            13 => (39.0, py - 12.0),
            14 => (501.0, py - 12.0),
            15 => (300.0, 801.0 - 0.1 * i as f64),
            16 => (300.0, 49.0 - 0.1 * i as f64),
            17 => (485.0, py - 12.0),
            18 => (60.0, py + 30.0),
            _ => (41.0, py - 12.0),
        };
        runs.push(Run { text, font, size, x, y });
    }
    Page { runs, style }
}

fn hex(t: &[u8]) -> String {
    format!("<{}>", t.iter().map(|b| format!("{b:02X}")).collect::<String>())
}
fn contents(p: &Page, order: &[usize]) -> Vec<u8> {
    let mut s = String::new();
    match p.style {
        // A text object per run.
        0 => {
            for &i in order {
                let r = &p.runs[i];
                s += &format!("BT /F{} {} Tf 1 0 0 1 {:.3} {:.3} Tm {} Tj ET\n", r.font, r.size, r.x, r.y, hex(r.text));
            }
        }
        // One text object, moved relatively.
        1 => {
            s += "BT\n";
            let (mut x, mut y) = (0.0, 0.0);
            for &i in order {
                let r = &p.runs[i];
                s += &format!("/F{} {} Tf {:.3} {:.3} Td {} Tj\n", r.font, r.size, r.x - x, r.y - y, hex(r.text));
                (x, y) = (r.x, r.y);
            }
            s += "ET\n";
        }
        // A unit font scaled by the matrix.
        2 => {
            for &i in order {
                let r = &p.runs[i];
                s += &format!("BT /F{} 1 Tf {} 0 0 {} {:.3} {:.3} Tm {} Tj ET\n", r.font, r.size, r.size, r.x, r.y, hex(r.text));
            }
        }
        // Every character positioned by itself, from the last to the first.
        3 => {
            s += "BT\n";
            for &i in order {
                let r = &p.runs[i];
                let mut x = r.end();
                for c in r.text.iter().rev() {
                    x -= width(r.font, *c) as f64 / 1000.0 * r.size;
                    s += &format!("/F{} {} Tf 1 0 0 1 {:.3} {:.3} Tm {} Tj\n", r.font, r.size, x, r.y, hex(&[*c]));
                }
            }
            s += "ET\n";
        }
        // Drawn backwards by kerning: each character is followed by a step back over it and the
        // one before it.
        _ => {
            for &i in order {
                let r = &p.runs[i];
                let last = width(r.font, *r.text.last().unwrap()) as f64 / 1000.0 * r.size;
                s += &format!("BT /F{} {} Tf 1 0 0 1 {:.3} {:.3} Tm [", r.font, r.size, r.end() - last, r.y);
                for (k, c) in r.text.iter().enumerate().rev() {
                    s += &hex(&[*c]);
                    if k > 0 {
                        s += &format!(" {} ", width(r.font, *c) + width(r.font, r.text[k - 1]));
                    }
                }
                s += "] TJ ET\n";
            }
        }
    }
    s.into_bytes()
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

fn judge_page(c: &Ctx, choices: &[usize], p: &Page) {
    c.case(
        || format!("page {choices:?}: {p:?}"),
        || {
            let mut g = vec![];
            for r in &p.runs {
                r.glyphs(&mut g);
            }
            let Some(want) = model_lines(&g, &crop()) else {
                c.outcome("overlapping");
                return Ok(());
            };
            // One file with a page for every drawing order.
            let mut pdf = Pdf::default();
            let (f0, f1) = (pdf.add(font(0)), pdf.add(font(1)));
            let orders = permutations(p.runs.len());
            let pages: Vec<(String, Vec<u8>)> = orders
                .iter()
                .map(|o| (format!("<< /Font << /F0 {f0} 0 R /F1 {f1} 0 R >> >>"), contents(p, o)))
                .collect();
            let got = parse(&pdf.finish(&pages), &crop())?;
            c.steps(orders.len() as u64 * p.runs.len().max(1) as u64);
            check!(got.len() == orders.len(), "{} pages of {}", got.len(), orders.len());
            for (o, g) in orders.iter().zip(&got) {
                same_lines(g, &want).map_err(|e| format!("drawn in order {o:?}: {e}"))?;
            }
            c.validated();
            Ok(())
        },
    );
}

/// One-dimensional families: a document grown along one measure, drawn in every style.
const GROWN: &[(&str, usize)] = &[("characters", 300), ("runs", 100), ("lines", 151), ("lines-apart", 100), ("pages", 151), ("columns", 60)];

fn grown_pages(kind: &str, n: usize) -> Vec<Vec<Run>> {
    let leak = |t: Vec<u8>| -> &'static [u8] { Box::leak(t.into_boxed_slice()) };
    let round = |x: f64| (x * 100.0).round() / 100.0;
    const LETTERS: &[u8] = b"Ab cD efg \x84h i\x94 jklmnop";
    match kind {
        "characters" => {
            let t: Vec<u8> = (0..n).map(|i| LETTERS[i % LETTERS.len()]).collect();
            // And a line after it, so that its end counts.
            vec![vec![
                Run { text: leak(t), font: 0, size: 4.0, x: 60.0, y: 700.0 },
                Run { text: b"Z", font: 1, size: 4.0, x: 60.0, y: 688.0 },
                Run { text: b"Z", font: 1, size: 4.0, x: 400.0, y: 676.0 },
            ]]
        }
        "runs" => {
            let mut v: Vec<Run> = vec![];
            for i in 0..n {
                let x = v.last().map_or(60.0, |r| r.end() + [0.02, 0.4, 0.6, 3.0][i % 4] * width(r.font, 32) as f64 / 1000.0 * r.size);
                v.push(Run { text: [b"Ab" as &[u8], b"c", b"de"][i % 3], font: usize::from(i % 5 == 3), size: 4.0, x: round(x), y: 700.0 });
            }
            vec![v]
        }
        "lines" | "lines-apart" => {
            let mut y = 1990.0;
            let mut v = vec![];
            for i in 0..n {
                v.push(Run {
                    text: [b"Ab c" as &[u8], b"de", b"F ghi jkl"][i % 3],
                    font: usize::from(i % 4 == 1),
                    size: 10.0,
                    x: 60.0 + (i % 7) as f64 * 10.0,
                    y,
                });
                y -= if kind == "lines" { [12.0, 12.0, 0.75, 15.8][i % 4] } else { [16.2, 20.0, 40.0, 12.0][i % 4] };
            }
            vec![v]
        }
        "pages" => (0..n)
            .map(|i| {
                let t: Vec<u8> = format!("P {i}").bytes().collect();
                (0..i % 4).map(|k| Run { text: leak(t.clone()), font: (i + k) % 2, size: 10.0, x: 60.0, y: 700.0 - 12.0 * k as f64 }).collect()
            })
            .collect(),
        // Two columns of text on the same lines.
        _ => {
            let mut v = vec![];
            for i in 0..n {
                for (k, x) in [60.0, 300.0].into_iter().enumerate() {
                    v.push(Run { text: [b"Ab c" as &[u8], b"de"][(i + k) % 2], font: k, size: 9.0, x, y: 1500.0 - 12.5 * i as f64 });
                }
            }
            vec![v]
        }
    }
}

fn judge_grown(c: &Ctx, kind: &str, n: usize) {
    let runs = grown_pages(kind, n);
    for style in 0..5 {
        c.case(
            || format!("{n} {kind}, drawn in style {style}"),
            || {
                let crop = CropBox { bottom: -2000.0, left: -100.0, top: 2000.0, right: 3000.0 };
                let mut pdf = Pdf::default();
                let (f0, f1) = (pdf.add(font(0)), pdf.add(font(1)));
                let resources = format!("<< /Font << /F0 {f0} 0 R /F1 {f1} 0 R >> >>");
                let (mut pages, mut want) = (vec![], vec![]);
                for r in &runs {
                    let mut g = vec![];
                    r.iter().for_each(|r| r.glyphs(&mut g));
                    let w = model_lines(&g, &crop).ok_or("the case is not well made")?;
                    let k = r.len();
                    let page = Page { runs: r.clone(), style };
                    let halves: Vec<usize> = (0..k).step_by(2).chain((1..k).step_by(2)).collect();
                    for o in [(0..k).collect(), (0..k).rev().collect(), halves] {
                        pages.push((resources.clone(), contents(&page, &o)));
                        want.push(w.clone());
                        if kind == "pages" {
                            break;
                        }
                    }
                }
                let got = parse(&pdf.finish(&pages), &crop)?;
                c.steps(pages.len() as u64);
                check!(got.len() == pages.len(), "{} pages of {}", got.len(), pages.len());
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    same_lines(g, w).map_err(|e| format!("page {}: {e}", i + 1))?;
                }
                c.validated();
                Ok(())
            },
        );
    }
}

/// The width of a font's space decides which gaps are spaces; a font that does not tell has a
/// usual one.
fn spaces(c: &Ctx) {
    for declared in [None, Some(0), Some(1), Some(100), Some(250), Some(420), Some(999), Some(1000), Some(1001), Some(2000)] {
        for two_byte in [false, true] {
            for size in [8.0, 10.0, 13.0] {
                c.case(
                    || format!("a {} font with a space of {declared:?} at size {size}", if two_byte { "two-byte" } else { "simple" }),
                    || {
                        let mut pdf = Pdf::default();
                        let f = if two_byte {
                            let w = declared.map_or(String::new(), |w| format!("32 [{w}]"));
                            // The default width of a two-byte font is for its space as well.
                            type0(&mut pdf, "ABC+Minion", &w, "")
                        } else {
                            let mut w = vec![500u32; 100];
                            let first = match declared {
                                Some(d) => {
                                    w[0] = d;
                                    32
                                }
                                None => 33,
                            };
                            pdf.add(simple_font("ABC+Minion", "/Encoding /WinAnsiEncoding", first, &w, ""))
                        };
                        let space = match (declared, two_byte) {
                            (None, true) => 0.5,
                            (None | Some(0) | Some(1000), _) => 0.25,
                            (Some(w), _) => w as f64 / 1000.0,
                        } * size;
                        let (mut g, mut s) = (vec![], format!("BT /F {size} Tf\n"));
                        let mut y = 800.0;
                        for gap in [0.0, 0.03, 0.1, 0.2, 0.3, 0.45, 0.6, 0.7, 0.9, 1.1, 1.5, 2.2] {
                            let mut x = 60.0;
                            for ch in ['a', 'b', 'c'] {
                                g.push(Glyph { x, y, width: 0.5 * size, space, bold: false, c: ch });
                                let code = if two_byte { format!("<{:04X}>", ch as u32) } else { format!("({ch})") };
                                s += &format!("1 0 0 1 {x:.3} {y} Tm {code} Tj\n");
                                x += 0.5 * size + gap * size;
                            }
                            y -= 14.0;
                        }
                        let want = model_lines(&g, &wide());
                        let got = parse(&pdf.finish(&[(format!("<< /Font << /F {f} 0 R >> >>"), (s + "ET").into_bytes())]), &wide())?;
                        c.steps(12);
                        c.validated();
                        same_lines(&got[0], &want.ok_or("the case is not well made")?)
                    },
                );
            }
        }
    }
}

pub fn c16(tier: Tier) -> Vec<Unit<'static>> {
    let mut u = choose::units("page", if tier == Tier::Thorough { 4 } else { 3 }, page, judge_page);
    for (kind, max) in GROWN {
        for n in sizes(*max) {
            u.push(Unit { label: format!("{kind}-{n}"), run: Box::new(move |c| judge_grown(c, kind, n)) });
        }
    }
    u.push(Unit { label: "spaces".into(), run: Box::new(spaces) });
    u
}

// ---------------------------------------------------------------- C17: operator histories

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Save,
    Restore,
    Font(usize),
    Gs,
    Form(usize),
    Begin,
    End,
    CharSpace,
    WordSpace,
    Scale,
    Leading,
    Rise,
    Move,
    MoveLead,
    Matrix,
    Newline,
    Show,
    ShowAdjusted,
    Quote,
    DoubleQuote,
    Actual,
    ActualNested,
    Marked,
    EndMarked,
}
use Op::*;
const OUTSIDE: &[Op] = &[
    Save, Restore, Font(0), Font(1), Font(2), Begin, Form(0), Form(1), Gs, CharSpace, WordSpace, Scale, Leading, Rise, Marked, EndMarked,
];
const INSIDE: &[Op] = &[
    Show, End, Font(0), Font(1), Font(2), Newline, Move, MoveLead, Matrix, ShowAdjusted, Quote, DoubleQuote, Actual, ActualNested, CharSpace, WordSpace, Scale,
    Leading, Rise, Gs, Marked, EndMarked,
];
const CORE_OUT: &[Op] = &[Save, Restore, Font(0), Font(1), Begin, Form(1)];
const CORE_IN: &[Op] = &[Show, End, Font(0), Font(1), Newline];

#[derive(Clone, Debug)]
struct State {
    font: Option<usize>,
    size: f64,
    tc: f64,
    tw: f64,
    tz: f64,
    tl: f64,
    rise: f64,
    // [a b c d e f]
    tm: [f64; 6],
    lm: [f64; 6],
}
#[derive(Clone)]
struct Machine {
    s: State,
    stack: Vec<State>,
    inside: bool,
    marked: usize,
    glyphs: Vec<Glyph>,
    out: String,
    steps: usize,
}
impl Machine {
    fn new() -> Self {
        let i = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
        let s = State { font: None, size: 0.0, tc: 0.0, tw: 0.0, tz: 1.0, tl: 0.0, rise: 0.0, tm: i, lm: i };
        Machine { s, stack: vec![], inside: false, marked: 0, glyphs: vec![], out: String::new(), steps: 0 }
    }
    fn glyph(&self, w0: f64, c: char) -> Glyph {
        let s = &self.s;
        let f = s.font.unwrap();
        let m11 = s.size * s.tz * s.tm[0];
        Glyph {
            x: s.rise * s.tm[2] + s.tm[4],
            y: s.rise * s.tm[3] + s.tm[5],
            width: w0 * m11,
            space: width(f, 32) as f64 / 1000.0 * m11,
            bold: f == 1,
            c,
        }
    }
    fn advance(&mut self, w: f64) {
        self.s.tm[4] += w * self.s.tm[0];
        self.s.tm[5] += w * self.s.tm[1];
    }
    fn show(&mut self, t: &[u8]) {
        for c in t {
            let w0 = width(self.s.font.unwrap(), *c) as f64 / 1000.0;
            let g = self.glyph(w0, decode(*c));
            self.glyphs.push(g);
            // Word spacing is for the one-byte code 32 only.
            let sp = self.s.tc + if *c == 32 && self.s.font != Some(2) { self.s.tw } else { 0.0 };
            self.advance((w0 * self.s.size + sp) * self.s.tz);
        }
    }
    /// A text as a string of the current font's codes
    fn lit(&self, t: &str) -> String {
        if self.s.font == Some(2) {
            format!("<{}>", t.bytes().map(|b| format!("{b:04X}")).collect::<String>())
        } else {
            format!("({t})")
        }
    }
    /// Glyphs that stand for other characters
    fn actual(&mut self, glyphs: &[u8], text: &str) {
        let mut m = self.clone();
        m.glyphs.clear();
        m.show(glyphs);
        let (x0, last) = (m.glyphs[0], m.glyphs[glyphs.len() - 1]);
        let total = last.x + last.width - x0.x;
        let n = text.chars().count() as f64;
        self.s = m.s;
        for (i, c) in text.chars().enumerate() {
            self.glyphs.push(Glyph { x: x0.x + total / n * i as f64, width: total / n, c, ..x0 });
        }
    }
    fn translate(&mut self, x: f64, y: f64) {
        let l = self.s.lm;
        self.s.lm = [l[0], l[1], l[2], l[3], l[4] + x * l[0] + y * l[2], l[5] + x * l[1] + y * l[3]];
        self.s.tm = self.s.lm;
    }
    fn matrix(&mut self, a: f64, d: f64, e: f64, f: f64) {
        self.s.lm = [a, 0.0, 0.0, d, e, f];
        self.s.tm = self.s.lm;
    }
    fn can(&self, op: Op) -> bool {
        match op {
            Restore => !self.stack.is_empty(),
            Form(0) => self.s.font.is_some_and(|f| f != 2),
            Show | ShowAdjusted | Quote | DoubleQuote | Actual | ActualNested => self.s.font.is_some(),
            EndMarked => self.marked > 0,
            _ => true,
        }
    }
    fn apply(&mut self, op: Op) {
        let k = self.steps as f64;
        self.steps += 1;
        let y = 800.0 - 95.0 * k;
        match op {
            Save => {
                self.stack.push(self.s.clone());
                self.out += "q\n";
            }
            Restore => {
                self.s = self.stack.pop().unwrap();
                self.out += "Q\n";
            }
            Font(f) => {
                self.s.font = Some(f);
                self.s.size = [10.0, 12.0, 11.5][f];
                self.out += ["/F0 10 Tf\n", "/F1 12 Tf\n", "/F2 11.5 Tf\n"][f];
            }
            Gs => {
                self.s.font = Some(1);
                self.s.size = 9.0;
                self.out += "/G gs\n";
            }
            Begin => {
                self.inside = true;
                self.matrix(1.0, 1.0, 0.0, 0.0);
                self.translate(30.0, y);
                self.out += &format!("BT 30 {y} Td\n");
            }
            End => {
                self.inside = false;
                self.out += "ET\n";
            }
            CharSpace => {
                self.s.tc = 0.7;
                self.out += "0.7 Tc\n";
            }
            WordSpace => {
                self.s.tw = 2.9;
                self.out += "2.9 Tw\n";
            }
            Scale => {
                self.s.tz = 0.8;
                self.out += "80 Tz\n";
            }
            Leading => {
                self.s.tl = 17.5;
                self.out += "17.5 TL\n";
            }
            Rise => {
                self.s.rise = 3.25;
                self.out += "3.25 Ts\n";
            }
            Move => {
                self.translate(8.0, -13.0);
                self.out += "8 -13 Td\n";
            }
            MoveLead => {
                self.s.tl = 16.5;
                self.translate(3.0, -16.5);
                self.out += "3 -16.5 TD\n";
            }
            Matrix => {
                self.matrix(1.5, 1.25, 250.0, y);
                self.out += &format!("1.5 0 0 1.25 250 {y} Tm\n");
            }
            Newline => {
                self.translate(0.0, -self.s.tl);
                self.out += "T*\n";
            }
            Show => {
                self.show(b"Ab c");
                self.out += &format!("{} Tj\n", self.lit("Ab c"));
            }
            ShowAdjusted => {
                self.show(b"D");
                let a = |m: &mut Self, d: f64| m.advance(-d / 1000.0 * m.s.size * m.s.tz);
                a(self, -700.0);
                self.show(b"e f");
                a(self, 40.0);
                self.show(b"g");
                self.out += &format!("[{} -700 {} 40 {}] TJ\n", self.lit("D"), self.lit("e f"), self.lit("g"));
            }
            Quote => {
                self.translate(0.0, -self.s.tl);
                self.show(b"H i");
                self.out += &format!("{} '\n", self.lit("H i"));
            }
            DoubleQuote => {
                self.s.tw = 4.1;
                self.s.tc = 0.3;
                self.translate(0.0, -self.s.tl);
                self.show(b"J k");
                self.out += &format!("4.1 0.3 {} \"\n", self.lit("J k"));
            }
            Actual => {
                // Two glyphs stand for three characters.
                self.actual(b"xy", "ŐaZ");
                self.out += &format!("/Span << /ActualText <FEFF01500061005A> >> BDC {} Tj EMC\n", self.lit("xy"));
            }
            ActualNested => {
                // The outer text stands for everything inside.
                self.actual(b"xyzw", "Űq");
                self.out += &format!(
                    "/Span << /ActualText <FEFF01700071> >> BDC {} Tj /Span << /ActualText <FEFF01500061005A> >> BDC {} Tj EMC /Artifact BMC {} Tj EMC {} Tj EMC\n",
                    self.lit("x"),
                    self.lit("y"),
                    self.lit("z"),
                    self.lit("w")
                );
            }
            Marked => {
                self.marked += 1;
                self.out += "/Artifact BMC\n";
            }
            EndMarked => {
                self.marked -= 1;
                self.out += "EMC\n";
            }
            Form(n) => {
                self.out += &format!("/X{n}_{} Do\n", self.steps - 1);
                // The form starts with the state of the page, and changes nothing in it.
                let saved = self.s.clone();
                self.matrix(1.0, 1.0, 0.0, 0.0);
                self.translate(400.0, y);
                match n {
                    0 => {
                        // Uses the page's font, then another.
                        self.show(b"L m");
                        self.s.font = Some(1);
                        self.s.size = 11.0;
                        self.show(b"N o");
                    }
                    _ => {
                        // Has its own resources, where F0 is the other font; and a form inside.
                        self.s.font = Some(1);
                        self.s.size = 13.0;
                        self.show(b"P q");
                        let s1 = self.s.clone();
                        self.matrix(1.0, 1.0, 500.0, y);
                        self.s.font = Some(0);
                        self.s.size = 8.0;
                        self.s.tc = 1.1;
                        self.show(b"R s");
                        self.s = s1;
                        self.matrix(1.0, 1.0, 400.0, y - 20.0);
                        self.show(b"T u");
                    }
                }
                self.s = saved;
            }
        }
    }
    /// Makes whatever the state is visible.
    fn probe(&mut self) {
        if !self.inside {
            self.apply(Begin);
        }
        if self.s.font.is_none() {
            self.apply(Font(0));
        }
        let y = -20.0;
        self.show(b"V w");
        self.out += &format!("{} Tj\n", self.lit("V w"));
        self.translate(0.0, -self.s.tl);
        self.translate(3.0, y);
        self.show(b"X");
        self.out += &format!("T* 3 {y} Td {} Tj\n", self.lit("X"));
        self.out += "ET\n";
        while self.marked > 0 {
            self.apply(EndMarked);
        }
    }
}

const SLOTS: usize = 9;
struct File {
    pdf: Pdf,
    resources: String,
}
/// The file all histories run in: fonts, graphics state, and a form of each kind for every step.
fn history_file() -> File {
    let mut pdf = Pdf::default();
    let (f0, f1) = (pdf.add(font(0)), pdf.add(font(1)));
    let w: Vec<String> = (32..=150u32).map(|c| width(2, c as u8).to_string()).collect();
    let f2 = type0(&mut pdf, "ABC+MyriadPro-Regular", &format!("32 [{}]", w.join(" ")), "");
    let mut x = String::new();
    for k in 0..SLOTS {
        let y = 800.0 - 95.0 * k as f64;
        let a = pdf.stream(
            "/Type /XObject /Subtype /Form /BBox [0 0 600 900]",
            format!("BT 400 {y} Td (L m) Tj /F1 11 Tf (N o) Tj ET").as_bytes(),
        );
        let inner = pdf.stream(
            &format!("/Type /XObject /Subtype /Form /BBox [0 0 600 900] /Resources << /Font << /F0 {f0} 0 R >> >>"),
            format!("BT 1 0 0 1 500 {y} Tm /F0 8 Tf 1.1 Tc (R s) Tj ET").as_bytes(),
        );
        let b = pdf.stream(
            &format!("/Type /XObject /Subtype /Form /BBox [0 0 600 900] /Resources << /Font << /F0 {f1} 0 R >> /XObject << /I {inner} 0 R >> >>"),
            format!("BT 400 {y} Td /F0 13 Tf (P q) Tj ET /I Do BT 1 0 0 1 400 {} Tm (T u) Tj ET", y - 20.0).as_bytes(),
        );
        x += &format!("/X0_{k} {a} 0 R /X1_{k} {b} 0 R ");
    }
    let resources =
        format!("<< /Font << /F0 {f0} 0 R /F1 {f1} 0 R /F2 {f2} 0 R >> /XObject << {x} >> /ExtGState << /G << /Type /ExtGState /Font [{f1} 0 R 9] >> >> >>");
    File { pdf, resources }
}
fn wide() -> CropBox {
    CropBox { bottom: -500.0, left: -100.0, top: 2000.0, right: 3000.0 }
}

fn history(c: &Ctx, file: &File, m: &Machine, ops: &mut Vec<Op>, alphabet: (&[Op], &[Op]), depth: usize) {
    if c.stopped() {
        return;
    }
    let list = if m.inside { alphabet.1 } else { alphabet.0 };
    let mut next = vec![];
    for op in list.iter().filter(|o| m.can(**o)) {
        let mut n = m.clone();
        n.apply(*op);
        next.push((*op, n));
    }
    if depth == 1 {
        // A page for each last operator: what happens on one must not show on another.
        c.case(
            || format!("operators {ops:?} then each of {:?}", next.iter().map(|n| n.0).collect::<Vec<_>>()),
            || {
                let mut pages = vec![];
                let mut want = vec![];
                for (op, n) in &next {
                    let mut n = n.clone();
                    n.probe();
                    let Some(w) = model_lines(&n.glyphs, &wide()) else {
                        c.outcome("overlapping");
                        continue;
                    };
                    pages.push((file.resources.clone(), n.out.into_bytes()));
                    want.push((op, w));
                }
                c.steps((pages.len() * (ops.len() + 1)) as u64);
                let got = parse(&file.pdf.clone().finish(&pages), &wide())?;
                check!(got.len() == want.len(), "{} pages instead of {}", got.len(), want.len());
                for (i, (g, (op, w))) in got.iter().zip(&want).enumerate() {
                    same_lines(g, w).map_err(|e| {
                        format!("after {op:?}: {e}; contents: {}", String::from_utf8_lossy(&pages[i].1).replace('\n', " "))
                    })?;
                    c.validated();
                }
                Ok(())
            },
        );
        return;
    }
    for (op, n) in &next {
        ops.push(*op);
        history(c, file, n, ops, alphabet, depth - 1);
        ops.pop();
    }
}

fn histories(name: &'static str, alphabet: (&'static [Op], &'static [Op]), depth: usize) -> Vec<Unit<'static>> {
    let mut u: Vec<Unit> = vec![];
    // Started outside or inside of a text object, with or without a font.
    for (si, start) in [vec![], vec![Font(0), Leading], vec![Font(0), Leading, Begin]].into_iter().enumerate() {
        let mut m = Machine::new();
        for op in &start {
            m.apply(*op);
        }
        let list = if m.inside { alphabet.1 } else { alphabet.0 };
        for first in list.iter().filter(|o| m.can(**o)) {
            let mut n = m.clone();
            n.apply(*first);
            let list = if n.inside { alphabet.1 } else { alphabet.0 };
            for second in list.iter().filter(|o| n.can(**o)) {
                let mut n = n.clone();
                n.apply(*second);
                let (first, second, start) = (*first, *second, start.clone());
                u.push(Unit {
                    label: format!("{name}-{si}-{first:?}-{second:?}"),
                    run: Box::new(move |c| {
                        let file = history_file();
                        let mut ops = start.clone();
                        ops.extend([first, second]);
                        for d in 1..=depth - 2 {
                            history(c, &file, &n, &mut ops, alphabet, d);
                        }
                    }),
                });
            }
        }
    }
    u
}

pub fn c17(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    let mut u = histories("all", (OUTSIDE, INSIDE), if t { 5 } else { 4 });
    u.extend(histories("core", (CORE_OUT, CORE_IN), if t { 8 } else { 6 }));
    u.extend(choose::units("operands", if t { 4 } else { 3 }, script, judge_script));
    u.extend(grown_contents());
    u
}

/// The operands of the operators: a script in which every number is chosen.
fn script(c: &mut Chooser) -> Machine {
    let mut m = Machine::new();
    m.s.font = Some(c.pick(3));
    m.s.size = c.of(&[10.0, 1.0, 0.5, 7.25, 24.0, 100.0]);
    m.out += &format!("/F{} {} Tf\n", m.s.font.unwrap(), m.s.size);
    m.s.tc = c.of(&[0.3, 0.0, -0.2, 3.0, 20.0]);
    m.out += &format!("{} Tc\n", m.s.tc);
    m.s.tw = c.of(&[1.5, 0.0, -0.4, 12.0, 40.0]);
    m.out += &format!("{} Tw\n", m.s.tw);
    let tz = c.of(&[90.0, 100.0, 50.0, 1.0, 99.5, 250.0]);
    m.s.tz = tz / 100.0;
    m.out += &format!("{tz} Tz\n");
    m.s.tl = c.of(&[14.0, 0.0, -14.0, 0.7, 100.0]);
    m.out += &format!("{} TL\n", m.s.tl);
    m.s.rise = c.of(&[0.0, 2.0, -2.0, 0.4, 30.0]);
    m.out += &format!("{} Ts\n", m.s.rise);
    m.out += "BT\n";
    let (a, b, cc, d) = c.of(&[
        (1.0, 0.0, 0.0, 1.0),
        (2.5, 0.0, 0.0, 2.5),
        (0.5, 0.0, 0.0, 1.75),
        (1.0, 0.0, 0.25, 1.0),
        (1.0, 0.002, -0.002, 1.0),
        (0.1, 0.0, 0.0, 0.1),
        (0.8, 0.02, 0.3, 0.6),
    ]);
    let (e, f) = c.of(&[(60.0, 1500.0), (0.0, 0.0), (-40.0, -30.0), (700.5, 1000.25), (300.0, -200.0)]);
    m.s.lm = [a, b, cc, d, e, f];
    m.s.tm = m.s.lm;
    m.out += &format!("{a} {b} {cc} {d} {e} {f} Tm\n");
    m.show(b"Ab c");
    m.out += &format!("{} Tj\n", m.lit("Ab c"));
    let item = |m: &mut Machine, c: &mut Chooser| {
        let k = c.of(&[-250.0, 0.0, 120.0, -60.0, -1000.0, -6000.0, 3.5]);
        m.show(b"d");
        m.advance(-k / 1000.0 * m.s.size * m.s.tz);
        format!("{} {k} ", m.lit("d"))
    };
    let i1 = item(&mut m, c);
    let i2 = item(&mut m, c);
    m.show(b"e f");
    m.out += &format!("[{i1}{i2}{}] TJ\n", m.lit("e f"));
    let (x, y) = c.of(&[(5.0, -30.0), (0.0, 0.0), (-5.0, 30.0), (300.0, -0.7), (0.25, -200.0), (40.0, 16.5)]);
    if c.yes() {
        m.s.tl = -y;
        m.out += &format!("{x} {y} TD\n");
    } else {
        m.out += &format!("{x} {y} Td\n");
    }
    m.translate(x, y);
    m.show(b"G h");
    m.out += &format!("{} Tj\n", m.lit("G h"));
    m.translate(0.0, -m.s.tl);
    m.out += "T*\n";
    // The state of the text survives the end of the object.
    if c.yes() {
        m.matrix(1.0, 1.0, 0.0, 0.0);
        m.out += "ET BT\n";
        m.translate(500.0, 600.0);
        m.out += "500 600 Td\n";
    }
    m.show(b"I");
    m.out += &format!("{} Tj\n", m.lit("I"));
    let (tw, tc) = c.of(&[(2.0, 0.5), (0.0, 0.0), (-0.3, 4.0), (30.0, -0.1)]);
    (m.s.tw, m.s.tc) = (tw, tc);
    m.translate(0.0, -m.s.tl);
    m.show(b"J k");
    m.out += &format!("{tw} {tc} {} \"\n", m.lit("J k"));
    m.s.size = c.of(&[10.0, 12.5, 3.0]);
    m.out += &format!("/F{} {} Tf\n", m.s.font.unwrap(), m.s.size);
    m.translate(0.0, -m.s.tl);
    m.show(b"L m");
    m.out += &format!("{} '\n", m.lit("L m"));
    m.out += "ET\n";
    m
}

fn judge_script(c: &Ctx, choices: &[usize], m: &Machine) {
    let file = history_file();
    c.case(
        || format!("operands {choices:?}: {}", m.out.replace('\n', " ")),
        || {
            let Some(want) = model_lines(&m.glyphs, &wide()) else {
                c.outcome("overlapping");
                return Ok(());
            };
            let got = parse(&file.pdf.clone().finish(&[(file.resources.clone(), m.out.clone().into_bytes())]), &wide())?;
            c.steps(14);
            c.validated();
            same_lines(&got[0], &want)
        },
    );
}

/// One-dimensional families of contents.
const GROWN_CONTENTS: &[(&str, usize)] =
    &[("saved", 300), ("saved-changed", 120), ("forms", 40), ("drawn-forms", 100), ("adjusted", 300), ("string", 300), ("actual", 300), ("actual-glyphs", 150), ("spans", 120), ("marked", 200), ("newlines", 100), ("fonts", 100), ("objects", 150), ("moved", 150)];

fn judge_contents(c: &Ctx, kind: &'static str, n: usize) {
    c.case(
        || format!("{n} {kind}"),
        || {
            let mut m = Machine::new();
            let mut pdf = Pdf::default();
            let (f0, f1) = (pdf.add(font(0)), pdf.add(font(1)));
            let mut resources = format!("/Font << /F0 {f0} 0 R /F1 {f1} 0 R >>");
            let letter = |i: usize| b"abcdefghijkl"[i % 12];
            m.apply(Font(0));
            m.s.size = 4.0;
            m.out = "/F0 4 Tf\n".into();
            let begin = |m: &mut Machine, x: f64, y: f64| {
                m.matrix(1.0, 1.0, 0.0, 0.0);
                m.translate(x, y);
                m.out += &format!("BT {x} {y} Td\n");
            };
            let show = |m: &mut Machine, t: &[u8]| {
                m.show(t);
                m.out += &format!("{} Tj\n", hex(t));
            };
            match kind {
                "saved" | "saved-changed" => {
                    for i in 0..n {
                        m.apply(Save);
                        if kind == "saved-changed" || i % 10 == 0 {
                            m.s.font = Some(i % 2);
                            m.s.size = 3.0 + (i % 5) as f64;
                            m.out += &format!("/F{} {} Tf\n", i % 2, m.s.size);
                        }
                    }
                    for i in 0..n {
                        if kind == "saved-changed" {
                            begin(&mut m, 30.0, 1900.0 - 15.0 * i as f64);
                            show(&mut m, &[letter(i), b'Z']);
                            m.out += "ET\n";
                        }
                        m.apply(Restore);
                    }
                    begin(&mut m, 300.0, 700.0);
                    show(&mut m, b"Ab c");
                }
                "forms" => {
                    // A form in a form in a form...
                    let mut inner: Option<usize> = None;
                    for i in 0..n {
                        let r = inner.map_or(String::new(), |x| format!("/XObject << /X {x} 0 R >>"));
                        let y = 1900.0 - 30.0 * i as f64;
                        let body = format!(
                            "BT /F{} {} Tf 30 {y} Td {} Tj ET {} BT 300 {y} Td (Z) Tj ET",
                            i % 2,
                            4 + i % 3,
                            hex(&[letter(i)]),
                            if inner.is_some() { "/X Do" } else { "" }
                        );
                        inner = Some(pdf.stream(
                            &format!("/Type /XObject /Subtype /Form /BBox [0 0 600 900] /Resources << /Font << /F0 {f0} 0 R /F1 {f1} 0 R >> {r} >>"),
                            body.as_bytes(),
                        ));
                        let saved = m.s.clone();
                        (m.s.font, m.s.size) = (Some(i % 2), (4 + i % 3) as f64);
                        m.matrix(1.0, 1.0, 30.0, y);
                        m.show(&[letter(i)]);
                        m.matrix(1.0, 1.0, 300.0, y);
                        m.show(b"Z");
                        m.s = saved;
                    }
                    resources += &format!("/XObject << /X {} 0 R >>", inner.unwrap());
                    m.out += "/X Do\n";
                    begin(&mut m, 30.0, 1950.0);
                    show(&mut m, b"Ab c");
                }
                "drawn-forms" => {
                    // Many forms one after another, each of its own.
                    let mut x = String::new();
                    for i in 0..n {
                        let y = 1900.0 - 15.0 * i as f64;
                        let o = pdf.stream(
                            "/Type /XObject /Subtype /Form /BBox [0 0 600 900]",
                            format!("BT /F1 5 Tf 30 {y} Td {} Tj ET", hex(&[letter(i)])).as_bytes(),
                        );
                        x += &format!("/X{i} {o} 0 R ");
                        m.out += &format!("/X{i} Do\n");
                        let saved = m.s.clone();
                        (m.s.font, m.s.size) = (Some(1), 5.0);
                        m.matrix(1.0, 1.0, 30.0, y);
                        m.show(&[letter(i)]);
                        m.s = saved;
                        begin(&mut m, 300.0, y);
                        show(&mut m, b"Z");
                        m.out += "ET\n";
                    }
                    resources += &format!("/XObject << {x} >>");
                }
                "adjusted" => {
                    begin(&mut m, 30.0, 700.0);
                    m.out += "[";
                    for i in 0..n {
                        m.show(&[letter(i)]);
                        let k = [-40.0, 20.0, -300.0][i % 3];
                        m.advance(-k / 1000.0 * m.s.size);
                        m.out += &format!("{} {k} ", hex(&[letter(i)]));
                    }
                    m.out += "] TJ\n";
                    show(&mut m, b"Z");
                }
                "string" => {
                    begin(&mut m, 30.0, 700.0);
                    let t: Vec<u8> = (0..n).map(letter).collect();
                    m.show(&t);
                    m.out += &format!("({}) Tj\n", String::from_utf8(t).unwrap());
                    show(&mut m, b"Z");
                }
                "actual" => {
                    begin(&mut m, 30.0, 700.0);
                    let t: String = (0..n).map(|i| ['Ő', 'a', 'Z', 'ű', 'n'][i % 5]).collect();
                    m.s.size = 100.0;
                    m.out += "/F0 100 Tf\n";
                    m.actual(b"xyzw", &t);
                    let h: String = t.encode_utf16().map(|u| format!("{u:04X}")).collect();
                    m.out += &format!("/Span << /ActualText <FEFF{h}> >> BDC (xyzw) Tj EMC\n");
                }
                "actual-glyphs" => {
                    begin(&mut m, 30.0, 700.0);
                    let t: Vec<u8> = (0..n).map(letter).collect();
                    m.actual(&t, "Őa");
                    m.out += "/Span << /ActualText <FEFF01500061> >> BDC\n";
                    for c in &t {
                        m.out += &format!("{} Tj\n", hex(&[*c]));
                    }
                    m.out += "EMC\n";
                    show(&mut m, b"Z");
                }
                "spans" => {
                    begin(&mut m, 30.0, 700.0);
                    for i in 0..n {
                        m.actual(&[letter(i)], ["Ő", "b", "ú"][i % 3]);
                        let u = ['Ő', 'b', 'ú'][i % 3] as u32;
                        m.out += &format!("/Span << /ActualText <FEFF{u:04X}> >> BDC {} Tj EMC\n", hex(&[letter(i)]));
                    }
                    show(&mut m, b"Z");
                }
                "marked" => {
                    begin(&mut m, 30.0, 700.0);
                    for i in 0..n {
                        m.out += ["/Artifact BMC\n", "/P << /MCID 1 >> BDC\n", "/Span << /Lang (hu) >> BDC\n"][i % 3];
                    }
                    show(&mut m, b"A");
                    m.actual(b"xy", "Ő");
                    m.out += "/Span << /ActualText <FEFF0150> >> BDC (xy) Tj EMC\n";
                    for i in 0..n {
                        m.out += "EMC\n";
                        if i % 20 == 0 {
                            show(&mut m, &[letter(i)]);
                        }
                    }
                }
                "newlines" => {
                    begin(&mut m, 30.0, 1900.0);
                    m.s.tl = 13.0;
                    m.out += "13 TL\n";
                    for i in 0..n {
                        m.translate(0.0, -13.0);
                        m.show(&[letter(i), b'Z']);
                        m.out += &format!("{} '\n", hex(&[letter(i), b'Z']));
                    }
                }
                "fonts" => {
                    // Each a font of its own.
                    let mut f = format!("/F0 {f0} 0 R ");
                    begin(&mut m, 30.0, 700.0);
                    for i in 0..n {
                        let bold = i % 3 == 1;
                        let w: Vec<u32> = (0..119).map(|k| if k == 0 { 300 } else { 400 + 3 * i as u32 }).collect();
                        let o = pdf.add(simple_font(if bold { "X-Bold" } else { "X-Regular" }, "/Encoding /WinAnsiEncoding", 32, &w, ""));
                        f += &format!("/G{i} {o} 0 R ");
                        m.out += &format!("/G{i} 4 Tf {} Tj\n", hex(&[letter(i)]));
                        let w = w[1] as f64 / 1000.0 * 4.0;
                        m.glyphs.push(Glyph { x: m.s.tm[4], y: 700.0, width: w, space: 1.2, bold, c: letter(i) as char });
                        m.s.tm[4] += w;
                    }
                    m.out += "/F0 4 Tf\n";
                    show(&mut m, b"Z");
                    resources = format!("/Font << {f} >>");
                }
                "objects" => {
                    for i in 0..n {
                        begin(&mut m, 30.0 + (i % 10) as f64 * 20.0, 1900.0 - (i / 10) as f64 * 13.0);
                        show(&mut m, &[letter(i), b'Z']);
                        m.out += "ET\n";
                    }
                }
                _ => {
                    begin(&mut m, 30.0, 1900.0);
                    for i in 0..n {
                        let (x, y) = if i % 10 == 9 { (-180.0, -13.0) } else { (20.0, 0.0) };
                        show(&mut m, &[letter(i)]);
                        m.translate(x, y);
                        m.out += &format!("{x} {y} Td\n");
                    }
                }
            }
            let want = model_lines(&m.glyphs, &wide()).ok_or("the case is not well made")?;
            let got = parse(&pdf.finish(&[(format!("<< {resources} >>"), m.out.clone().into_bytes())]), &wide())?;
            c.steps(n as u64);
            c.validated();
            same_lines(&got[0], &want)
        },
    );
}

fn grown_contents() -> Vec<Unit<'static>> {
    GROWN_CONTENTS
        .iter()
        .flat_map(|(kind, max)| {
            sizes(*max).into_iter().map(move |n| Unit { label: format!("{kind}-{n}"), run: Box::new(move |c: &Ctx| judge_contents(c, kind, n)) })
        })
        .collect()
}

// ---------------------------------------------------------------- C17: fonts

fn quirk(c: char) -> char {
    match c {
        'Õ' => 'Ő',
        'õ' => 'ő',
        'Û' => 'Ű',
        'û' => 'ű',
        c => c,
    }
}
const BASES: [&str; 6] = ["StandardEncoding", "SymbolEncoding", "MacRomanEncoding", "WinAnsiEncoding", "MacExpertEncoding", ""];
const NAMES: [(&str, &str); 7] =
    [("", ""), ("A", "A"), ("Aacute", "Á"), ("Otilde", "Õ"), ("ohungarumlaut", "ő"), ("g77", ""), ("space", " ")];
const UNICODES: [Option<&str>; 7] = [None, Some("B"), Some("Ű"), Some("û"), Some("ffi"), Some("aõ"), Some("\u{a0}")];

fn cmap(entries: &[(u32, usize, &str)]) -> Vec<u8> {
    let mut s = format!("/CIDInit /ProcSet findresource begin\n{} beginbfchar\n", entries.len());
    for (code, digits, text) in entries {
        let t: String = text.encode_utf16().map(|u| format!("{u:04X}")).collect();
        s += &format!("<{code:0w$X}> <{t}>\n", w = digits);
    }
    (s + "endbfchar\nendcmap\n").into_bytes()
}

/// What a code of a simple font is drawn as: None if it means nothing.
fn simple_meaning(base: usize, name: usize, unicode: usize, code: u8) -> Option<String> {
    if let Some(u) = UNICODES[unicode] {
        return Some(u.into());
    }
    if name != 0 {
        return Some(NAMES[name].1.into());
    }
    let table = [
        Some(&pdf_encoding::STANDARD),
        Some(&pdf_encoding::SYMBOL),
        Some(&pdf_encoding::MACROMAN),
        Some(&pdf_encoding::WINANSI),
        Some(&pdf_encoding::MACEXPERT),
        None,
    ][base];
    match table.and_then(|t| t.get(code)) {
        Some(c) => Some(c.into()),
        None if base == 3 && code > 31 => Some("\u{2022}".into()),
        None => None,
    }
}

fn simple_fonts(base: usize, code: u8, c: &Ctx) {
    for name in 0..NAMES.len() {
        for unicode in 0..UNICODES.len() {
            if base == 3 && code == 31 {
                continue;
            }
            c.case(
                || {
                    format!(
                        "code {code} of a font with base encoding '{}', difference '{}', and ToUnicode {:?}",
                        BASES[base], NAMES[name].0, UNICODES[unicode]
                    )
                },
                || {
                    let mut pdf = Pdf::default();
                    let f0 = pdf.add(font(0));
                    let more = if let Some(u) = UNICODES[unicode] {
                        let s = pdf.stream("", &cmap(&[(code as u32, 2, u)]));
                        format!("/ToUnicode {s} 0 R")
                    } else {
                        String::new()
                    };
                    let encoding = match (BASES[base], NAMES[name].0) {
                        ("", "") => "/Encoding << /Type /Encoding >>".into(),
                        ("", n) => format!("/Encoding << /Type /Encoding /Differences [{code} /{n}] >>"),
                        (b, "") => format!("/Encoding /{b}"),
                        (b, n) => format!("/Encoding << /Type /Encoding /BaseEncoding /{b} /Differences [{code} /{n}] >>"),
                    };
                    let f1 = pdf.add(simple_font("Times-Bold", &encoding, code as usize, &[610], &more));
                    let text = format!(
                        "BT /F0 10 Tf 1 0 0 1 100 700 Tm (A) Tj /F1 10 Tf 1 0 0 1 150 700 Tm {} Tj /F0 10 Tf 1 0 0 1 200 700 Tm (Z) Tj ET",
                        hex(&[code])
                    );
                    let got = parse(
                        &pdf.finish(&[(format!("<< /Font << /F0 {f0} 0 R /F1 {f1} 0 R >> >>"), text.into_bytes())]),
                        &wide(),
                    );
                    c.steps(1);
                    c.validated();
                    let Some(meaning) = simple_meaning(base, name, unicode, code) else {
                        check!(got.is_err(), "a code that means nothing was drawn as {}", show_real(&got.unwrap()[0].lines));
                        return Ok(());
                    };
                    let f = Run { text: b"A", font: 0, size: 10.0, x: 100.0, y: 700.0 };
                    let mut g = vec![];
                    f.glyphs(&mut g);
                    let n = meaning.chars().count() as f64;
                    for (i, ch) in meaning.chars().enumerate() {
                        let space = if code == 32 { 6.1 } else { 2.5 };
                        g.push(Glyph { x: 150.0 + 6.1 / n * i as f64, y: 700.0, width: 6.1 / n, space, bold: true, c: quirk(ch) });
                    }
                    Run { text: b"Z", x: 200.0, ..f }.glyphs(&mut g);
                    let want = model_lines(&g, &wide()).ok_or("the case is not well made")?;
                    same_lines(&got?[0], &want)
                },
            );
        }
    }
}

pub fn type0(pdf: &mut Pdf, name: &str, w: &str, tounicode: &str) -> usize {
    let d = pdf.add(format!("<< /Type /FontDescriptor /FontName /{name} /Flags 4 /FontBBox [0 0 1000 1000] /ItalicAngle 0 >>"));
    let c = pdf.add(format!(
        "<< /Type /Font /Subtype /CIDFontType2 /BaseFont /{name} /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> /FontDescriptor {d} 0 R /DW 500 /W [{w}] >>"
    ));
    pdf.add(format!(
        "<< /Type /Font /Subtype /Type0 /BaseFont /{name} /Encoding /Identity-H /DescendantFonts [{c} 0 R] {tounicode} >>"
    ))
}

/// Every two-byte code of a font, a page for each block of 256.
fn identity(block: u32, c: &Ctx) {
    for mapped in [false, true] {
        c.case(
            || format!("codes {:#06x}.. of a two-byte font {} ToUnicode map", block << 8, if mapped { "with a" } else { "without" }),
            || {
                let mut pdf = Pdf::default();
                let codes: Vec<u32> = (0..256).map(|i| (block << 8) + i).collect();
                let tu = if mapped {
                    let m: Vec<(u32, usize, &str)> =
                        codes.iter().map(|c| (*c, 4, ["Ő", "gy", "Z"][(*c % 3) as usize])).collect();
                    let s = pdf.stream("", &cmap(&m));
                    format!("/ToUnicode {s} 0 R")
                } else {
                    String::new()
                };
                let f = type0(&mut pdf, "ABC+MyriadPro-Regular", &format!("{} [300]", (block << 8) + 7), &tu);
                let mut g = vec![];
                let mut pages = vec![];
                let mut refused = false;
                let mut s = "BT /F 10 Tf\n".to_string();
                for (i, code) in codes.iter().enumerate() {
                    let (x, y) = (20.0 + 30.0 * (i % 16) as f64, 800.0 - 15.0 * (i / 16) as f64);
                    let w = if code & 255 == 7 { 3.0 } else { 5.0 };
                    s += &format!("1 0 0 1 {x} {y} Tm <{code:04X}> Tj\n");
                    let text: String = if mapped {
                        ["Ő", "gy", "Z"][(*code % 3) as usize].into()
                    } else {
                        match char::from_u32(*code) {
                            Some(ch) => quirk(ch).into(),
                            None => {
                                refused = true;
                                String::new()
                            }
                        }
                    };
                    let n = text.chars().count() as f64;
                    for (k, ch) in text.chars().enumerate() {
                        g.push(Glyph { x: x + w / n * k as f64, y, width: w / n, space: 5.0, bold: false, c: ch });
                    }
                }
                pages.push((format!("<< /Font << /F {f} 0 R >> >>"), (s + "ET").into_bytes()));
                let got = parse(&pdf.finish(&pages), &wide());
                c.steps(256);
                c.validated();
                if refused {
                    check!(got.is_err(), "codes that are no characters were drawn");
                    return Ok(());
                }
                let want = model_lines(&g, &wide()).ok_or("the case is not well made")?;
                same_lines(&got?[0], &want)
            },
        );
    }
}

/// Documents of up to three pages, each with its own font under the same name.
fn documents(c: &Ctx, first: usize, pages: usize) {
    const FONTS: usize = 3;
    const KINDS: usize = 6;
    let n = FONTS * KINDS;
    for rest in 0..n.pow(pages as u32 - 1) {
        let mut choice = vec![first];
        let mut r = rest;
        for _ in 1..pages {
            choice.push(r % n);
            r /= n;
        }
        c.case(
            || {
                let d: Vec<String> = choice
                    .iter()
                    .map(|k| {
                        format!(
                            "font {} {}",
                            ["plain", "bold with differences", "two-byte"][k / KINDS],
                            ["by reference", "inline", "inherited", "in a form", "in a graphics state", "inherited, contents in parts"][k % KINDS]
                        )
                    })
                    .collect();
                format!("pages with {d:?}")
            },
            || {
                let mut pdf = Pdf::default();
                let plain = pdf.add(font(0));
                let diff = simple_font(
                    "Arial,Bold",
                    "/Encoding << /Type /Encoding /BaseEncoding /WinAnsiEncoding /Differences [65 /Oacute /b] >>",
                    65,
                    &[700, 640],
                    "",
                );
                let bold = pdf.add(diff.clone());
                let tu = pdf.stream("", &cmap(&[(65, 4, "Ú"), (66, 4, "v")]));
                let two = type0(&mut pdf, "ABC+Minion", "65 66 550", &format!("/ToUnicode {tu} 0 R"));
                let tree = pdf.reserve();
                let mut kids = String::new();
                let mut want = vec![];
                for k in &choice {
                    let (f, kind) = (k / KINDS, k % KINDS);
                    let object = [plain, bold, two][f];
                    let show = if f == 2 { "<00410042>" } else { "(AB)" };
                    let mut text = format!("BT /F 10 Tf 1 0 0 1 100 700 Tm {show} Tj ET ");
                    let inline = match f {
                        0 => font(0),
                        1 => diff.clone(),
                        _ => format!("{two} 0 R"),
                    };
                    let by_ref = format!("<< /Font << /F {object} 0 R >> >>");
                    let (res, inherited) = match kind {
                        0 => (by_ref, false),
                        1 => (format!("<< /Font << /F {inline} >> >>"), false),
                        2 | 5 => (by_ref, true),
                        3 => {
                            let x = pdf.stream(&format!("/Type /XObject /Subtype /Form /BBox [0 0 600 900] /Resources {by_ref}"), text.as_bytes());
                            text = "/X Do".into();
                            (format!("<< /XObject << /X {x} 0 R >> >>"), false)
                        }
                        _ => {
                            text = text.replace("/F 10 Tf", "/G gs");
                            (format!("<< /ExtGState << /G << /Type /ExtGState /Font [{object} 0 R 10] >> >> >>"), false)
                        }
                    };
                    let contents = if kind == 5 {
                        let (a, b) = text.split_once("Tm").unwrap();
                        let (a, b) = (pdf.stream("", format!("{a}Tm").as_bytes()), pdf.stream("", b.as_bytes()));
                        format!("[{a} 0 R {b} 0 R]")
                    } else {
                        format!("{} 0 R", pdf.stream("", text.as_bytes()))
                    };
                    let node = pdf.reserve();
                    let (own, above) = if inherited { (String::new(), format!("/Resources {res}")) } else { (format!("/Resources {res}"), String::new()) };
                    let p = pdf.add(format!("<< /Type /Page /Parent {node} 0 R /MediaBox [0 0 595 842] {own} /Contents {contents} >>"));
                    pdf.set(node, format!("<< /Type /Pages /Parent {tree} 0 R {above} /Count 1 /Kids [{p} 0 R] >>"));
                    kids += &format!("{node} 0 R ");
                    let (ws, chars) = match f {
                        0 => ([width(0, 65), width(0, 66)], ['A', 'B']),
                        1 => ([700, 640], ['Ó', 'b']),
                        _ => ([550, 550], ['Ú', 'v']),
                    };
                    let g: Vec<Glyph> = (0..2)
                        .map(|i| Glyph {
                            x: 100.0 + if i == 1 { ws[0] as f64 / 100.0 } else { 0.0 },
                            y: 700.0,
                            width: ws[i] as f64 / 100.0,
                            space: 2.5,
                            bold: f == 1,
                            c: chars[i],
                        })
                        .collect();
                    want.push(model_lines(&g, &wide()).ok_or("the case is not well made")?);
                }
                pdf.set(tree, format!("<< /Type /Pages /Count {} /Kids [{kids}] >>", choice.len()));
                let got = parse(&pdf.file(tree), &wide())?;
                c.steps(choice.len() as u64);
                check!(got.len() == want.len(), "{} pages instead of {}", got.len(), want.len());
                for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                    same_lines(g, w).map_err(|e| format!("page {}: {e}", i + 1))?;
                }
                c.validated();
                Ok(())
            },
        );
    }
}

/// Glyph names, as in the Adobe Glyph List.
const GLYPHS: &[(&str, &str)] = &[
    ("aacute", "á"), ("Aacute", "Á"), ("eacute", "é"), ("Eacute", "É"), ("iacute", "í"), ("Iacute", "Í"), ("oacute", "ó"),
    ("Oacute", "Ó"), ("odieresis", "ö"), ("Odieresis", "Ö"), ("ohungarumlaut", "ő"), ("Ohungarumlaut", "Ő"), ("uacute", "ú"),
    ("Uacute", "Ú"), ("udieresis", "ü"), ("Udieresis", "Ü"), ("uhungarumlaut", "ű"), ("Uhungarumlaut", "Ű"), ("section", "§"),
    ("quotedblbase", "„"), ("quotedblright", "”"), ("quotedblleft", "“"), ("quoteright", "’"), ("quoteleft", "‘"),
    ("quotesinglbase", "‚"), ("guillemotleft", "«"), ("guillemotright", "»"), ("endash", "–"), ("emdash", "—"), ("hyphen", "-"),
    ("ellipsis", "…"), ("bullet", "•"), ("degree", "°"), ("comma", ","), ("period", "."), ("colon", ":"), ("semicolon", ";"),
    ("parenleft", "("), ("parenright", ")"), ("bracketleft", "["), ("bracketright", "]"), ("slash", "/"), ("exclam", "!"),
    ("question", "?"), ("quotedbl", "\""), ("quotesingle", "'"), ("percent", "%"), ("perthousand", "‰"), ("ampersand", "&"),
    ("plus", "+"), ("minus", "−"), ("equal", "="), ("multiply", "×"), ("divide", "÷"), ("plusminus", "±"), ("less", "<"),
    ("greater", ">"), ("underscore", "_"), ("at", "@"), ("Euro", "€"), ("copyright", "©"), ("registered", "®"), ("zero", "0"),
    ("one", "1"), ("two", "2"), ("three", "3"), ("four", "4"), ("five", "5"), ("six", "6"), ("seven", "7"), ("eight", "8"),
    ("nine", "9"), ("onesuperior", "¹"), ("twosuperior", "²"), ("threesuperior", "³"), ("onehalf", "½"), ("a", "a"), ("b", "b"),
    ("m", "m"), ("z", "z"), ("A", "A"), ("B", "B"), ("M", "M"), ("Z", "Z"), ("otilde", "õ"), ("Otilde", "Õ"), ("ucircumflex", "û"),
    ("Ucircumflex", "Û"), ("adieresis", "ä"), ("Adieresis", "Ä"), ("germandbls", "ß"), ("ccaron", "č"), ("scaron", "š"), ("Scaron", "Š"),
    ("zcaron", "ž"), ("lslash", "ł"), ("dotlessi", "ı"), ("aring", "å"), ("ae", "æ"), ("oslash", "ø"), ("ntilde", "ñ"),
    ("alpha", "α"), ("beta", "β"), ("pi", "π"), ("summation", "∑"), ("radical", "√"), ("notequal", "≠"),
    ("lessequal", "≤"), ("greaterequal", "≥"), ("dagger", "†"), ("fraction", "⁄"), ("trademark", "™"), ("acircumflex", "â"),
];

/// Fonts that rename codes: `n` names from the code `from` on, in the list at `shift`, in parts of
/// `part` codes with a gap of one between them.
fn differences(c: &Ctx, from: usize, n: usize, shift: usize, part: usize) {
    c.case(
        || format!("{n} codes from {from} renamed in parts of {part} from '{}' on", GLYPHS[shift].0),
        || {
            let mut pdf = Pdf::default();
            let mut d = String::new();
            let mut codes = vec![];
            let mut code = from;
            for i in 0..n {
                if i % part == 0 {
                    code += usize::from(i > 0);
                    d += &format!(" {code}");
                }
                if code > 255 {
                    return Ok(());
                }
                let g = GLYPHS[(shift + i) % GLYPHS.len()];
                d += &format!(" /{}", g.0);
                codes.push((code as u8, g.1));
                code += 1;
            }
            let f = pdf.add(simple_font(
                "ABC+Times",
                &format!("/Encoding << /Type /Encoding /BaseEncoding /WinAnsiEncoding /Differences [{d}] >>"),
                0,
                &[600; 256],
                "",
            ));
            let (mut g, mut s) = (vec![], "BT /F 10 Tf\n".to_string());
            for (i, (code, text)) in codes.iter().enumerate() {
                let (x, y) = (20.0 + 30.0 * (i % 16) as f64, 800.0 - 15.0 * (i / 16) as f64);
                s += &format!("1 0 0 1 {x} {y} Tm {} Tj\n", hex(&[*code]));
                g.push(Glyph { x, y, width: 6.0, space: 6.0, bold: false, c: quirk(text.chars().next().unwrap()) });
            }
            let want = model_lines(&g, &wide()).ok_or("the case is not well made")?;
            let got = parse(&pdf.finish(&[(format!("<< /Font << /F {f} 0 R >> >>"), (s + "ET").into_bytes())]), &wide())?;
            c.steps(n as u64);
            c.validated();
            same_lines(&got[0], &want)
        },
    );
}

/// The names of fonts tell which are bold.
fn weights(c: &Ctx) {
    const NAMES: &[(&str, bool)] = &[
        ("MyriadPro-Bold", true), ("ABCDEF+MyriadPro-Bold", true), ("Arial,Bold", true), ("TimesNewRomanPS-BoldMT", true),
        ("TimesNewRomanPS-BoldItalicMT", true), ("Times-BoldItalic", true), ("MyriadPro-Semibold", true), ("MyriadPro-SemiBold", true),
        ("Frutiger-ExtraBold", true), ("Bold", true), ("bold", true), ("ABCDEF+bold", true), ("Helvetica-BoldOblique", true),
        ("Univers-CondensedBold", true), ("Gothicbold", true), ("MyriadPro-Regular", false), ("MyriadPro-Light", false),
        ("MyriadPro-It", false), ("Times-Roman", false), ("Times-Italic", false), ("Minion", false), ("BOL+Arial", false),
        ("ABCDEF+Bol", false), ("Arial-Black", false), ("X", false),
    ];
    for (name, bold) in NAMES {
        for two_byte in [false, true] {
            for (after, after_bold) in NAMES.iter().take(24).step_by(5) {
                c.case(
                    || format!("text in the {} font {name} before text in {after}", if two_byte { "two-byte" } else { "simple" }),
                    || {
                        let mut pdf = Pdf::default();
                        let f = if two_byte {
                            type0(&mut pdf, name, "32 [500] 65 [500 500]", "")
                        } else {
                            pdf.add(simple_font(name, "/Encoding /WinAnsiEncoding", 32, &[500; 100], ""))
                        };
                        let h = pdf.add(simple_font(after, "/Encoding /WinAnsiEncoding", 32, &[500; 100], ""));
                        let (ab, ..) = if two_byte { ("<00410042>",) } else { ("(AB)",) };
                        let s = format!("BT 1 0 0 1 100 700 Tm /F 10 Tf {ab} Tj /H 10 Tf (cd) Tj 0 -30 Td (e) Tj /F 10 Tf {ab} Tj ET");
                        let g: Vec<Glyph> = [
                            (100.0, 700.0, 'A', *bold), (105.0, 700.0, 'B', *bold), (110.0, 700.0, 'c', *after_bold),
                            (115.0, 700.0, 'd', *after_bold), (100.0, 670.0, 'e', *after_bold), (105.0, 670.0, 'A', *bold),
                            (110.0, 670.0, 'B', *bold),
                        ]
                        .iter()
                        .map(|(x, y, c, bold)| Glyph { x: *x, y: *y, width: 5.0, space: 5.0, bold: *bold, c: *c })
                        .collect();
                        let want = model_lines(&g, &wide()).ok_or("the case is not well made")?;
                        let got = parse(&pdf.finish(&[(format!("<< /Font << /F {f} 0 R /H {h} 0 R >> >>"), s.into_bytes())]), &wide())?;
                        c.steps(2);
                        c.validated();
                        same_lines(&got[0], &want)
                    },
                );
            }
        }
    }
}

/// ToUnicode maps and widths in every notation, with `n` entries from the code `from` on.
fn notations(c: &Ctx, from: u32, n: u32) {
    for map in ["char", "range", "array", "chars-in-blocks", "long", "wide"] {
        for w in ["list", "range", "lists", "none"] {
            c.case(
                || format!("a two-byte font with {n} codes from {from} mapped by {map}, widths by {w}"),
                || {
                    let mut pdf = Pdf::default();
                    let text = |i: u32| -> String {
                        match map {
                            "long" => ["ffi", "fl", "Őa", "ssz"][i as usize % 4].into(),
                            "wide" => char::from_u32(0x1D400 + i).unwrap().to_string(),
                            _ => char::from_u32(0x100 + i).unwrap().to_string(),
                        }
                    };
                    let utf = |t: &str| -> String { t.encode_utf16().map(|u| format!("{u:04X}")).collect() };
                    let mut s = "/CIDInit /ProcSet findresource begin\n1 begincodespacerange\n<0000> <FFFF>\nendcodespacerange\n".to_string();
                    match map {
                        "range" => s += &format!("1 beginbfrange\n<{from:04X}> <{:04X}> <{}>\nendbfrange\n", from + n - 1, utf(&text(0))),
                        "array" => {
                            let a: Vec<String> = (0..n).map(|i| format!("<{}>", utf(&text(i)))).collect();
                            s += &format!("1 beginbfrange\n<{from:04X}> <{:04X}> [{}]\nendbfrange\n", from + n - 1, a.join(" "));
                        }
                        _ => {
                            let block = if map == "chars-in-blocks" { 7 } else { n };
                            let mut i = 0;
                            while i < n {
                                let k = block.min(n - i);
                                s += &format!("{k} beginbfchar\n");
                                for j in i..i + k {
                                    s += &format!("<{:04X}> <{}>\n", from + j, utf(&text(j)));
                                }
                                s += "endbfchar\n";
                                i += k;
                            }
                        }
                    }
                    s += "endcmap\n";
                    let tu = pdf.stream("", s.as_bytes());
                    let width = |i: u32| match w {
                        "range" => 700,
                        "none" => 500,
                        _ => 400 + i,
                    };
                    let ws = match w {
                        "range" => format!("{from} {} 700", from + n - 1),
                        "none" => String::new(),
                        "list" => format!("{from} [{}]", (0..n).map(|i| width(i).to_string()).collect::<Vec<_>>().join(" ")),
                        _ => (0..n).map(|i| format!("{} [{}]", from + i, width(i))).collect::<Vec<_>>().join(" "),
                    };
                    // The space has a width too when its code is one of those.
                    let space = if (from..from + n).contains(&32) { width(32 - from) } else { 500 } as f64 / 100.0;
                    let f = type0(&mut pdf, "ABC+Minion", &ws, &format!("/ToUnicode {tu} 0 R"));
                    let (mut g, mut out) = (vec![], "BT /F 10 Tf\n".to_string());
                    for i in 0..n {
                        let (x, y) = (20.0 + 30.0 * (i % 16) as f64, 1800.0 - 15.0 * (i / 16) as f64);
                        out += &format!("1 0 0 1 {x} {y} Tm <{:04X}> Tj\n", from + i);
                        let t = text(i);
                        let k = t.chars().count() as f64;
                        let cw = width(i) as f64 / 100.0;
                        for (j, ch) in t.chars().enumerate() {
                            g.push(Glyph { x: x + cw / k * j as f64, y, width: cw / k, space, bold: false, c: quirk(ch) });
                        }
                    }
                    let want = model_lines(&g, &wide()).ok_or("the case is not well made")?;
                    let got = parse(&pdf.finish(&[(format!("<< /Font << /F {f} 0 R >> >>"), (out + "ET").into_bytes())]), &wide())?;
                    c.steps(n as u64);
                    c.validated();
                    same_lines(&got[0], &want)
                },
            );
        }
    }
}

pub fn c18(_tier: Tier) -> Vec<Unit<'static>> {
    let mut u: Vec<Unit> = vec![];
    for shift in 0..GLYPHS.len() {
        u.push(Unit {
            label: format!("differences-{shift}"),
            run: Box::new(move |c| {
                for from in [0, 1, 24, 32, 33, 65, 127, 128, 160, 200, 255] {
                    for n in [1, 2, 3, 5, 10, 26, 50, 100, 116, 200, 224, 256] {
                        for part in [1, 2, 7, 30, 300] {
                            if from + n <= 256 && part <= n.max(1) {
                                differences(c, from, n, shift, part);
                            }
                        }
                    }
                }
            }),
        });
    }
    u.push(Unit { label: "weights".into(), run: Box::new(weights) });
    for from in [1u32, 3, 30, 32, 100, 250, 256, 900, 999, 1000, 1001, 4000, 0xff00] {
        u.push(Unit {
            label: format!("notations-{from}"),
            run: Box::new(move |c| {
                for n in [1, 2, 3, 10, 26, 99, 100, 101, 128, 200, 255, 256] {
                    if from + n <= 0x10000 {
                        notations(c, from, n);
                    }
                }
            }),
        });
    }
    for base in 0..BASES.len() {
        for code in 0..=255u8 {
            u.push(Unit { label: format!("simple-{base}-{code}"), run: Box::new(move |c| simple_fonts(base, code, c)) });
        }
    }
    for block in 0..256 {
        u.push(Unit { label: format!("identity-{block}"), run: Box::new(move |c| identity(block, c)) });
    }
    for pages in 1..=3 {
        for first in 0..18 {
            u.push(Unit { label: format!("documents-{pages}-{first}"), run: Box::new(move |c| documents(c, first, pages)) });
        }
    }
    u
}
