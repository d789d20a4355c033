//! PDF files, and the model of how glyphs on a page become lines.
use crate::check;
use hun_law::parser::pdf::{parse_pdf, CropBox, PageOfLines};
use hun_law::util::indentedline::IndentedLine;

#[derive(Default, Clone)]
pub struct Pdf {
    objects: Vec<Vec<u8>>,
}

impl Pdf {
    /// Returns the object's number.
    pub fn add(&mut self, body: impl AsRef<[u8]>) -> usize {
        self.objects.push(body.as_ref().to_vec());
        self.objects.len()
    }
    pub fn reserve(&mut self) -> usize {
        self.add("null")
    }
    pub fn set(&mut self, n: usize, body: impl AsRef<[u8]>) {
        self.objects[n - 1] = body.as_ref().to_vec();
    }
    pub fn stream(&mut self, dict: &str, data: &[u8]) -> usize {
        let mut b = format!("<< /Length {} {dict} >>\nstream\n", data.len()).into_bytes();
        b.extend_from_slice(data);
        b.extend_from_slice(b"\nendstream");
        self.add(b)
    }
    /// `pages`: (resources dictionary, contents).
    pub fn finish(mut self, pages: &[(String, Vec<u8>)]) -> Vec<u8> {
        let tree = self.reserve();
        let mut kids = String::new();
        for (res, contents) in pages {
            let c = self.stream("", contents);
            let p = self.add(format!(
                "<< /Type /Page /Parent {tree} 0 R /MediaBox [0 0 595 842] {} /Contents {c} 0 R >>",
                if res.is_empty() { String::new() } else { format!("/Resources {res}") }
            ));
            kids += &format!("{p} 0 R ");
        }
        self.set(tree, format!("<< /Type /Pages /Count {} /Kids [{kids}] >>", pages.len()));
        self.file(tree)
    }
    pub fn file(mut self, tree: usize) -> Vec<u8> {
        let root = self.add(format!("<< /Type /Catalog /Pages {tree} 0 R >>"));
        let mut out = b"%PDF-1.4\n".to_vec();
        let mut xref = format!("xref\n0 {}\n0000000000 65535 f \n", self.objects.len() + 1);
        for (i, o) in self.objects.iter().enumerate() {
            xref += &format!("{:010} 00000 n \n", out.len());
            out.extend_from_slice(format!("{} 0 obj\n", i + 1).as_bytes());
            out.extend_from_slice(o);
            out.extend_from_slice(b"\nendobj\n");
        }
        let start = out.len();
        out.extend_from_slice(xref.as_bytes());
        out.extend_from_slice(
            format!("trailer\n<< /Size {} /Root {root} 0 R >>\nstartxref\n{start}\n%%EOF\n", self.objects.len() + 1).as_bytes(),
        );
        out
    }
}

/// A simple font's dictionary.
pub fn simple_font(name: &str, encoding: &str, first: usize, widths: &[u32], more: &str) -> String {
    format!(
        "<< /Type /Font /Subtype /TrueType /BaseFont /{name} {encoding} /FirstChar {first} /LastChar {} /Widths [{}] {more} >>",
        first + widths.len() - 1,
        widths.iter().map(|w| w.to_string()).collect::<Vec<_>>().join(" ")
    )
}

#[derive(Clone, Copy, Debug)]
pub struct Glyph {
    pub x: f64,
    pub y: f64,
    pub width: f64,
    pub space: f64,
    pub bold: bool,
    pub c: char,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MLine {
    /// Position, character, boldness; spaces between words have no position of their own.
    pub chars: Vec<(f64, char, bool)>,
    pub justified: bool,
}

impl MLine {
    pub fn text(&self) -> String {
        self.chars.iter().map(|c| c.1).collect()
    }
}

/// None: some decision is too close to call with the precision of the file's numbers.
pub fn model_lines(glyphs: &[Glyph], crop: &CropBox) -> Option<Vec<MLine>> {
    const CLOSE: f64 = 0.004;
    let mut close = false;
    let mut above = |a: f64, b: f64| {
        close |= (a - b).abs() < CLOSE;
        a > b
    };
    let mut g: Vec<Glyph> = vec![];
    for x in glyphs.iter().filter(|g| !g.c.is_whitespace()) {
        let inside =
            above(x.x, crop.left as f64) & above(crop.right as f64, x.x) & above(x.y, crop.bottom as f64) & above(crop.top as f64, x.y);
        if inside {
            g.push(*x);
        }
    }
    let right = g.iter().fold(0.0f64, |a, g| a.max(g.x + g.width));
    g.sort_by(|a, b| b.y.partial_cmp(&a.y).unwrap());
    let mut out = vec![];
    let mut i = 0;
    let mut previous: Option<f64> = None;
    while i < g.len() {
        let top = g[i].y;
        let mut j = i;
        while j < g.len() && !above(top - g[j].y, 0.5) {
            j += 1;
        }
        if let Some(p) = previous {
            if above(p - top, 16.0) {
                out.push(MLine { chars: vec![], justified: false });
            }
        }
        previous = Some(top);
        let mut row: Vec<Glyph> = g[i..j].to_vec();
        row.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap());
        let mut chars = vec![];
        for (k, c) in row.iter().enumerate() {
            if k > 0 {
                let p = &row[k - 1];
                // Which of two characters at the same place comes first?
                above(c.x, p.x);
                if above(c.x - (p.x + p.width), p.space * 0.5) || c.c == '„' {
                    chars.push((0.0, ' ', c.bold));
                }
            }
            chars.push((c.x, c.c, c.bold));
        }
        let l = row.last().unwrap();
        let justified = above(l.x + l.width + l.space * 0.8, right);
        out.push(MLine { chars, justified });
        i = j;
    }
    if out.is_empty() {
        out.push(MLine { chars: vec![], justified: false });
    }
    if close {
        None
    } else {
        Some(out)
    }
}
pub fn show_real(v: &[IndentedLine]) -> String {
    v.iter()
        .map(|l| {
            let n = l.content().chars().count() as i64;
            let pos: Vec<String> = (0..n)
                .filter(|i| l.content().chars().nth(*i as usize) != Some(' '))
                .map(|i| format!("{:.2}{}", l.indent_at(i), if l.slice(i, Some(i + 1)).is_bold() { "b" } else { "" }))
                .collect();
            format!("{:?}{} at {}", l.content(), if l.is_justified() { "J" } else { "" }, pos.join(","))
        })
        .collect::<Vec<_>>()
        .join(" ¶ ")
}
pub fn show_model(v: &[MLine]) -> String {
    v.iter()
        .map(|l| {
            let pos: Vec<String> =
                l.chars.iter().filter(|c| c.1 != ' ').map(|c| format!("{:.2}{}", c.0, if c.2 { "b" } else { "" })).collect();
            format!("{:?}{} at {}", l.text(), if l.justified { "J" } else { "" }, pos.join(","))
        })
        .collect::<Vec<_>>()
        .join(" ¶ ")
}

pub fn same_lines(got: &PageOfLines, want: &[MLine]) -> Result<(), String> {
    let bad = || format!("got {}, the model says {}", show_real(&got.lines), show_model(want));
    check!(got.lines.len() == want.len(), "{}", bad());
    for (g, w) in got.lines.iter().zip(want) {
        check!(g.content() == w.text(), "{}", bad());
        if w.chars.is_empty() {
            continue;
        }
        check!(g.is_justified() == w.justified, "justification: {}", bad());
        let bold = w.chars.iter().filter(|c| c.2).count();
        check!(g.is_bold() == (bold * 3 > w.chars.len() * 2), "boldness: {}", bad());
        for (i, c) in w.chars.iter().enumerate() {
            if c.1 != ' ' {
                check!((g.indent_at(i as i64) - c.0).abs() < 0.01, "position {i}: {}", bad());
                check!(g.slice(i as i64, Some(i as i64 + 1)).is_bold() == c.2, "boldness of character {i}: {}", bad());
            }
        }
    }
    Ok(())
}

pub fn parse(bytes: &[u8], crop: &CropBox) -> Result<Vec<PageOfLines>, String> {
    parse_pdf(bytes, crop.clone()).map_err(|e| format!("refused: {e:#}"))
}
