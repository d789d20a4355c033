//! Shared builders: positioned lines, the model of joining them, and acts.
use chrono::NaiveDate;
use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        ActIdentifier, ArticleIdentifier, IdentifierCommon, NumericIdentifier,
    },
    parser::mk_act_section::ActRawText,
    reference::{
        builder::{ReferenceBuilder, ReferenceBuilderSetPart},
        parts::{RefPartPoint, RefPartSubpoint},
        Reference,
    },
    structure::{Act, ActChild},
    util::indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE},
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct L {
    pub indent: f64,
    pub text: &'static str,
    pub bold: bool,
    pub just: bool,
}

pub fn line(indent: f64, text: &str, bold: bool, just: bool) -> IndentedLine {
    IndentedLine::from_parts(
        text.chars()
            .enumerate()
            .map(|(i, c)| IndentedLinePart {
                dx: if i == 0 { indent } else { 5.0 },
                content: c,
                bold,
            })
            .collect(),
        just,
    )
}

impl L {
    pub fn real(&self) -> IndentedLine {
        if self.text.is_empty() {
            EMPTY_LINE
        } else {
            line(self.indent, self.text, self.bold, self.just)
        }
    }
}

pub fn show(lines: &[IndentedLine]) -> String {
    lines
        .iter()
        .map(|l| {
            format!(
                "{}{}{}{}",
                if l.is_bold() { "<BOLD>" } else { "" },
                if l.is_justified() || l.is_empty() { "" } else { "<NJ>" },
                if l.indent() != 0.0 { format!("<{}>", l.indent()) } else { String::new() },
                l.content()
            )
        })
        .collect::<Vec<_>>()
        .join(" ¶ ")
}

/// Model of joining lines into running text.
pub fn join<S: AsRef<str>>(lines: &[S]) -> String {
    let mut out = String::new();
    for l in lines {
        let l = l.as_ref();
        if l.is_empty() {
            continue;
        }
        if !out.is_empty() && (!out.ends_with('-') || l.starts_with("és ") || l.starts_with("vagy ")) {
            out.push(' ');
        }
        out += l;
    }
    out
}

pub fn raw(body: Vec<IndentedLine>) -> ActRawText {
    ActRawText {
        identifier: ActIdentifier { year: 2023, number: 13 },
        subject: "a vizsgálatról".into(),
        publication_date: NaiveDate::from_ymd_opt(2023, 4, 5).unwrap(),
        body,
    }
}

pub fn act(preamble: &str, children: Vec<ActChild>) -> Act {
    let r = raw(vec![]);
    Act {
        identifier: r.identifier,
        subject: r.subject,
        preamble: preamble.into(),
        publication_date: r.publication_date,
        contained_abbreviations: Default::default(),
        children,
    }
}

/// A reference from "article_paragraph_point_subpoint", each possibly empty or "first-last".
pub fn reference(act: bool, s: &str) -> Reference {
    fn range<T: IdentifierCommon + std::str::FromStr>(s: &str) -> IdentifierRange<T>
    where
        T::Err: std::fmt::Debug,
    {
        let (a, b) = s.split_once('-').unwrap_or((s, s));
        IdentifierRange::from_range(a.parse().unwrap(), b.parse().unwrap())
    }
    let mut b = ReferenceBuilder::new();
    if act {
        b.set_part(ActIdentifier { year: 2011, number: 1 });
    }
    let mut p = s.split('_');
    if let Some(x) = p.next().filter(|x| !x.is_empty()) {
        b.set_part(range::<ArticleIdentifier>(x));
    }
    if let Some(x) = p.next().filter(|x| !x.is_empty()) {
        b.set_part(range::<NumericIdentifier>(x));
    }
    if let Some(x) = p.next().filter(|x| !x.is_empty()) {
        if x.starts_with(|c: char| c.is_ascii_digit()) {
            b.set_part(RefPartPoint::Numeric(range(x)));
        } else {
            b.set_part(RefPartPoint::Alphabetic(range(x)));
        }
    }
    if let Some(x) = p.next().filter(|x| !x.is_empty()) {
        if x.starts_with(|c: char| c.is_ascii_digit()) {
            b.set_part(RefPartSubpoint::Numeric(range(x)));
        } else {
            b.set_part(RefPartSubpoint::Alphabetic(range(x)));
        }
    }
    b.build().unwrap()
}

pub fn chars_of(l: &IndentedLine) -> Vec<(f64, char, bool)> {
    l.content()
        .chars()
        .enumerate()
        .map(|(i, c)| (l.indent_at(i as i64), c, l.slice(i as i64, Some(i as i64 + 1)).is_bold()))
        .collect()
}

/// Readable, with lines as their text.
pub fn brief(v: &impl serde::Serialize) -> String {
    fn strip(v: serde_json::Value) -> serde_json::Value {
        use serde_json::Value::*;
        match v {
            Object(m) if m.contains_key("cached_content") => String(format!(
                "{}{}<{}>{}",
                if m.get("cached_bold") == Some(&Bool(true)) { "<BOLD>" } else { "" },
                if m.get("justified") == Some(&Bool(true)) { "" } else { "<NJ>" },
                m.get("parts").map_or(&Null, |p| &p[0]["dx"]),
                m["cached_content"].as_str().unwrap_or("")
            )),
            Object(m) => Object(m.into_iter().map(|(k, v)| (k, strip(v))).collect()),
            Array(a) => Array(a.into_iter().map(strip).collect()),
            v => v,
        }
    }
    serde_json::to_value(v).map_or_else(|e| e.to_string(), |v| strip(v).to_string())
}
