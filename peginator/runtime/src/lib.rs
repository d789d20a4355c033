//! A stand-in for the runtime of the peginator crate, which is not in this sandbox: just what
//! /repo/hun_law_grammar uses of it.  See ../codegen.

use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError {
    /// The farthest position at which a terminal did not match
    pub position: usize,
}

impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Parse error at byte {}", self.position)
    }
}

impl std::error::Error for ParseError {}

#[derive(Debug, Clone, Default)]
pub struct ParseSettings {}

pub trait ParseTracer {}

#[derive(Debug, Clone, Copy, Default)]
pub struct NoopTracer;
impl ParseTracer for NoopTracer {}

pub trait PegParserAdvanced<TUser>: Sized {
    fn parse_advanced<TT: ParseTracer>(s: &str, settings: &ParseSettings, user: TUser) -> Result<Self, ParseError>;
}

/// What the generated functions work on.
pub struct Input<'a> {
    pub s: &'a str,
    pub farthest: usize,
}

impl<'a> Input<'a> {
    pub fn new(s: &'a str) -> Self {
        Input { s, farthest: 0 }
    }
    pub fn whitespace(&self, pos: usize) -> usize {
        let rest = &self.s.as_bytes()[pos..];
        pos + rest.iter().take_while(|b| matches!(b, b' ' | b'\t' | b'\n' | b'\x0C' | b'\r')).count()
    }
    pub fn literal(&mut self, pos: usize, lit: &str) -> Option<usize> {
        if self.s[pos..].starts_with(lit) {
            Some(pos + lit.len())
        } else {
            self.fail(pos)
        }
    }
    pub fn range(&mut self, pos: usize, from: char, to: char) -> Option<usize> {
        match self.s[pos..].chars().next() {
            Some(c) if from <= c && c <= to => Some(pos + c.len_utf8()),
            _ => self.fail(pos),
        }
    }
    pub fn any_char(&mut self, pos: usize) -> Option<usize> {
        match self.s[pos..].chars().next() {
            Some(c) => Some(pos + c.len_utf8()),
            None => self.fail(pos),
        }
    }
    pub fn end(&mut self, pos: usize) -> Option<usize> {
        if pos == self.s.len() {
            Some(pos)
        } else {
            self.fail(pos)
        }
    }
    pub fn fail(&mut self, pos: usize) -> Option<usize> {
        self.farthest = self.farthest.max(pos);
        None
    }
}
