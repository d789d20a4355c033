//! A stand-in for the peginator_codegen crate, which is not in this sandbox: it compiles the subset of
//! peginator's grammar language that /repo/hun_law_grammar/grammar.ebnf uses, with the same
//! meaning and the same shape of generated types:
//!
//! * a PEG: ordered choice, `[optional]`, `{closure}`, `{closure}+`, `!` and `&` lookaheads, `$` end of input
//! * white space is skipped before literals, ranges, rules and `$`, unless the rule is `@no_skip_ws` or `@char`
//! * `name:Rule` fields, `@:Rule` overrides, `>Rule` includes. A field that may occur more than once is a Vec,
//!   one that may be missing an Option; a field of several rules is an enum `Rule_field`
//! * `@string`, `@char`, `@position`, `@export`, `@memoize`, `@check(fn)`, `@extern(fn)`
//!
//! Anything else is refused, so that the build fails rather than the meaning changes.  That the two agree is shown by the
//! repository's own tests of the semantic parser, which the checks run against the result first.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::PathBuf;

// ---------------------------------------------------------------- the builder

pub struct Compile {
    source: PathBuf,
    destination: Option<PathBuf>,
    prefix: String,
    derives: Vec<String>,
    user_context: Option<String>,
}

impl Compile {
    pub fn file<T: Into<PathBuf>>(f: T) -> Self {
        Compile { source: f.into(), destination: None, prefix: String::new(), derives: vec!["Debug".into(), "Clone".into()], user_context: None }
    }
    pub fn destination<T: Into<PathBuf>>(mut self, d: T) -> Self {
        self.destination = Some(d.into());
        self
    }
    pub fn prefix(mut self, p: String) -> Self {
        self.prefix = p;
        self
    }
    pub fn derives(mut self, d: Vec<String>) -> Self {
        self.derives = d;
        self
    }
    pub fn user_context_type(mut self, t: &str) -> Self {
        self.user_context = Some(t.into());
        self
    }
    pub fn format(self) -> Self {
        self
    }
    pub fn run(self) -> Result<(), String> {
        let text = std::fs::read_to_string(&self.source).map_err(|e| format!("{}: {e}", self.source.display()))?;
        let rules = Parser::new(&text)?.grammar()?;
        let code = Generator::new(&self, rules)?.generate()?;
        let destination = self.destination.clone().unwrap_or_else(|| self.source.with_extension("rs"));
        if std::fs::read_to_string(&destination).map_or(true, |old| old != code) {
            std::fs::write(&destination, code).map_err(|e| format!("{}: {e}", destination.display()))?;
        }
        Ok(())
    }
    pub fn run_exit_on_error(self) {
        println!("cargo:rerun-if-changed={}", self.source.display());
        if let Err(e) = self.run() {
            eprintln!("{e}");
            std::process::exit(1);
        }
    }
}

// ---------------------------------------------------------------- the grammar

#[derive(Debug, Clone)]
enum Expr {
    Choice(Vec<Expr>),
    Seq(Vec<Expr>),
    Optional(Box<Expr>),
    Closure(Box<Expr>, bool),
    Not(Box<Expr>),
    And(Box<Expr>),
    Literal(String),
    Range(char, char),
    End,
    Rule(String),
    Field(String, String),
    Override(String),
    Include(String),
}

#[derive(Debug, Clone, Default)]
struct Rule {
    name: String,
    export: bool,
    string: bool,
    is_char: bool,
    position: bool,
    no_skip_ws: bool,
    memoize: bool,
    check: Option<String>,
    extern_fn: Option<String>,
    body: Option<Expr>,
}

#[derive(Debug, Clone, PartialEq)]
enum Token {
    Ident(String),
    Str(String),
    Punct(&'static str),
    /// @name or @name(path); `@:` is Punct("@:")
    Directive(String, Option<String>),
}

struct Parser {
    tokens: Vec<(Token, usize)>,
    at: usize,
}

type Res<T> = Result<T, String>;

impl Parser {
    fn new(text: &str) -> Res<Self> {
        let c: Vec<char> = text.chars().collect();
        let mut tokens = Vec::new();
        let (mut i, mut line) = (0, 1);
        while i < c.len() {
            match c[i] {
                '\n' => {
                    line += 1;
                    i += 1;
                }
                x if x.is_whitespace() => i += 1,
                '#' => {
                    while i < c.len() && c[i] != '\n' {
                        i += 1;
                    }
                }
                q @ ('"' | '\'') => {
                    let mut s = String::new();
                    i += 1;
                    loop {
                        match c.get(i) {
                            None | Some('\n') => return Err(format!("line {line}: unterminated string")),
                            Some(x) if *x == q => break,
                            Some('\\') => {
                                i += 1;
                                s.push(match c.get(i) {
                                    Some('n') => '\n',
                                    Some('r') => '\r',
                                    Some('t') => '\t',
                                    Some(x @ ('\\' | '"' | '\'')) => *x,
                                    _ => return Err(format!("line {line}: unsupported escape")),
                                });
                                i += 1;
                            }
                            Some(x) => {
                                s.push(*x);
                                i += 1;
                            }
                        }
                    }
                    i += 1;
                    tokens.push((Token::Str(s), line));
                }
                '@' if c.get(i + 1) == Some(&':') => {
                    tokens.push((Token::Punct("@:"), line));
                    i += 2;
                }
                '@' => {
                    let mut name = String::new();
                    i += 1;
                    while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                        name.push(c[i]);
                        i += 1;
                    }
                    let mut arg = None;
                    if c.get(i) == Some(&'(') {
                        let mut a = String::new();
                        i += 1;
                        while i < c.len() && c[i] != ')' {
                            a.push(c[i]);
                            i += 1;
                        }
                        i += 1;
                        arg = Some(a.trim().to_string());
                    }
                    tokens.push((Token::Directive(name, arg), line));
                }
                x if x.is_alphabetic() || x == '_' => {
                    let mut name = String::new();
                    while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                        name.push(c[i]);
                        i += 1;
                    }
                    tokens.push((Token::Ident(name), line));
                }
                '.' if c.get(i + 1) == Some(&'.') => {
                    tokens.push((Token::Punct(".."), line));
                    i += 2;
                }
                x => {
                    let p = ["=", ";", "|", "(", ")", "[", "]", "{", "}", "+", "!", "&", "$", ":", ">"]
                        .into_iter()
                        .find(|p| p.starts_with(x))
                        .ok_or_else(|| format!("line {line}: unexpected character {x:?}"))?;
                    tokens.push((Token::Punct(p), line));
                    i += 1;
                }
            }
        }
        Ok(Parser { tokens, at: 0 })
    }
    fn peek(&self) -> Option<&Token> {
        self.tokens.get(self.at).map(|t| &t.0)
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(Token::Punct(x)) if *x == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p);
        self.at += r as usize;
        r
    }
    fn err<T>(&self, what: &str) -> Res<T> {
        let line = self.tokens.get(self.at).or(self.tokens.last()).map_or(0, |t| t.1);
        Err(format!("grammar line {line}: {what}, found {:?}", self.peek()))
    }
    fn expect(&mut self, p: &str) -> Res<()> {
        if self.eat(p) {
            Ok(())
        } else {
            self.err(&format!("expected {p:?}"))
        }
    }
    fn ident(&mut self) -> Res<String> {
        if let Some(Token::Ident(s)) = self.peek() {
            let s = s.clone();
            self.at += 1;
            Ok(s)
        } else {
            self.err("expected a name")
        }
    }
    fn grammar(mut self) -> Res<Vec<Rule>> {
        let mut rules = Vec::new();
        while self.peek().is_some() {
            let mut r = Rule::default();
            while let Some(Token::Directive(name, arg)) = self.peek().cloned() {
                match (name.as_str(), arg) {
                    ("export", None) => r.export = true,
                    ("string", None) => r.string = true,
                    ("char", None) => r.is_char = true,
                    ("position", None) => r.position = true,
                    ("no_skip_ws", None) => r.no_skip_ws = true,
                    ("memoize", None) => r.memoize = true,
                    ("check", Some(f)) if r.check.is_none() => r.check = Some(f),
                    ("extern", Some(f)) => r.extern_fn = Some(f),
                    _ => return self.err("unsupported directive"),
                }
                self.at += 1;
            }
            r.name = self.ident()?;
            if self.eat("=") {
                r.body = Some(self.choice()?);
            } else if r.extern_fn.is_none() {
                return self.err("expected \"=\"");
            }
            self.expect(";")?;
            rules.push(r);
        }
        Ok(rules)
    }
    fn choice(&mut self) -> Res<Expr> {
        let mut alts = vec![self.seq()?];
        while self.eat("|") {
            alts.push(self.seq()?);
        }
        Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Expr::Choice(alts) })
    }
    fn seq(&mut self) -> Res<Expr> {
        let mut parts = Vec::new();
        while !(self.peek().is_none() || [";", "|", ")", "]", "}"].iter().any(|p| self.is(p))) {
            parts.push(self.item()?);
        }
        Ok(Expr::Seq(parts))
    }
    fn item(&mut self) -> Res<Expr> {
        if self.eat("(") {
            let e = self.choice()?;
            self.expect(")")?;
            return Ok(e);
        }
        if self.eat("[") {
            let e = self.choice()?;
            self.expect("]")?;
            return Ok(Expr::Optional(Box::new(e)));
        }
        if self.eat("{") {
            let e = self.choice()?;
            self.expect("}")?;
            let plus = self.eat("+");
            return Ok(Expr::Closure(Box::new(e), plus));
        }
        if self.eat("!") {
            return Ok(Expr::Not(Box::new(self.item()?)));
        }
        if self.eat("&") {
            return Ok(Expr::And(Box::new(self.item()?)));
        }
        if self.eat("$") {
            return Ok(Expr::End);
        }
        if self.eat("@:") {
            return Ok(Expr::Override(self.ident()?));
        }
        if self.eat(">") {
            return Ok(Expr::Include(self.ident()?));
        }
        match self.peek().cloned() {
            Some(Token::Str(s)) => {
                self.at += 1;
                if self.eat("..") {
                    let Some(Token::Str(to)) = self.peek().cloned() else { return self.err("expected a character") };
                    self.at += 1;
                    let mut chars = (s.chars(), to.chars());
                    return match (chars.0.next(), chars.0.next(), chars.1.next(), chars.1.next()) {
                        (Some(a), None, Some(b), None) => Ok(Expr::Range(a, b)),
                        _ => self.err("a range of characters takes single characters"),
                    };
                }
                Ok(Expr::Literal(s))
            }
            Some(Token::Ident(name)) => {
                self.at += 1;
                if self.eat(":") {
                    return Ok(Expr::Field(name, self.ident()?));
                }
                Ok(Expr::Rule(name))
            }
            _ => self.err("unexpected token"),
        }
    }
}

// ---------------------------------------------------------------- the generated code

#[derive(Debug, Clone, Default)]
struct FieldInfo {
    types: Vec<String>,
    min: usize,
    max: usize,
}

type Fields = BTreeMap<String, FieldInfo>;
const OVERRIDE: &str = "_override";

struct Generator {
    rules: Vec<Rule>,
    index: BTreeMap<String, usize>,
    derives: String,
    prefix: String,
    user: String,
}

fn types_union(a: &mut Vec<String>, b: &[String]) {
    for t in b {
        if !a.contains(t) {
            a.push(t.clone());
        }
    }
}

impl Generator {
    fn new(c: &Compile, rules: Vec<Rule>) -> Res<Self> {
        let mut index = BTreeMap::new();
        for (n, r) in rules.iter().enumerate() {
            if index.insert(r.name.clone(), n).is_some() || ["char", "Whitespace"].contains(&r.name.as_str()) {
                return Err(format!("rule {} defined twice, or built in", r.name));
            }
        }
        Ok(Generator {
            rules,
            index,
            derives: c.derives.join(", "),
            prefix: c.prefix.clone(),
            user: c.user_context.clone().unwrap_or_else(|| "()".into()),
        })
    }

    fn rule(&self, name: &str) -> Res<&Rule> {
        self.index.get(name).map(|n| &self.rules[*n]).ok_or_else(|| format!("no rule named {name}"))
    }

    fn fields(&self, e: &Expr) -> Res<Fields> {
        let one = |name: &str, ty: &str| Fields::from([(name.to_string(), FieldInfo { types: vec![ty.to_string()], min: 1, max: 1 })]);
        Ok(match e {
            Expr::Literal(_) | Expr::Range(..) | Expr::End | Expr::Rule(_) => Fields::new(),
            Expr::Not(x) | Expr::And(x) => {
                if !self.fields(x)?.is_empty() {
                    return Err("fields inside a lookahead are not supported".into());
                }
                Fields::new()
            }
            Expr::Field(n, t) => one(n, t),
            Expr::Override(t) => one(OVERRIDE, t),
            Expr::Include(t) => {
                let r = self.rule(t)?;
                if r.string || r.is_char || r.position || r.check.is_some() || r.memoize || r.extern_fn.is_some() {
                    return Err(format!("including {t} is not supported"));
                }
                self.fields(r.body.as_ref().unwrap())?
            }
            Expr::Seq(parts) => {
                let mut f = Fields::new();
                for p in parts {
                    for (n, i) in self.fields(p)? {
                        let x = f.entry(n).or_default();
                        types_union(&mut x.types, &i.types);
                        x.min += i.min;
                        x.max += i.max;
                    }
                }
                f
            }
            Expr::Choice(alts) => {
                let all: Vec<Fields> = alts.iter().map(|a| self.fields(a)).collect::<Res<_>>()?;
                let names: BTreeSet<&String> = all.iter().flat_map(|f| f.keys()).collect();
                let mut f = Fields::new();
                for n in names {
                    let mut x = FieldInfo { types: vec![], min: usize::MAX, max: 0 };
                    for a in &all {
                        let i = a.get(n).cloned().unwrap_or_default();
                        types_union(&mut x.types, &i.types);
                        x.min = x.min.min(i.min);
                        x.max = x.max.max(i.max);
                    }
                    f.insert(n.clone(), x);
                }
                f
            }
            Expr::Optional(x) => {
                let mut f = self.fields(x)?;
                f.values_mut().for_each(|i| i.min = 0);
                f
            }
            Expr::Closure(x, plus) => {
                let mut f = self.fields(x)?;
                f.values_mut().for_each(|i| {
                    i.max = 2;
                    if !plus {
                        i.min = 0;
                    }
                });
                f
            }
        })
    }

    fn ws(skip: bool) -> &'static str {
        if skip {
            "let p = g.i.whitespace(p);"
        } else {
            ""
        }
    }

    /// An expression of type Option<usize> that starts at `p` and records fields in `ev`.
    fn expr(&self, e: &Expr, skip: bool, rule: &str) -> Res<String> {
        let ws = Self::ws(skip);
        Ok(match e {
            Expr::Literal(s) => format!("{{ {ws} g.i.literal(p, {s:?}) }}"),
            Expr::Range(a, b) => format!("{{ {ws} g.i.range(p, {a:?}, {b:?}) }}"),
            Expr::End => format!("{{ {ws} g.i.end(p) }}"),
            Expr::Rule(r) => match r.as_str() {
                "char" => format!("{{ {ws} g.i.any_char(p) }}"),
                "Whitespace" => "Some(g.i.whitespace(p))".to_string(),
                _ => {
                    self.rule(r)?;
                    format!("{{ {ws} parse_{r}(g, p).map(|x| x.1) }}")
                }
            },
            Expr::Field(n, r) => {
                self.rule(r)?;
                format!("{{ {ws} parse_{r}(g, p).map(|x| {{ ev.push(Ev_{rule}::{n}_{r}(x.0)); x.1 }}) }}")
            }
            Expr::Override(r) => {
                self.rule(r)?;
                format!("{{ {ws} parse_{r}(g, p).map(|x| {{ ev.push(Ev_{rule}::{OVERRIDE}_{r}(x.0)); x.1 }}) }}")
            }
            Expr::Include(r) => {
                let included = self.rule(r)?;
                self.expr(included.body.as_ref().unwrap(), !included.no_skip_ws, rule)?
            }
            Expr::Seq(parts) => {
                let mut s = String::from("{ let p = Some(p);");
                for x in parts {
                    let code = self.expr(x, skip, rule)?;
                    write!(s, "let p = match p {{ Some(p) => {code}, None => None }};").unwrap();
                }
                s + "p }"
            }
            Expr::Choice(alts) => {
                let mut s = String::from("{ let mark = ev.len(); let r: Option<usize> = None;");
                for x in alts {
                    let code = self.expr(x, skip, rule)?;
                    write!(s, "let r = if r.is_some() {{ r }} else {{ ev.truncate(mark); {code} }};").unwrap();
                }
                s + "if r.is_none() { ev.truncate(mark); } r }"
            }
            Expr::Optional(x) => {
                let code = self.expr(x, skip, rule)?;
                format!("{{ let mark = ev.len(); match {code} {{ Some(p) => Some(p), None => {{ ev.truncate(mark); Some(p) }} }} }}")
            }
            Expr::Closure(x, plus) => {
                let code = self.expr(x, skip, rule)?;
                let result = if *plus { "if count == 0 { None } else { Some(q) }" } else { "Some(q)" };
                format!(
                    "{{ let mut q = p; let mut count = 0usize; loop {{ let p = q; let mark = ev.len(); let r: Option<usize> = {code}; \
                     match r {{ Some(n) => {{ count += 1; if n == q {{ break; }} q = n; }}, None => {{ ev.truncate(mark); break; }} }} }} let _ = count; {result} }}"
                )
            }
            Expr::Not(x) => {
                let code = self.expr(x, skip, rule)?;
                format!("{{ let r: Option<usize> = {code}; if r.is_some() {{ None }} else {{ Some(p) }} }}")
            }
            Expr::And(x) => {
                let code = self.expr(x, skip, rule)?;
                format!("{{ let r: Option<usize> = {code}; if r.is_some() {{ Some(p) }} else {{ None }} }}")
            }
        })
    }

    fn generate(&self) -> Res<String> {
        let (mut types, mut code, mut memo) = (String::new(), String::new(), String::new());
        let derives = &self.derives;
        for r in &self.rules {
            let name = &r.name;
            let result_type = name.clone();
            let body_fn;
            if let Some(f) = &r.extern_fn {
                writeln!(types, "pub type {name} = String;").unwrap();
                body_fn = format!(
                    "match {f}(&g.i.s[p..], &mut *g.user) {{ Ok((v, n)) => Some((v, p + n)), Err(_) => {{ g.i.fail(p); None }} }}"
                );
            } else {
                let body = r.body.as_ref().unwrap();
                let fields = self.fields(body)?;
                let parse = self.expr(body, !(r.no_skip_ws || r.is_char), name)?;
                if r.string || r.is_char {
                    if !fields.is_empty() || r.position {
                        return Err(format!("rule {name}: a @string or @char rule has no fields here"));
                    }
                    writeln!(types, "pub type {name} = {};", if r.string { "String" } else { "char" }).unwrap();
                    let value = if r.string { "g.i.s[begin..end].to_string()" } else { "g.i.s[begin..end].chars().next()?" };
                    body_fn = format!("let ev: &mut Vec<()> = &mut Vec::new(); let end = {parse}?; Some(({value}, end))");
                } else {
                    // The events of the rule: one variant per field and type
                    writeln!(code, "enum Ev_{name} {{").unwrap();
                    for (f, i) in &fields {
                        for t in &i.types {
                            writeln!(code, "{f}_{t}({t}),").unwrap();
                        }
                    }
                    writeln!(code, "}}").unwrap();
                    let mut collect = String::new();
                    let mut arms = String::new();
                    let mut build = String::new();
                    let has_override = fields.contains_key(OVERRIDE);
                    if has_override && (fields.len() > 1 || r.position) {
                        return Err(format!("rule {name} mixes overrides and fields"));
                    }
                    let mut members = String::new();
                    for (f, i) in &fields {
                        let elem = if i.types.len() == 1 {
                            i.types[0].clone()
                        } else if has_override && i.max <= 1 && i.min == 1 {
                            name.clone()
                        } else {
                            format!("{name}_{}", if has_override { "override" } else { f })
                        };
                        if i.types.len() > 1 {
                            let variants: String = i.types.iter().map(|t| format!("{t}({t}), ")).collect();
                            writeln!(types, "#[derive({derives})]\n#[allow(non_camel_case_types)]\npub enum {elem} {{ {variants} }}").unwrap();
                        }
                        let (ty, take) = if i.max > 1 {
                            (format!("Vec<{elem}>"), format!("c_{f}"))
                        } else if i.min == 0 {
                            (format!("Option<{elem}>"), format!("c_{f}.pop()"))
                        } else {
                            (elem.clone(), format!("c_{f}.pop()?"))
                        };
                        write!(collect, "let mut c_{f}: Vec<{elem}> = Vec::new();").unwrap();
                        for t in &i.types {
                            let v = if i.types.len() > 1 { format!("{elem}::{t}(v)") } else { "v".into() };
                            write!(arms, "Ev_{name}::{f}_{t}(v) => c_{f}.push({v}),").unwrap();
                        }
                        if has_override {
                            if elem != *name {
                                writeln!(types, "pub type {name} = {ty};").unwrap();
                            }
                            build = take;
                        } else {
                            write!(members, "pub {f}: {ty}, ").unwrap();
                            write!(build, "{f}: {take}, ").unwrap();
                        }
                    }
                    if !has_override {
                        if r.position {
                            write!(members, "#[drive(skip)] pub position: std::ops::Range<usize>, ").unwrap();
                            write!(build, "position: begin..end, ").unwrap();
                        }
                        writeln!(types, "#[derive({derives})]\npub struct {name} {{ {members} }}").unwrap();
                        build = format!("{name} {{ {build} }}");
                    }
                    let check = match &r.check {
                        Some(f) => format!("if !{f}(&value, &mut *g.user) {{ g.i.fail(p); return None; }}"),
                        None => String::new(),
                    };
                    body_fn = format!(
                        "let ev: &mut Vec<Ev_{name}> = &mut Vec::new(); let end = {parse}?; {collect} \
                         for e in ev.drain(..) {{ match e {{ {arms} }} }} let value: {result_type} = {build}; {check} Some((value, end))"
                    );
                }
            }
            if r.memoize {
                writeln!(memo, "m_{name}: std::collections::HashMap<usize, Option<({name}, usize)>>,").unwrap();
                writeln!(code, "fn parse_{name}(g: &mut G, p: usize) -> Option<({result_type}, usize)> {{ \
                    if let Some(r) = g.memo.m_{name}.get(&p) {{ return r.clone(); }} \
                    let r = fresh_{name}(g, p); g.memo.m_{name}.insert(p, r.clone()); r }}").unwrap();
            }
            let fn_name = if r.memoize { "fresh" } else { "parse" };
            writeln!(code, "fn {fn_name}_{name}(g: &mut G, p: usize) -> Option<({result_type}, usize)> {{ let begin = p; let _ = begin; {body_fn} }}").unwrap();
            if r.export {
                writeln!(code, "impl<'u> peginator::PegParserAdvanced<&'u mut User> for {name} {{ \
                    fn parse_advanced<TT: peginator::ParseTracer>(s: &str, _settings: &peginator::ParseSettings, user: &'u mut User) -> Result<Self, peginator::ParseError> {{ \
                    let mut g = G {{ i: peginator::Input::new(s), user, memo: Memo::default() }}; \
                    match parse_{name}(&mut g, 0) {{ Some((v, _)) => Ok(v), None => Err(peginator::ParseError {{ position: g.i.farthest }}) }} }} }}").unwrap();
            }
        }
        Ok(format!(
            "// Generated by /verif/peginator/codegen\n{}\n{types}\n\
             #[allow(non_snake_case, non_camel_case_types, unused, clippy::all)]\nmod peg_parser {{\nuse super::*;\ntype User = {};\n\
             #[derive(Default)]\nstruct Memo {{ {memo} }}\nstruct G<'a> {{ i: peginator::Input<'a>, user: &'a mut User, memo: Memo }}\n{code}\n}}\n",
            self.prefix, self.user
        ))
    }
}
