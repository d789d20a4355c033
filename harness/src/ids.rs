//! C01, C02: identifiers.
use crate::{
    check,
    core::{differ, Tier, Unit},
};
use hun_law::{
    identifier::{
        range::{IdentifierRange, IdentifierRangeFrom},
        ActIdentifier, AlphabeticIdentifier, ArticleIdentifier, HungarianIdentifierChar,
        IdentifierCommon, NumericIdentifier, ParagraphIdentifier, PrefixedAlphabeticIdentifier,
    },
    util::compact_string::CompactString,
};
use serde::{de::DeserializeOwned, Serialize};
use std::{cmp::Ordering, fmt::Debug, fmt::Display, str::FromStr};

/// The letters of Hungarian legal numbering, in order.
pub const LETTERS: [&str; 34] = [
    "a", "b", "c", "cs", "d", "dz", "e", "f", "g", "gy", "h", "i", "j", "k", "l", "ly", "m", "n",
    "ny", "o", "p", "q", "r", "s", "sz", "t", "ty", "u", "v", "w", "x", "y", "z", "zs",
];
pub fn letter(i: usize) -> HungarianIdentifierChar {
    LETTERS[i].parse().unwrap()
}
fn upper(s: &str) -> String {
    s.to_uppercase()
}
fn is_letter_text(s: &str) -> Option<usize> {
    // lower case, upper case, or capitalised
    LETTERS.iter().position(|l| {
        let cap: String = l[..1].to_uppercase() + &l[1..];
        s == *l || s == upper(l) || s == cap
    })
}

// ---- model of the successor relation -----------------------------------------------------
/// May `b` directly follow `a`?
pub fn letter_next(b: usize, a: usize) -> bool {
    let (la, lb) = (LETTERS[a], LETTERS[b]);
    if la.len() == 1 && lb.len() == 1 {
        lb.as_bytes()[0] == la.as_bytes()[0] + 1 || (la == "p" && lb == "r")
    } else if la.len() == 1 {
        lb.starts_with(la) // digraph right after its first letter
    } else if lb.len() == 1 {
        lb.as_bytes()[0] == la.as_bytes()[0] + 1 // next plain letter after a digraph
    } else {
        false
    }
}
pub type MNum = (u16, Option<usize>);
pub fn num_next(b: MNum, a: MNum) -> bool {
    match (b.1, a.1) {
        (None, _) => b.0 as u32 == a.0 as u32 + 1,
        (Some(s), None) => b.0 == a.0 && s == 0,
        (Some(s), Some(t)) => b.0 == a.0 && letter_next(s, t),
    }
}
pub fn num_text(n: MNum) -> String {
    format!("{}{}", n.0, n.1.map_or("", |i| LETTERS[i]))
}
fn num_slash(n: MNum) -> String {
    match n.1 {
        Some(i) => format!("{}/{}", n.0, upper(LETTERS[i])),
        None => n.0.to_string(),
    }
}
pub type MArt = (Option<u8>, MNum);
pub fn art_next(b: MArt, a: MArt) -> bool {
    match (b.0, a.0) {
        (None, None) => num_next(b.1, a.1),
        (Some(x), Some(y)) if x == y => num_next(b.1, a.1),
        (Some(x), Some(y)) => x as u32 == y as u32 + 1 && b.1 == (1, None),
        _ => false,
    }
}
fn art_text(a: MArt) -> String {
    let b = a.0.map_or(String::new(), |b| format!("{b}:"));
    b + &num_slash(a.1)
}
fn art_compact(a: MArt) -> String {
    let b = a.0.map_or(String::new(), |b| format!("{b}."));
    b + &num_text(a.1)
}

pub fn roman_model(n: u32) -> Option<String> {
    if n == 0 || n > 3999 {
        return None;
    }
    let d = |v: u32, one: &str, five: &str, ten: &str| -> String {
        match v {
            9 => format!("{one}{ten}"),
            4 => format!("{one}{five}"),
            5..=8 => five.to_string() + &one.repeat(v as usize - 5),
            _ => one.repeat(v as usize),
        }
    };
    Some(
        d(n / 1000, "M", "", "")
            + &d(n / 100 % 10, "C", "D", "M")
            + &d(n / 10 % 10, "X", "L", "C")
            + &d(n % 10, "I", "V", "X"),
    )
}

// ---- C01 ---------------------------------------------------------------------------------
fn round<T>(v: T, text: &str, compact: &str, yaml: bool) -> Result<u64, String>
where
    T: FromStr + Display + CompactString + Serialize + DeserializeOwned + PartialEq + Debug + Copy,
    <T as FromStr>::Err: Debug,
{
    differ("text form", &v.to_string().as_str(), &text)?;
    differ("debug form", &format!("{v:?}").as_str(), &text)?;
    let p: T = text.parse().map_err(|e| format!("own text {text:?} rejected: {e:?}"))?;
    check!(p == v, "text {text:?} parsed back as {p:?}");
    differ("compact form", &v.compact_string().to_string().as_str(), &compact)?;
    let p = T::from_compact_string(compact).map_err(|e| format!("own compact {compact:?} rejected: {e}"))?;
    check!(p == v, "compact {compact:?} read back as {p:?}");
    let mut n = 5;
    if yaml {
        let j = serde_json::to_string(&v).map_err(|e| e.to_string())?;
        let p: T = serde_json::from_str(&j).map_err(|e| format!("own JSON {j} rejected: {e}"))?;
        check!(p == v, "JSON {j} read back as {p:?}");
        let y = serde_yaml::to_string(&v).map_err(|e| e.to_string())?;
        let p: T = serde_yaml::from_str(&y).map_err(|e| format!("own YAML {y:?} rejected: {e}"))?;
        check!(p == v, "YAML {y:?} read back as {p:?}");
        n += 4;
    }
    Ok(n)
}

fn mk_num(n: MNum) -> NumericIdentifier {
    num_text(n).parse().unwrap()
}
fn mk_art(a: MArt) -> ArticleIdentifier {
    ArticleIdentifier::from_book_and_id(a.0, mk_num(a.1))
}

/// What the grammar of a text form says about a text.
#[derive(Debug, PartialEq, Clone)]
enum Says {
    Value(String), // with this text form
    Reject,
    Open, // the grammar leaves it to the implementation
}
fn g_num(s: &str) -> Says {
    let digits: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
    let rest = &s[digits.len()..];
    let Ok(num) = digits.parse::<u16>() else { return Says::Reject };
    match g_suffix(rest) {
        Some(suffix) => Says::Value(num_text((num, suffix))),
        None => Says::Reject,
    }
}
fn g_suffix(rest: &str) -> Option<Option<usize>> {
    if rest.is_empty() {
        return Some(None);
    }
    let rest = rest.strip_prefix('/').unwrap_or(rest);
    is_letter_text(rest).map(Some)
}
fn g_roman(s: &str) -> Says {
    let digits: String = s.chars().take_while(|c| "IVXLCDM".contains(*c)).collect();
    let rest = &s[digits.len()..];
    let Some(suffix) = g_suffix(rest) else { return Says::Reject };
    match (1..=3999).find(|n| roman_model(*n).unwrap() == digits) {
        Some(n) => Says::Value(num_text((n as u16, suffix))),
        None => Says::Reject,
    }
}
fn g_letter(s: &str) -> Says {
    is_letter_text(s).map_or(Says::Reject, |i| Says::Value(LETTERS[i].into()))
}
fn g_prefixed(s: &str) -> Says {
    if (1..=2).contains(&s.chars().count()) && s.chars().all(|c| c.is_ascii_alphabetic()) {
        Says::Value(s.to_lowercase())
    } else {
        Says::Reject
    }
}
fn g_book(book: &str, id: &str) -> Says {
    if book.starts_with('+') {
        return Says::Open;
    }
    let ok = !book.is_empty() && book.chars().all(|c| c.is_ascii_digit());
    match (ok, book.parse::<u8>(), g_num(id)) {
        (true, Ok(b), Says::Value(v)) => {
            // article text writes the suffix with a slash
            let digits: String = v.chars().take_while(|c| c.is_ascii_digit()).collect();
            let suffix = is_letter_text(&v[digits.len()..]);
            Says::Value(art_text((Some(b), (digits.parse().unwrap(), suffix))))
        }
        _ => Says::Reject,
    }
}
fn g_art(s: &str, sep: char) -> Says {
    match s.split_once(sep) {
        Some((b, id)) => g_book(b, id),
        None => match g_num(s) {
            Says::Value(v) => {
                let digits: String = v.chars().take_while(|c| c.is_ascii_digit()).collect();
                let suffix = is_letter_text(&v[digits.len()..]);
                Says::Value(art_text((None, (digits.parse().unwrap(), suffix))))
            }
            o => o,
        },
    }
}
fn agree<T: Display>(kind: &str, s: &str, got: anyhow::Result<T>, want: Says) -> Result<(), String> {
    let got = match got {
        Ok(v) => Says::Value(v.to_string()),
        Err(_) => Says::Reject,
    };
    if want != Says::Open && got != want {
        return Err(format!("{kind} {s:?}: got {got:?}, the grammar says {want:?}"));
    }
    Ok(())
}

fn strings(alphabet: &[char], len: usize, f: &mut dyn FnMut(&str), cur: &mut String) {
    f(cur);
    if len == 0 {
        return;
    }
    for c in alphabet {
        cur.push(*c);
        strings(alphabet, len - 1, f, cur);
        cur.pop();
    }
}

pub fn c01(tier: Tier) -> Vec<Unit<'static>> {
    let mut u: Vec<Unit> = vec![];
    let t = tier == Tier::Thorough;
    for block in 0..64u32 {
        u.push(Unit {
            label: format!("numeric-{block}"),
            run: Box::new(move |c| {
                for num in block * 1024..(block + 1) * 1024 {
                    let num = num as u16;
                    for suffix in std::iter::once(None).chain((0..34).map(Some)) {
                        let n = (num, suffix);
                        // Data formats: everything in thorough; in quick all small numbers
                        // and every number without suffix.
                        let yaml = t || num < 100 || suffix.is_none();
                        c.case(
                            || format!("numeric identifier {}", num_text(n)),
                            || {
                                let v = mk_num(n);
                                let mut k = round(v, &num_text(n), &num_text(n), yaml)?;
                                differ("slash form", &v.with_slash().to_string(), &num_slash(n))?;
                                check!(
                                    num_slash(n).parse::<NumericIdentifier>().ok() == Some(v),
                                    "slash form not read back"
                                );
                                k += round(ParagraphIdentifier::from(v), &num_text(n), &num_text(n), yaml)?;
                                k += round(mk_art((None, n)), &art_text((None, n)), &art_compact((None, n)), yaml)?;
                                if suffix.is_none() {
                                    check!(NumericIdentifier::from(num) == v, "from number");
                                    check!(ParagraphIdentifier::from(num) == v.into(), "from number");
                                    check!(ArticleIdentifier::from(num) == mk_art((None, n)), "from number");
                                }
                                let roman = v.to_roman().ok();
                                let want = roman_model(num as u32).map(|r| match suffix {
                                    Some(i) => format!("{r}/{}", LETTERS[i]),
                                    None => r,
                                });
                                differ("roman form", &roman, &want)?;
                                if let Some(r) = roman {
                                    let p = NumericIdentifier::from_roman(&r);
                                    check!(p.as_ref().ok() == Some(&v), "roman {r} read back as {p:?}");
                                    c.outcome("has roman form");
                                }
                                c.steps(k + 4);
                                c.validated();
                                Ok(())
                            },
                        );
                    }
                }
            }),
        });
    }
    for book in 0..=255u8 {
        u.push(Unit {
            label: format!("article-book-{book}"),
            run: Box::new(move |c| {
                for num in [0u16, 1, 2, 9, 10, 11, 99, 100, 101, 1000, 65534, 65535] {
                    for suffix in std::iter::once(None).chain((0..34).map(Some)) {
                        let a = (Some(book), (num, suffix));
                        c.case(
                            || format!("article identifier {}", art_text(a)),
                            || {
                                let k = round(mk_art(a), &art_text(a), &art_compact(a), true)?;
                                c.steps(k);
                                c.validated();
                                c.outcome("article with book");
                                Ok(())
                            },
                        );
                    }
                }
            }),
        });
    }
    u.push(Unit {
        label: "letters".into(),
        run: Box::new(|c| {
            for i in 0..34 {
                c.case(
                    || format!("letter {}", LETTERS[i]),
                    || {
                        let v = letter(i);
                        let k = round(v, LETTERS[i], LETTERS[i], true)?;
                        differ("upper case", &v.to_uppercase().to_string(), &upper(LETTERS[i]))?;
                        check!(upper(LETTERS[i]).parse::<AlphabeticIdentifier>().ok() == Some(v), "upper");
                        c.steps(k + 2);
                        c.validated();
                        Ok(())
                    },
                );
            }
            for p in std::iter::once(None).chain((b'a'..=b'z').map(Some)) {
                for ch in b'a'..=b'z' {
                    let s: String = p.into_iter().chain([ch]).map(|b| b as char).collect();
                    c.case(
                        || format!("prefixed letter {s}"),
                        || {
                            let v: PrefixedAlphabeticIdentifier = s.parse().map_err(|e| format!("rejected: {e}"))?;
                            let k = round(v, &s, &s, true)?;
                            let pre: Option<HungarianIdentifierChar> = p.map(|b| (b as char).try_into().unwrap());
                            check!(v.get_prefix() == pre && v.prefix_is(pre), "prefix {:?}", v.get_prefix());
                            check!(!v.prefix_is(Some(HungarianIdentifierChar::Cs)), "prefix_is");
                            c.steps(k + 3);
                            c.validated();
                            Ok(())
                        },
                    );
                }
            }
        }),
    });
    // Acts.
    for block in 0..40u32 {
        u.push(Unit {
            label: format!("act-{block}"),
            run: Box::new(move |c| {
                let years: Vec<i16> = if t {
                    (1000..=9999).step_by(7).chain([1848, 1999, 2000, 2012]).collect()
                } else {
                    vec![1000, 1001, 1848, 1949, 1989, 1999, 2000, 2012, 2022, 9999]
                };
                for number in block as i32 * 100..(block as i32 + 1) * 100 {
                    for &year in &years {
                        c.case(|| format!("act {year}/{number}"), || act_case(c, year, number));
                    }
                }
            }),
        });
    }
    u.push(Unit {
        label: "act-years".into(),
        run: Box::new(move |c| {
            for year in i16::MIN..=i16::MAX {
                for number in [-1, 0, 1, 3999, 4000, i32::MAX, i32::MIN] {
                    c.case(|| format!("act {year}/{number}"), || act_case(c, year, number));
                }
            }
        }),
    });
    // Exactly the grammar is accepted: all texts up to a length.
    let alphabet: &[char] = &[
        '0', '1', '9', 'a', 'c', 's', 'y', 'z', 'A', 'S', 'Z', '/', ':', '.', '-', ' ', 'é', 'I', 'X', 'C',
    ];
    let len = if t { 4 } else { 3 };
    for first in alphabet.iter().copied() {
        for second in alphabet.iter().copied() {
            u.push(Unit {
                label: format!("texts-{first}{second}"),
                run: Box::new(move |c| {
                    let mut cur: String = [first, second].iter().collect();
                    strings(alphabet, len, &mut |s| text_case(c, s), &mut cur);
                }),
            });
        }
    }
    u.push(Unit {
        label: "texts-short".into(),
        run: Box::new(move |c| {
            let mut cur = String::new();
            strings(alphabet, 1, &mut |s| text_case(c, s), &mut cur);
            // Longer texts: around every limit of the number types, and numerals.
            for n in ["65535", "65536", "99999", "255", "256", "0255", "00001", "100000"] {
                for pre in ["", "0", "-", "1:", "255:", "256:", "1.", "1:1:", "300:", ":"] {
                    for suf in ["", "a", "/A", "/Cs", "cS", "/", "//a", "é", ":1", "aa", "/a ", " ", "dzs"] {
                        text_case(c, &format!("{pre}{n}{suf}"));
                    }
                }
            }
        }),
    });
    let rd: &[char] = &['I', 'V', 'X', 'L', 'C', 'D', 'M'];
    let rlen = if t { 6 } else { 5 };
    for first in rd.iter().copied() {
        u.push(Unit {
            label: format!("roman-{first}"),
            run: Box::new(move |c| {
                let valid: std::collections::HashMap<String, u32> =
                    (1..=3999).map(|n| (roman_model(n).unwrap(), n)).collect();
                let mut cur: String = first.into();
                strings(
                    rd,
                    rlen,
                    &mut |s| {
                        c.case(
                            || format!("roman numeral text {s:?}"),
                            || {
                                let want = valid.get(s).map(|n| NumericIdentifier::from(*n as u16));
                                let got = NumericIdentifier::from_roman(s).ok();
                                c.outcome(if want.is_some() { "valid numeral" } else { "invalid numeral" });
                                c.steps(1);
                                c.validated();
                                differ("roman numeral", &got, &want)
                            },
                        )
                    },
                    &mut cur,
                );
            }),
        });
    }
    // Ranges.
    u.push(Unit {
        label: "ranges".into(),
        run: Box::new(move |c| {
            let nums: Vec<MNum> = [1u16, 2, 10, 65535]
                .into_iter()
                .flat_map(|n| [None, Some(0), Some(3), Some(33)].into_iter().map(move |s| (n, s)))
                .collect();
            for a in &nums {
                for b in &nums {
                    range_case(c, mk_num(*a), mk_num(*b), &num_text(*a), &num_text(*b));
                    for (x, y) in [(None, None), (Some(1), Some(1)), (Some(1), Some(12)), (None, Some(3))] {
                        let (p, q) = ((x, *a), (y, *b));
                        range_case(c, mk_art(p), mk_art(q), &art_compact(p), &art_compact(q));
                    }
                }
            }
            for a in 0..34 {
                for b in 0..34 {
                    range_case(c, letter(a), letter(b), LETTERS[a], LETTERS[b]);
                }
            }
            let pre = ["a", "b", "z", "aa", "ab", "cs", "zs", "no", "ye"];
            for a in pre {
                for b in pre {
                    let (p, q): (PrefixedAlphabeticIdentifier, _) = (a.parse().unwrap(), b.parse().unwrap());
                    range_case(c, p, q, a, b);
                }
            }
        }),
    });
    u
}

fn range_case<T>(c: &crate::core::Ctx, a: T, b: T, ta: &str, tb: &str)
where
    T: IdentifierCommon + Serialize + DeserializeOwned + Display,
{
    c.case(
        || format!("range {ta}..{tb}"),
        || {
            let r: IdentifierRange<T> = IdentifierRangeFrom::from_range(a, b);
            let want = if ta == tb { ta.to_string() } else { format!("{ta}-{tb}") };
            differ("compact form", &r.compact_string().to_string(), &want)?;
            let p = IdentifierRange::<T>::from_compact_string(&want).map_err(|e| format!("{want} rejected: {e}"))?;
            check!(p == r, "compact form read back as {p:?}");
            check!(r.first_in_range() == a && r.last_in_range() == b, "ends");
            check!(r.is_range() == (ta != tb), "is_range");
            let j = serde_json::to_string(&r).map_err(|e| e.to_string())?;
            let p: IdentifierRange<T> = serde_json::from_str(&j).map_err(|e| format!("JSON {j}: {e}"))?;
            check!(p == r, "JSON read back as {p:?}");
            let y = serde_yaml::to_string(&r).map_err(|e| e.to_string())?;
            let p: IdentifierRange<T> = serde_yaml::from_str(&y).map_err(|e| format!("YAML {y}: {e}"))?;
            check!(p == r, "YAML read back as {p:?}");
            c.steps(8);
            c.validated();
            c.outcome(if ta == tb { "single" } else { "range" });
            Ok(())
        },
    );
}

fn act_case(c: &crate::core::Ctx, year: i16, number: i32) -> Result<(), String> {
    let v = ActIdentifier { year, number };
    let compact = format!("{year}.{number}");
    differ("compact form", &v.compact_string().to_string(), &compact)?;
    differ("debug form", &format!("{v:?}"), &compact)?;
    let p = ActIdentifier::from_compact_string(&compact).map_err(|e| format!("compact rejected: {e}"))?;
    differ("compact form read back", &p, &v)?;
    let j = serde_json::to_string(&v).map_err(|e| e.to_string())?;
    differ("JSON", &serde_json::from_str::<ActIdentifier>(&j).ok(), &Some(v))?;
    let text = v.to_string();
    c.steps(6);
    if let Some(r) = roman_model(number.max(0) as u32) {
        differ("text form", &text, &format!("{year}. évi {r}. törvény"))?;
        c.outcome("in the roman range");
        if (1000..=9999).contains(&year) {
            let p: ActIdentifier = text.parse().map_err(|e| format!("{text} rejected: {e}"))?;
            differ("text form read back", &p, &v)?;
            let y = serde_yaml::to_string(&v).map_err(|e| e.to_string())?;
            differ("YAML", &serde_yaml::from_str::<ActIdentifier>(&y).ok(), &Some(v))?;
            for sep in ['/', '_', '.', '-'] {
                let s = format!("{year}{sep}{number}");
                let p: ActIdentifier = s.parse().map_err(|e| format!("{s} rejected: {e}"))?;
                differ("short form", &p, &v)?;
            }
            c.steps(7);
            c.outcome("read back from text");
        }
    } else {
        check!(text.contains(&year.to_string()), "text form {text:?} hides the year");
        c.outcome("outside the roman range");
    }
    c.validated();
    Ok(())
}

fn text_case(c: &crate::core::Ctx, s: &str) {
    c.case(
        || format!("text {s:?}"),
        || {
            agree("numeric identifier", s, s.parse::<NumericIdentifier>(), g_num(s))?;
            agree("numeric identifier (compact)", s, NumericIdentifier::from_compact_string(s), g_num(s))?;
            agree("article identifier", s, s.parse::<ArticleIdentifier>(), g_art(s, ':'))?;
            agree("article identifier (compact)", s, ArticleIdentifier::from_compact_string(s), g_art(s, '.'))?;
            agree("letter", s, s.parse::<AlphabeticIdentifier>(), g_letter(s))?;
            agree("prefixed letter", s, s.parse::<PrefixedAlphabeticIdentifier>(), g_prefixed(s))?;
            let want = if s.is_empty() { Says::Value(String::new()) } else { g_num(s) };
            agree("paragraph identifier", s, s.parse::<ParagraphIdentifier>(), want)?;
            agree("roman identifier", s, NumericIdentifier::from_roman(s), g_roman(s))?;
            c.steps(8);
            c.validated();
            let hit = g_num(s) != Says::Reject || g_art(s, ':') != Says::Reject || g_prefixed(s) != Says::Reject;
            c.outcome(if hit { "text in some grammar" } else { "text in no grammar" });
            Ok(())
        },
    )
}

// ---- C02 ---------------------------------------------------------------------------------
fn pair<T: IdentifierCommon>(c: &crate::core::Ctx, x: T, y: T, cmp: Ordering, next: bool) -> Result<(), String> {
    differ("order", &x.cmp(&y), &cmp)?;
    differ("partial order", &x.partial_cmp(&y), &Some(cmp))?;
    check!((x == y) == (cmp == Ordering::Equal), "equality");
    differ("is the next one", &x.is_next_from(y), &next)?;
    if next {
        check!(x > y, "a successor is not greater");
    }
    c.steps(3);
    c.validated();
    c.outcome(match (next, cmp) {
        (true, _) => "successor",
        (_, Ordering::Equal) => "equal",
        _ => "unrelated",
    });
    Ok(())
}

pub fn c02(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    let mut u: Vec<Unit> = vec![];
    let sfx = || std::iter::once(None).chain((0..34).map(Some));
    let nums: Vec<u16> = if t {
        vec![0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 255, 256, 32767, 32768, 65534, 65535]
    } else {
        vec![0, 1, 2, 9, 10, 11, 255, 256, 65534, 65535]
    };
    let all: Vec<MNum> = nums.iter().flat_map(|n| sfx().map(|s| (*n, s))).collect();
    for chunk in all.chunks(16) {
        let (chunk, all) = (chunk.to_vec(), all.clone());
        u.push(Unit {
            label: format!("numeric-{}", num_text(chunk[0])),
            run: Box::new(move |c| {
                for x in &chunk {
                    for y in &all {
                        c.case(
                            || format!("numeric {} after {}", num_text(*x), num_text(*y)),
                            || {
                                let (a, b) = (mk_num(*x), mk_num(*y));
                                check!(a.is_first() == (*x == (1, None)), "is_first");
                                check!(!a.is_empty(), "is_empty");
                                pair(c, a, b, x.cmp(y), num_next(*x, *y))?;
                                let (p, q) = (ParagraphIdentifier::from(a), ParagraphIdentifier::from(b));
                                check!(p.is_first() == (*x == (1, None)), "is_first");
                                check!(!p.is_empty(), "is_empty");
                                pair(c, p, q, x.cmp(y), num_next(*x, *y))
                            },
                        );
                    }
                }
            }),
        });
    }
    // Acts come by year, and by number inside a year.
    u.push(Unit {
        label: "acts".into(),
        run: Box::new(move |c| {
            let years = [i16::MIN, -1, 0, 1, 1949, 1990, 1999, 2000, 2009, 2010, 2011, 2022, 9999, i16::MAX];
            let numbers = [i32::MIN, -1, 0, 1, 2, 9, 10, 11, 49, 99, 100, 255, 256, 294, 65536, i32::MAX];
            let all: Vec<(i16, i32)> = years.iter().flat_map(|y| numbers.iter().map(move |n| (*y, *n))).collect();
            for x in &all {
                for y in &all {
                    c.case(
                        || format!("acts {x:?} and {y:?}"),
                        || {
                            let [a, b] = [x, y].map(|v| ActIdentifier { year: v.0, number: v.1 });
                            c.steps(2);
                            c.validated();
                            check!(a.cmp(&b) == x.cmp(y), "compared as {:?}", a.cmp(&b));
                            check!(a.partial_cmp(&b) == Some(x.cmp(y)), "partially compared as {:?}", a.partial_cmp(&b));
                            check!((a == b) == (x == y), "equality");
                            Ok(())
                        },
                    );
                }
            }
        }),
    });
    // Every number against its neighbours, and against the far ends.
    for block in 0..64u32 {
        u.push(Unit {
            label: format!("neighbours-{block}"),
            run: Box::new(move |c| {
                for n in block * 1024..(block + 1) * 1024 {
                    for m in [n.wrapping_sub(2), n.wrapping_sub(1), n, n + 1, n + 2, 0, 1, 65535] {
                        if m > 65535 {
                            continue;
                        }
                        for (s, r) in [(None, None), (Some(0), None), (None, Some(5)), (Some(1), Some(0))] {
                            let (x, y) = ((n as u16, s), (m as u16, r));
                            c.case(
                                || format!("numeric {} after {}", num_text(x), num_text(y)),
                                || pair(c, mk_num(x), mk_num(y), x.cmp(&y), num_next(x, y)),
                            );
                        }
                    }
                }
            }),
        });
    }
    let books: Vec<Option<u8>> = if t {
        vec![None, Some(0), Some(1), Some(2), Some(3), Some(9), Some(10), Some(128), Some(254), Some(255)]
    } else {
        vec![None, Some(0), Some(1), Some(2), Some(10), Some(254), Some(255)]
    };
    let arts: Vec<MArt> = books
        .iter()
        .flat_map(|b| {
            [0u16, 1, 2, 10, 65535]
                .into_iter()
                .flat_map(move |n| [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(33)].into_iter().map(move |s| (*b, (n, s))))
        })
        .collect();
    for chunk in arts.chunks(8) {
        let (chunk, arts) = (chunk.to_vec(), arts.clone());
        u.push(Unit {
            label: format!("article-{}", art_text(chunk[0])),
            run: Box::new(move |c| {
                for x in &chunk {
                    for y in &arts {
                        c.case(
                            || format!("article {} after {}", art_text(*x), art_text(*y)),
                            || {
                                let (a, b) = (mk_art(*x), mk_art(*y));
                                let first = x.1 == (1, None) && x.0.map_or(true, |b| b == 1);
                                check!(a.is_first() == first, "is_first");
                                pair(c, a, b, x.cmp(y), art_next(*x, *y))
                            },
                        );
                    }
                }
            }),
        });
    }
    u.push(Unit {
        label: "books".into(),
        run: Box::new(|c| {
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    for (m, n) in [((1, None), (5, None)), ((1, None), (1, None)), ((2, None), (1, None)), ((1, Some(0)), (1, None))] {
                        let (p, q) = ((Some(x), m), (Some(y), n));
                        c.case(
                            || format!("article {} after {}", art_text(p), art_text(q)),
                            || pair(c, mk_art(p), mk_art(q), p.cmp(&q), art_next(p, q)),
                        );
                    }
                }
            }
        }),
    });
    u.push(Unit {
        label: "letters".into(),
        run: Box::new(|c| {
            for x in 0..34 {
                for y in 0..34 {
                    c.case(
                        || format!("letter {} after {}", LETTERS[x], LETTERS[y]),
                        || {
                            check!(letter(x).is_first() == (x == 0), "is_first");
                            pair(c, letter(x), letter(y), x.cmp(&y), letter_next(x, y))
                        },
                    );
                }
            }
            // The unnumbered paragraph
            let none = ParagraphIdentifier::default();
            for y in [0u16, 1, 65535] {
                c.case(
                    || format!("paragraph {y} against the unnumbered one"),
                    || {
                        check!(none.is_empty() && !none.is_first(), "empty");
                        check!("".parse::<ParagraphIdentifier>().ok() == Some(none), "from empty text");
                        pair(c, none, y.into(), Ordering::Less, false)?;
                        pair(c, y.into(), none, Ordering::Greater, false)?;
                        pair(c, none, none, Ordering::Equal, false)
                    },
                );
            }
        }),
    });
    let pre: Vec<String> = std::iter::once(None)
        .chain((b'a'..=b'z').map(Some))
        .flat_map(|p| (b'a'..=b'z').map(move |ch| p.into_iter().chain([ch]).map(|b| b as char).collect()))
        .collect();
    for chunk in pre.chunks(26) {
        let (chunk, pre) = (chunk.to_vec(), pre.clone());
        u.push(Unit {
            label: format!("prefixed-{}", chunk[0]),
            run: Box::new(move |c| {
                let key = |s: &str| -> (Option<u8>, u8) {
                    let b = s.as_bytes();
                    if b.len() == 1 { (None, b[0]) } else { (Some(b[0]), b[1]) }
                };
                for x in &chunk {
                    let a: PrefixedAlphabeticIdentifier = x.parse().unwrap();
                    for y in &pre {
                        let b: PrefixedAlphabeticIdentifier = y.parse().unwrap();
                        c.case(
                            || format!("prefixed letter {x} after {y}"),
                            || {
                                let (k, l) = (key(x), key(y));
                                check!(a.is_first() == (k.1 == b'a'), "is_first");
                                let next = k.0 == l.0 && (k.1 == l.1 + 1 || (k.1 == b'r' && l.1 == b'p'));
                                pair(c, a, b, k.cmp(&l), next)
                            },
                        );
                    }
                }
            }),
        });
    }
    // Range membership.
    u.push(Unit {
        label: "membership".into(),
        run: Box::new(|c| {
            let ns: Vec<MNum> = [1u16, 2, 3, 10]
                .into_iter()
                .flat_map(|n| [None, Some(0), Some(2), Some(3), Some(4)].into_iter().map(move |s| (n, s)))
                .collect();
            for lo in &ns {
                for hi in &ns {
                    for x in &ns {
                        c.case(
                            || format!("{} in {}..{}", num_text(*x), num_text(*lo), num_text(*hi)),
                            || {
                                let r: IdentifierRange<NumericIdentifier> = IdentifierRangeFrom::from_range(mk_num(*lo), mk_num(*hi));
                                c.steps(1);
                                c.validated();
                                differ("membership", &r.contains(mk_num(*x)), &(lo <= x && x <= hi))
                            },
                        );
                    }
                }
            }
            for lo in 0..34 {
                for hi in 0..34 {
                    for x in 0..34 {
                        c.case(
                            || format!("{} in {}..{}", LETTERS[x], LETTERS[lo], LETTERS[hi]),
                            || {
                                let r: IdentifierRange<AlphabeticIdentifier> = IdentifierRangeFrom::from_range(letter(lo), letter(hi));
                                c.steps(1);
                                c.validated();
                                differ("membership", &r.contains(letter(x)), &(lo <= x && x <= hi))
                            },
                        );
                    }
                }
            }
        }),
    });
    u
}
