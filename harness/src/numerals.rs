//! C15: Hungarian ordinals, dates, and the headers written with them.
use crate::{
    check,
    core::{differ, Ctx, Tier, Unit},
    doc, ids,
};
use chrono::NaiveDate;
use hun_law::{
    identifier::NumericIdentifier,
    parser::structure::parse_act_structure,
    structure::*,
    util::hun_str::{text_to_month_hun, FromHungarianString, ToHungarianString},
};
use std::collections::BTreeMap;

/// The ordinals of Hungarian, from the cardinals' stems.
pub fn ordinal(n: u32) -> Option<String> {
    const ONES: [&str; 10] =
        ["", "egyedik", "kettedik", "harmadik", "negyedik", "ötödik", "hatodik", "hetedik", "nyolcadik", "kilencedik"];
    const TENS: [(&str, &str); 10] = [
        ("", ""),
        ("tizen", "tizedik"),
        ("huszon", "huszadik"),
        ("harminc", "harmincadik"),
        ("negyven", "negyvenedik"),
        ("ötven", "ötvenedik"),
        ("hatvan", "hatvanadik"),
        ("hetven", "hetvenedik"),
        ("nyolcvan", "nyolcvanadik"),
        ("kilencven", "kilencvenedik"),
    ];
    Some(match n {
        0 => "nulladik".into(),
        1 => "első".into(),
        2 => "második".into(),
        100 => "századik".into(),
        n if n > 100 => return None,
        n if n % 10 == 0 => TENS[n as usize / 10].1.into(),
        n => format!("{}{}", TENS[n as usize / 10].0, ONES[n as usize % 10]),
    })
}
fn capital(s: &str) -> String {
    let mut c = s.chars();
    c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str())
}
const MONTHS: [&str; 12] = [
    "január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december",
];
fn days(y: i32, m: u32) -> u32 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 31,
    }
}

fn spellings() -> BTreeMap<String, u32> {
    let mut m = BTreeMap::new();
    for n in 0..=100 {
        let o = ordinal(n).unwrap();
        m.insert(o.to_uppercase(), n);
        m.insert(capital(&o), n);
        m.insert(o, n);
    }
    m
}

/// All texts one edit away.
fn edits(s: &str, f: &mut dyn FnMut(String)) {
    let c: Vec<char> = s.chars().collect();
    let alphabet: Vec<char> = "aábcdeéghiklmnoóöőrstuvyzAÁEÉIKOÖŐ .-".chars().collect();
    for i in 0..=c.len() {
        let join = |mid: &[char], skip: usize| -> String { c[..i].iter().chain(mid).chain(&c[i + skip..]).collect() };
        if i < c.len() {
            f(join(&[], 1));
            for a in &alphabet {
                f(join(&[*a], 1));
            }
        }
        for a in &alphabet {
            f(join(&[*a], 0));
        }
    }
}

fn header(c: &Ctx, text: &str, element_type: StructuralElementType, id: NumericIdentifier) -> Result<(), String> {
    let lines = vec![
        doc::line(50.0, text, false, false),
        doc::line(50.0, "A CÍM", false, false),
        doc::line(20.0, "1. § Szöveg.", false, false),
    ];
    c.steps(1);
    let a = parse_act_structure(&doc::raw(lines)).map_err(|e| format!("{e:#}"))?;
    match a.children.first() {
        Some(ActChild::StructuralElement(e)) => {
            check!(e.identifier == id && e.element_type == element_type, "'{text}' read as {:?} {}", e.element_type, e.identifier);
            differ("title", &e.title.as_str(), &"A CÍM")
        }
        other => Err(format!("'{text}' read as {other:?}, with preamble {:?}", a.preamble)),
    }
}

pub fn c15(tier: Tier) -> Vec<Unit<'static>> {
    let mut u: Vec<Unit> = vec![];
    u.push(Unit {
        label: "ordinals".into(),
        run: Box::new(|c| {
            for n in 0..=65535u32 {
                c.case(
                    || format!("ordinal of {n}"),
                    || {
                        c.steps(2);
                        c.validated();
                        let want = ordinal(n);
                        differ("as text", &(n as u16).to_hungarian().ok(), &want.as_deref())?;
                        if n < 256 {
                            differ("as text (u8)", &(n as u8).to_hungarian().ok(), &want.as_deref())?;
                        }
                        differ("as identifier", &NumericIdentifier::from(n as u16).to_hungarian().ok(), &want)?;
                        for s in [0usize, 1, 33] {
                            let id: NumericIdentifier = format!("{n}{}", ids::LETTERS[s]).parse().map_err(|e| format!("{e}"))?;
                            let want = want.as_ref().map(|o| format!("{o}/{}", ids::LETTERS[s]));
                            differ("as identifier", &id.to_hungarian().ok(), &want)?;
                        }
                        Ok(())
                    },
                );
            }
            for (s, n) in spellings() {
                c.case(
                    || format!("ordinal {s:?}"),
                    || {
                        c.steps(2);
                        c.validated();
                        differ("u16", &u16::from_hungarian(&s).ok(), &Some(n as u16))?;
                        differ("u8", &u8::from_hungarian(&s).ok(), &Some(n as u8))
                    },
                );
            }
        }),
    });
    for n in 0..=100u32 {
        u.push(Unit {
            label: format!("misspelt-{n}"),
            run: Box::new(move |c| {
                let all = spellings();
                let o = ordinal(n).unwrap();
                for o in [o.clone(), o.to_uppercase(), capital(&o)] {
                    edits(&o, &mut |s| {
                        c.case(
                            || format!("misspelt ordinal {s:?}"),
                            || {
                                c.steps(2);
                                c.validated();
                                differ("u16", &u16::from_hungarian(&s).ok(), &all.get(&s).map(|n| *n as u16))?;
                                differ("u8", &u8::from_hungarian(&s).ok(), &all.get(&s).map(|n| *n as u8))
                            },
                        )
                    });
                }
            }),
        });
    }
    let years: Vec<i32> = if tier == Tier::Thorough { (0..=9999).collect() } else { (1867..=2120).chain([0, 1, 1582, 1600, 1700, 9999]).collect() };
    for chunk in years.chunks(16) {
        let chunk = chunk.to_vec();
        u.push(Unit {
            label: format!("dates-{}", chunk[0]),
            run: Box::new(move |c| {
                for &y in &chunk {
                    for (mi, name) in MONTHS.iter().enumerate() {
                        let m = mi as u32 + 1;
                        for d in 0..=40u32 {
                            c.case(
                                || format!("{y:04}. {name} {d}."),
                                || {
                                    let ok = d >= 1 && d <= days(y, m);
                                    let want = if ok { Some((y, m, d)) } else { None };
                                    for s in [
                                        format!("{y:04}. {name} {d}."),
                                        format!("{y:04}. {name} {d:02}."),
                                        format!("{y:04}. {name} {d}., csütörtök"),
                                    ] {
                                        use chrono::Datelike;
                                        c.steps(1);
                                        let got = NaiveDate::from_hungarian(&s).ok().map(|d| (d.year(), d.month(), d.day()));
                                        check!(got == want, "'{s}' read as {got:?}");
                                    }
                                    c.validated();
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }),
        });
    }
    u.push(Unit {
        label: "not-dates".into(),
        run: Box::new(|c| {
            for (mi, m) in MONTHS.iter().enumerate() {
                c.case(
                    || format!("month {m}"),
                    || differ("month", &text_to_month_hun(m).ok(), &Some(mi as u8 + 1)),
                );
                edits(m, &mut |s| {
                    c.case(
                        || format!("misspelt month {s:?}"),
                        || {
                            c.steps(2);
                            c.validated();
                            let want = MONTHS.iter().position(|m| *m == s).map(|i| i as u8 + 1);
                            differ("month", &text_to_month_hun(&s).ok(), &want)?;
                            if want.is_none() && !s.starts_with(' ') {
                                // A leading space or a second word is not a month either.
                                let d = NaiveDate::from_hungarian(&format!("2011. {s} 12."));
                                check!(d.is_err(), "a date with the month '{s}' is {d:?}");
                            }
                            Ok(())
                        },
                    );
                });
            }
            for s in [
                "", "2011.", "2011. június", "2011. június .", "2011. június", " 2011. június 28.", "11. június 28.", "2011 június 28.", "2011. 06. 28.",
                "20110. június 28.", "június 28.", "MAGYAR KÖZLÖNY",
            ] {
                c.case(
                    || format!("not a date: {s:?}"),
                    || {
                        // The dot after the year is not insisted on.
                        let _ = NaiveDate::from_hungarian(s);
                        if s.starts_with("2011") && s.ends_with("28.") && s.contains("június") {
                            return Ok(());
                        }
                        let d = NaiveDate::from_hungarian(s);
                        check!(d.is_err(), "read as {d:?}");
                        Ok(())
                    },
                );
            }
        }),
    });
    for block in 0..8u32 {
        u.push(Unit {
            label: format!("headers-{block}"),
            run: Box::new(move |c| {
                use StructuralElementType::*;
                for n in (0..=4200u32).chain([9999, 65535]).filter(|n| n % 8 == block) {
                    for suffix in [None, Some(0usize), Some(1), Some(4), Some(33)] {
                        for (element_type, k) in [(Book, 0), (Part { is_special: false }, 1), (Part { is_special: true }, 2), (Title, 3), (Chapter, 4)] {
                            c.case(
                                || format!("header of {element_type:?} {n}{}", suffix.map_or("", |s| ids::LETTERS[s])),
                                || {
                                    let id: NumericIdentifier = match suffix {
                                        None => NumericIdentifier::from(n as u16),
                                        Some(s) => format!("{n}{}", ids::LETTERS[s]).parse().map_err(|e| format!("{e}"))?,
                                    };
                                    let e = StructuralElement { identifier: id, title: "A CÍM".into(), element_type, last_change: None };
                                    c.steps(1);
                                    c.validated();
                                    let got = e.header_string().ok();
                                    let want = match (k, suffix) {
                                        (0, None) => ordinal(n).map(|o| format!("{} KÖNYV", o.to_uppercase())),
                                        (1, None) => ordinal(n).map(|o| format!("{} RÉSZ", o.to_uppercase())),
                                        (2, None) => match n {
                                            1 => Some("ÁLTALÁNOS RÉSZ".to_string()),
                                            2 => Some("KÜLÖNÖS RÉSZ".to_string()),
                                            3 => Some("ZÁRÓ RÉSZ".to_string()),
                                            _ => None,
                                        },
                                        (3 | 4, s) => ids::roman_model(n).map(|r| {
                                            let s = s.map_or(String::new(), |s| format!("/{}", ids::LETTERS[s]));
                                            format!("{r}{s}. {}", if k == 3 { "CÍM" } else { "FEJEZET" })
                                        }),
                                        (2, _) => None,
                                        // A book or part with a letter does not occur.
                                        _ => return Ok(()),
                                    };
                                    match (&got, &want) {
                                        // Only the case of a suffix is a matter of style.
                                        (Some(g), Some(w)) => check!(g.to_uppercase() == w.to_uppercase(), "'{g}' instead of '{w}'"),
                                        (None, None) => return Ok(()),
                                        _ => return differ("header", &got, &want),
                                    }
                                    header(c, &got.unwrap(), element_type, id)?;
                                    if k == 4 {
                                        // Other spellings in use.
                                        let w = want.unwrap();
                                        header(c, &w.replace("FEJEZET", "Fejezet"), element_type, id)?;
                                        header(c, &w.replace("FEJEZET", "fejezet"), element_type, id)?;
                                    }
                                    if k >= 3 && suffix.is_some() {
                                        let (h, t) = (ids::roman_model(n).unwrap(), if k == 3 { "CÍM" } else { "FEJEZET" });
                                        let s = ids::LETTERS[suffix.unwrap()].to_uppercase();
                                        header(c, &format!("{h}/{s}. {t}"), element_type, id)?;
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }),
        });
    }
    u
}
