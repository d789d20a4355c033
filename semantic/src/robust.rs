//! C32: no text makes the semantic parser fail badly.
use hun_law::{semantic_info::SemanticInfo, structure::Act};

use crate::{
    check,
    core::{Ctx, Tier, Unit},
    own, spell,
};

const TOKENS: &[&str] = &[
    "A", "a", "Btk.", "5.", "§", "(2)", "bekezdése", "b)", "pontja", "bc)", "alpontja", "–", "és", ",", "„", "”", "(", ")", ":", ".", "2012. évi C. törvény",
    "(a továbbiakban: Xt.)", "Hatályát veszti", "helyébe", "a következő", "rendelkezés lép", "szöveg", "lép", "hatályba", "2013. január 1-jén", "Ez a törvény",
    "egészül ki", "XX. Fejezete", "alcíme", "melléklete", "99999999999999999999", "0", "1878. évi IIII. törvény", "2013. február 31-én", "é", "\u{a0}", "\"", "3:4/B",
];

pub fn well_formed(text: &str, info: &SemanticInfo) -> Result<(), String> {
    for r in &info.outgoing_references {
        check!(r.start < r.end && r.end <= text.len(), "a reference at {}..{} of {}", r.start, r.end, text.len());
        check!(text.is_char_boundary(r.start) && text.is_char_boundary(r.end), "a reference at {}..{}, inside a character", r.start, r.end);
        check!(!text[r.start..r.end].trim().is_empty(), "a reference that is blank");
    }
    for w in info.outgoing_references.windows(2) {
        check!(w[0].end <= w[1].start, "references overlap: {:?} {:?}", w[0], w[1]);
    }
    Ok(())
}

fn one(c: &Ctx, text: &str) {
    c.case(
        || format!("{text:?}"),
        || {
            c.steps(1);
            c.validated();
            match own::extract(&spell::known(), text) {
                Ok(info) => {
                    c.outcome(if info.special_phrase.is_some() {
                        "special phrase"
                    } else if info.outgoing_references.is_empty() {
                        "nothing"
                    } else {
                        "references"
                    });
                    well_formed(text, &info)
                }
                Err(_) => {
                    c.outcome("refused");
                    Ok(())
                }
            }
        },
    );
}

fn walk(c: &Ctx, path: &mut Vec<&'static str>, depth: usize) {
    one(c, &path.join(" "));
    if depth > 0 && !c.stopped() {
        for t in TOKENS {
            path.push(t);
            walk(c, path, depth - 1);
            path.pop();
        }
    }
}

/// Phrases with tokens left out, doubled and put in
const PHRASES: &[&str] = &[
    "A Btk. 5. § (2) és (3) bekezdése helyébe a következő rendelkezések lépnek :",
    "A Btk. 5. § a következő (4) és (5) bekezdéssel egészül ki :",
    "A Btk. XX. Fejezete a következő 5/A. alcímmel egészül ki :",
    "A Btk. 12. § (2) bekezdésében a „ x ” szövegrész helyébe a „ y ” szöveg lép .",
    "Hatályát veszti a Btk. 5. § b) pontja és 6. § nyitó szövegrészében az „ x ” szövegrész .",
    "Ez a törvény – a (2) bekezdésben foglalt kivétellel – 2013. január 1-jén lép hatályba , és 2014. május 2-án hatályát veszti .",
    "A 2012. évi C. törvény (a továbbiakban: Xt.) 5. § és az Xt. 6. § a) – b) pontja .",
];

pub fn units(tier: Tier) -> Vec<Unit<'static>> {
    let mut out: Vec<Unit> = vec![];
    let depth = if tier == Tier::Quick { 3 } else { 4 };
    for t in TOKENS {
        out.push(Unit { label: format!("texts from {t}"), run: Box::new(move |c| walk(c, &mut vec![t], depth - 1 + 0)) });
    }
    for p in PHRASES {
        out.push(Unit {
            label: format!("edits of {p}"),
            run: Box::new(move |c| {
                let ts: Vec<&str> = p.split(' ').collect();
                let edit = |v: &[&'static str]| -> Vec<Vec<&'static str>> {
                    let mut out = vec![];
                    for i in 0..v.len() {
                        let mut w = v.to_vec();
                        w.remove(i);
                        out.push(w);
                        for t in TOKENS {
                            let mut w = v.to_vec();
                            w[i] = t;
                            out.push(w.clone());
                            w[i] = v[i];
                            w.insert(i, t);
                            out.push(w);
                        }
                    }
                    out
                };
                for v in edit(&ts) {
                    one(c, &v.join(" "));
                    if c.thorough() || v.len() < ts.len() {
                        for w in edit(&v) {
                            one(c, &w.join(" "));
                        }
                    }
                }
            }),
        });
    }
    // The same thing over and over: still soon over.
    out.push(Unit {
        label: "long".into(),
        run: Box::new(|c| {
            for t in TOKENS.iter().copied().chain(["5. és", "(2) –", "a) és b)", "„ „ ”", "„x” szövegrész helyébe a „y” szöveg,", "A Btk. 5. §"]) {
                for n in [50, 200] {
                    one(c, &vec![t; n].join(" "));
                    one(c, &format!("A Btk. {}", vec![t; n].join(" ")));
                    one(c, &format!("Hatályát veszti a Btk. {} .", vec![t; n].join(" ")));
                }
            }
        }),
    });
    // Elements without a text
    out.push(Unit {
        label: "empty elements".into(),
        run: Box::new(|c| {
            for body in [
                serde_json::json!(""),
                serde_json::json!({"intro": "", "children": {"AlphabeticPoint": []}}),
                serde_json::json!({"intro": "", "children": {"AlphabeticPoint": [{"identifier": "a", "body": ""}]}, "wrap_up": ""}),
                serde_json::json!({"intro": "A Btk.", "children": {"NumericPoint": [{"identifier": "1", "body": ", és"}]}, "wrap_up": "."}),
                serde_json::json!({"intro": "A Btk. 5. §-a helyébe a következő rendelkezés lép:", "children": {"QuotedBlock": []}}),
            ] {
                c.case(
                    || format!("{body}"),
                    || {
                        c.steps(1);
                        let mut act: Act = serde_json::from_value(serde_json::json!({
                            "identifier": {"year": 1, "number": 1}, "subject": "", "preamble": "", "publication_date": "2345-06-07",
                            "children": [{"Article": {"identifier": "1", "children": [{"body": body}]}}],
                        })).unwrap();
                        let _ = act.add_semantic_info();
                        Ok(())
                    },
                );
            }
        }),
    });
    out
}
