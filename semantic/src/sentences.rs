//! C26: the references of a sentence.
use crate::{
    check,
    choose::{self, Chooser},
    core::{Tier, Unit},
    own,
    spell::{self, Meant, Text},
};

const LEADS: &[&str] = &["A ", "", "Ha a ", "Nem alkalmazható az ", "Az (1)–(", "5. "];
/// Between references, and after them: nothing in these is a reference.
const FILLERS: &[&str] = &[
    " szerinti eljárás",
    " alapján (ideértve a mentességet) a bíróság",
    ", ha",
    ", „az 5. § (2) bekezdés a) pontja” szöveg",
    ", az 1. melléklet 3. pontja és 4. alpontja szerint",
    ", 25 § és (3) bekezd, valamint az a) pon",
    " esetén, az 1991. évi törvény",
    ": „egy „5. § és (2) bekezdés” kettő Btk.”",
    " -- 12) § Btk, bekezdése 5. (2)",
    " a 2. és 3. számú mellékletben foglalt táblázat",
    " és amely",
];
const ENDS: &[&str] = &[".", "", " alapján.", " kell", " rendelkezései:", " kivételével, és", "?"];

fn compound(ch: &mut Chooser, t: &mut Text, most: usize) {
    let mut cur = Meant::default();
    if ch.yes() {
        spell::act(ch, t, &mut cur, true);
        // An act alone, or what it consists of
        if ch.pick(4) == 3 {
            return;
        }
        t.put(" ");
    }
    for i in 0..most {
        if i > 0 {
            if ch.pick(2) == 0 {
                return;
            }
            let sep = ch.of(spell::SEPARATORS);
            t.put(sep);
        }
        let shapes = spell::shapes_after(&cur);
        // After the first one: those it can go on with, the longest way first
        let shape = ch.of(&shapes);
        spell::spelling(ch, shape, &cur).write(t, &mut cur);
    }
}

pub fn sentence(ch: &mut Chooser) -> Text {
    let mut t = Text::default();
    t.put(ch.of(LEADS));
    compound(ch, &mut t, 3);
    if ch.yes() {
        t.put(ch.of(FILLERS));
        if ch.pick(2) == 0 {
            t.put(" a ");
            compound(ch, &mut t, 1);
        }
    }
    t.put(ch.of(ENDS));
    t
}

pub fn units(tier: Tier) -> Vec<Unit<'static>> {
    let mut out = own::examples(&["data_semantic_parser/ref_only"]);
    let known = spell::known();
    out.extend(choose::units("sentence", if tier == Tier::Quick { 5 } else { 6 }, sentence, move |c, _, t: &Text| {
        c.case(
            || format!("{:?}", t.s),
            || {
                c.steps(1);
                c.validated();
                c.outcome(match t.refs.len() {
                    1 => "one reference",
                    2 => "two references",
                    _ => "more references",
                });
                let info = own::extract(&known, &t.s).map_err(|e| format!("{e:#}"))?;
                check!(info.special_phrase.is_none(), "a special phrase is found: {:?}", info.special_phrase);
                spell::compare(&info, t)
            },
        )
    }));
    out.extend(crate::grown::c26());
    out
}
