//! C36: the fixups and the list of acts that come with the repository are found and understood.
use std::{collections::BTreeMap, path::PathBuf, str::FromStr};

use crate::{
    check,
    core::{Ctx, Tier, Unit},
    scratch::{self, Dir},
};
use hun_law::{
    fixups::{Fixup, Fixups},
    identifier::ActIdentifier,
    mk_downloader::MkIssue,
    util::indentedline::IndentedLine,
};

fn data() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/view/data"))
}

/// The rows of the list: issue and act, as they are written.
fn rows() -> Vec<(String, String)> {
    let text = std::fs::read_to_string(data().join("act_to_mk_issue.csv")).unwrap_or_default();
    text.lines()
        .skip(1)
        .filter(|l| !l.is_empty())
        .map(|l| {
            let mut f = l.splitn(3, ',');
            (f.next().unwrap_or("").to_string(), f.next().unwrap_or("").to_string())
        })
        .collect()
}
/// The files of fixups: their place below the folder, and their text.
fn files() -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let base = data().join("fixups");
    for year in std::fs::read_dir(&base).into_iter().flatten().flatten() {
        for f in std::fs::read_dir(year.path()).into_iter().flatten().flatten() {
            let name = format!("{}/{}", year.file_name().to_string_lossy(), f.file_name().to_string_lossy());
            out.insert(name, std::fs::read_to_string(f.path()).unwrap_or_default());
        }
    }
    out
}

fn roman(mut n: i32) -> String {
    let mut s = String::new();
    for (v, t) in
        [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")]
    {
        while n >= v {
            s += t;
            n -= v;
        }
    }
    s
}

/// What a file says, read without the code under check.
fn meaning(text: &str) -> Result<Vec<(Vec<String>, String, String, bool)>, String> {
    let v: serde_yaml::Value = serde_yaml::from_str(text).map_err(|e| e.to_string())?;
    let s = |v: &serde_yaml::Value| v.as_str().map(|s| s.to_string()).ok_or(format!("no text: {v:?}"));
    v.as_sequence()
        .ok_or("no list")?
        .iter()
        .map(|f| {
            let after = match f.get("after") {
                Some(a) => a.as_sequence().ok_or("no list of lines")?.iter().map(s).collect::<Result<_, String>>()?,
                None => vec![],
            };
            Ok((after, s(&f["old"])?, s(&f["new"])?, f.get("set_bold").is_some_and(|b| b.as_bool() == Some(true))))
        })
        .collect()
}
fn plain(f: &[Fixup]) -> Vec<(Vec<String>, String, String, bool)> {
    f.iter().map(|f| (f.after.clone(), f.old.clone(), f.new.clone(), f.set_bold)).collect()
}

/// The fixups of every act there can be in a year: those of its file, and none without one.
fn year(c: &Ctx, year: i16) {
    let files = files();
    for number in 1..=400i32 {
        let name = format!("{year}. évi {}. törvény", roman(number));
        c.case(
            || format!("the fixups of {name}"),
            || {
                c.steps(1);
                c.validated();
                let id = ActIdentifier { year, number };
                check!(ActIdentifier::from_str(&name).ok() == Some(id) && id.to_string() == name, "{name} is not understood as {id:?}");
                let got: Vec<Fixup> =
                    Fixups::load_from(id, data().join("fixups")).map_err(|e| format!("its fixups cannot be loaded: {e:#}"))?.into();
                let want = match files.get(&format!("{year}/{name}.yml")) {
                    Some(text) => {
                        c.outcome("fixups");
                        meaning(text)?
                    }
                    None => vec![],
                };
                check!(plain(&got) == want, "its fixups are {:?} instead of {want:?}", plain(&got));
                Ok(())
            },
        );
    }
}

/// Every stored fixup can be saved again, and applies where it says.
fn file(c: &Ctx, name: &str) {
    let text = files().remove(name).unwrap();
    let id = name.split_once('/').and_then(|n| n.1.strip_suffix(".yml")).and_then(|n| ActIdentifier::from_str(n).ok());
    let n = std::cell::Cell::new(0);
    c.case(
        || format!("the file {name}"),
        || {
            c.validated();
            c.steps(1);
            let id = id.ok_or("it belongs to no act")?;
            check!(name == format!("{}/{id}.yml", id.year), "nobody finds it here");
            let fixups = meaning(&text)?;
            n.set(fixups.len());
            let dir = Dir::new();
            let mut stored = Fixups::load_from(id, dir.0.clone()).map_err(|e| format!("{e:#}"))?;
            for (after, old, new, set_bold) in fixups.iter().cloned() {
                stored.add(Fixup { after, old, new, set_bold });
            }
            stored.save().map_err(|e| format!("{e:#}"))?;
            let again: Vec<Fixup> = Fixups::load_from(id, dir.0.clone()).map_err(|e| format!("{e:#}"))?.into();
            check!(plain(&again) == fixups, "saved and loaded, it becomes {:?}", plain(&again));
            Ok(())
        },
    );
    for i in 0..n.get() {
        let (after, old, new, set_bold) = meaning(&text).unwrap_or_default()[i].clone();
        c.case(
            || format!("fixup {i} of {name}"),
            || {
                c.validated();
                c.steps(1);
                let before: Vec<String> = ["Elöl."].into_iter().map(String::from).chain(after.clone()).chain([old.clone(), "Végül.".into()]).collect();
                let mut lines: Vec<IndentedLine> = before.iter().map(|l| IndentedLine::from_test_str(l)).collect();
                check!(lines.iter().zip(&before).all(|(l, b)| l.content() == b), "the case is not well made: {before:?}");
                Fixup { after: after.clone(), old: old.clone(), new: new.clone(), set_bold }.apply(&mut lines).map_err(|e| format!("refused: {e:#}"))?;
                for (k, l) in lines.iter().enumerate() {
                    let want = if k == after.len() + 1 { &new } else { &before[k] };
                    check!(l.content() == want, "line {k} is {:?} instead of {want:?}", l.content());
                }
                check!(!set_bold || lines[after.len() + 1].is_bold(), "the line is not bold");
                Ok(())
            },
        );
    }
}

/// Every row of the list of acts.
fn list(c: &Ctx) {
    let mut seen = BTreeMap::new();
    for (k, (issue, act)) in rows().into_iter().enumerate() {
        c.case(
            || format!("row {} of the list: {issue} {act}", k + 1),
            || {
                c.validated();
                c.steps(1);
                let id = ActIdentifier::from_str(&act).map_err(|e| format!("the act is not understood: {e:#}"))?;
                check!(id.to_string() == act, "the act is understood as {id}");
                let mk = MkIssue::from_str(&issue).map_err(|e| format!("the issue is not understood: {e:#}"))?;
                check!(format!("{}/{}", mk.year, mk.issue) == issue, "the issue is understood as {mk:?}");
                check!(mk.year == id.year as i64 || mk.year == id.year as i64 + 1, "an act of {} in an issue of {}", id.year, mk.year);
                if let Some(old) = seen.insert((id.year, id.number), issue.clone()) {
                    check!(old == issue, "the act is also in {old}");
                }
                Ok(())
            },
        );
    }
}

pub fn c36(_tier: Tier) -> Vec<Unit<'static>> {
    scratch::scratch();
    let mut u: Vec<Unit> = vec![Unit { label: "list".into(), run: Box::new(list) }];
    for y in 1990..=2035 {
        u.push(Unit { label: format!("year-{y}"), run: Box::new(move |c| year(c, y)) });
    }
    for name in files().into_keys() {
        u.push(Unit { label: format!("file-{name}"), run: Box::new(move |c| file(c, &name)) });
    }
    u
}
