//! C20: what is edited in the fixup editor is what the stored fixups do afterwards.
use crate::{
    check,
    core::{Ctx, Tier, Unit},
    doc::{self, chars_of},
    scratch::scratch,
};
use hun_law::{
    fixups::Fixups,
    identifier::ActIdentifier,
    parser::mk_act_section::ActRawText,
    util::indentedline::{IndentedLine, EMPTY_LINE},
};
use std::{
    path::{Path, PathBuf},
    sync::atomic::{AtomicU32, Ordering::SeqCst},
};

#[path = "../../build/view/bin/hun_law/fixup_editor.rs"]
#[allow(dead_code)]
mod fixup_editor;

// ---------------------------------------------------------------- the editor's side

/// What the person at the editor does to one line.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Edit {
    Keep,
    /// The text is replaced, everything before it stays.
    Text(&'static str),
    /// Nothing is left of the line, not even the quote level column.
    Wipe,
    /// Only the given number of characters is left of it.
    Cut(usize),
    /// <BOLD> in front of the text.
    Bold,
    /// <BOLD> in front of a new text.
    BoldText(&'static str),
    /// <BOLD> after the text.
    BoldAfter,
    /// Spaces after the text.
    Spaces,
}
use Edit::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Save {
    InPlace,
    /// Written to a new file, which then replaces the old one.
    ByRename,
    /// Without a newline at the end of the file.
    NoFinalNewline,
    /// With DOS line ends.
    Crlf,
    /// One line missing at the end / one line added at the end or the start.
    Shorter,
    Longer,
    LongerStart,
}

/// Run as an editor: `argv[0]` is a link in a directory that also holds what to do.
pub fn editor_mode(args: &[String]) -> Option<i32> {
    let me = Path::new(&args[0]);
    if me.file_name()?.to_str()? != "mc-editor" {
        return None;
    }
    let dir = me.parent()?;
    let plan: serde_json::Value = serde_json::from_slice(&std::fs::read(dir.join("plan")).ok()?).ok()?;
    let target = Path::new(&args[1]);
    let shown = std::fs::read_to_string(target).ok()?;
    std::fs::write(dir.join("shown"), &shown).ok()?;
    let mut lines: Vec<String> = shown.lines().map(|l| l.to_string()).collect();
    for (i, l) in lines.iter_mut().enumerate() {
        let text = l.chars().skip(5).collect::<String>().trim_matches(' ').to_string();
        let head = l[..l.len() - text.len()].to_string();
        let arg = plan["edits"][i][1].as_str().unwrap_or("");
        match plan["edits"][i][0].as_str()? {
            "keep" => {}
            "text" => *l = format!("{head}{arg}"),
            "wipe" => l.clear(),
            "cut" => *l = l.chars().take(arg.parse().ok()?).collect(),
            "bold" => *l = format!("{head}<BOLD>{text}"),
            "boldtext" => *l = format!("{head}<BOLD>{arg}"),
            "boldafter" => *l = format!("{head}{text} <BOLD>"),
            "spaces" => *l = format!("{head}{text}   "),
            _ => return Some(3),
        }
    }
    let save = plan["save"].as_str()?;
    match save {
        "Shorter" => drop(lines.pop()),
        "Longer" => lines.push("   0 a".into()),
        "LongerStart" => lines.insert(0, "   0 a".into()),
        _ => {}
    }
    let nl = if save == "Crlf" { "\r\n" } else { "\n" };
    let mut text = lines.join(nl);
    if save != "NoFinalNewline" && !lines.is_empty() {
        text += nl;
    }
    if save == "ByRename" {
        let new = target.with_extension("new");
        std::fs::write(&new, text).ok()?;
        std::fs::rename(new, target).ok()?;
    } else {
        std::fs::write(target, text).ok()?;
    }
    Some(0)
}

struct Desk {
    dir: PathBuf,
    editor: String,
}
thread_local! {
    static DESK: Desk = {
        static NEXT: AtomicU32 = AtomicU32::new(0);
        let dir = scratch().join(format!("desk{}", NEXT.fetch_add(1, SeqCst)));
        std::fs::create_dir(&dir).unwrap();
        std::os::unix::fs::symlink(std::env::current_exe().unwrap(), dir.join("mc-editor")).unwrap();
        Desk { editor: dir.join("mc-editor").to_str().unwrap().into(), dir }
    };
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug, PartialEq)]
struct Line {
    text: String,
    bold: bool,
}

/// What the person meant the line to be, and whether it was marked bold.
fn meant(old: &str, e: Edit) -> (String, bool) {
    match e {
        Keep | Spaces => (old.into(), false),
        Text(t) => (t.trim_matches(' ').into(), false),
        Wipe => (String::new(), false),
        // The first five columns are the quote level.
        Cut(n) => {
            assert!(n <= 5);
            (String::new(), false)
        }
        Bold | BoldAfter => (old.into(), true),
        BoldText(t) => (t.trim_matches(' ').into(), true),
    }
}

/// Whether top-down recording has a unique context of at most 10 lines for every change.
fn recordable(old: &[String], new: &[(String, bool)]) -> bool {
    let mut cur = old.to_vec();
    for i in 0..cur.len() {
        if cur[i] == new[i].0 && !new[i].1 {
            continue;
        }
        let unique = (0..=i.min(10)).any(|n| {
            let needle = &cur[i - n..=i];
            cur.windows(n + 1).filter(|w| *w == needle).count() == 1
        });
        if !unique {
            return false;
        }
        cur[i] = new[i].0.clone();
    }
    true
}

static NEXT_ACT: AtomicU32 = AtomicU32::new(0);

fn fixups_path(id: ActIdentifier) -> PathBuf {
    // Where the file is, is the library's business: it is looked for.
    let dir = scratch().join("data/fixups").join(id.year.to_string());
    dir.join(format!("{id}.yml"))
}

fn session(c: &Ctx, act: &ActRawText, raw: &[IndentedLine], edits: &[Edit], save: Save) -> Result<Option<Vec<IndentedLine>>, String> {
    let before = std::fs::read(fixups_path(act.identifier)).ok();
    let plan = serde_json::json!({
        "save": format!("{save:?}"),
        "edits": edits.iter().map(|e| match e {
            Keep => ["keep".to_string(), String::new()],
            Text(t) => ["text".into(), t.to_string()],
            Wipe => ["wipe".into(), String::new()],
            Cut(n) => ["cut".into(), n.to_string()],
            Bold => ["bold".into(), String::new()],
            BoldText(t) => ["boldtext".into(), t.to_string()],
            BoldAfter => ["boldafter".into(), String::new()],
            Spaces => ["spaces".into(), String::new()],
        }).collect::<Vec<_>>(),
    });
    c.steps(edits.len() as u64);
    let (result, shown) = DESK.with(|d| {
        std::fs::write(d.dir.join("plan"), plan.to_string()).unwrap();
        let _ = std::fs::remove_file(d.dir.join("shown"));
        let r = fixup_editor::run_fixup_editor(act, &d.editor);
        (r, std::fs::read_to_string(d.dir.join("shown")).ok())
    });
    if let Some(shown) = &shown {
        let texts: Vec<String> = shown.lines().map(|l| l.chars().skip(5).collect::<String>().trim_matches(' ').to_string()).collect();
        let want: Vec<&str> = act.body.iter().map(|l| l.content()).collect();
        check!(texts == want, "the editor shows {texts:?} instead of the act's lines");
    }
    let after = std::fs::read(fixups_path(act.identifier)).ok();
    let old: Vec<String> = act.body.iter().map(|l| l.content().to_string()).collect();
    let new: Vec<(String, bool)> = old.iter().zip(edits).map(|(o, e)| meant(o, *e)).collect();
    let same_length = !matches!(save, Save::Shorter | Save::Longer | Save::LongerStart);
    if let Err(e) = &result {
        let trimmed = old.iter().all(|l| l.trim() == l);
        check!(!(same_length && trimmed && recordable(&old, &new)), "the edit is refused: {e:#}");
        check!(before == after, "the edit is refused ({e:#}), but the stored fixups changed");
        c.outcome("refused");
        return Ok(None);
    }
    check!(shown.is_some(), "the editor was not run");
    check!(same_length, "an edit that changed the number of lines was accepted");
    let mut got = raw.to_vec();
    Fixups::load(act.identifier)
        .map_err(|e| format!("the fixups stored cannot be loaded: {e:#}"))?
        .apply(&mut got)
        .map_err(|e| format!("the fixups stored cannot be applied: {e:#}"))?;
    for (i, ((l, (text, bold)), was)) in got.iter().zip(&new).zip(&act.body).enumerate() {
        check!(l.content() == text, "line {i} was edited to {text:?}, but becomes {:?}", l.content());
        if *bold && !text.is_empty() {
            check!(chars_of(l).iter().all(|(_, c, b)| *b || *c == ' '), "line {i} was marked bold, but is not");
        } else if l.content() == was.content() {
            check!(chars_of(l) == chars_of(was) && l.is_justified() == was.is_justified(), "line {i} was not edited, but changed to {:?}", chars_of(l));
        } else {
            check!(text.is_empty() || was.is_empty() || l.is_bold() == was.is_bold(), "the boldness of line {i} changed");
        }
    }
    c.outcome("recorded");
    Ok(Some(got))
}

fn act_of(body: Vec<IndentedLine>) -> ActRawText {
    let n = NEXT_ACT.fetch_add(1, SeqCst);
    let mut act = doc::raw(body);
    act.identifier = ActIdentifier { year: (1000 + n / 3_000) as i16, number: (1 + n % 3_000) as i32 };
    act
}

/// Some editing sessions, one after the other, as the command line tool does them.
fn history(c: &Ctx, body: &[IndentedLine], sessions: &[(Vec<Edit>, Save)]) -> Result<(), String> {
    c.validated();
    let mut act = act_of(body.to_vec());
    let r = (|| -> Result<(), String> {
        for (i, (edits, save)) in sessions.iter().enumerate() {
            let next = session(c, &act, body, edits, *save).map_err(|e| format!("in session {}: {e}", i + 1))?;
            if let Some(next) = next {
                act.body = next;
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_file(fixups_path(act.identifier));
    r
}

fn tuples<T: Clone>(alphabet: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|t| {
                alphabet.iter().map(move |a| {
                    let mut t = t.clone();
                    t.push(a.clone());
                    t
                })
            })
            .collect();
    }
    out
}

fn positioned(texts: &[&str]) -> Vec<IndentedLine> {
    texts
        .iter()
        .enumerate()
        .map(|(i, t)| if t.is_empty() { EMPTY_LINE } else { doc::line(20.0 + 13.0 * i as f64, t, i % 3 == 2, i % 2 == 0) })
        .collect()
}

fn describe(body: &[&str], s: &[(Vec<Edit>, Save)]) -> String {
    format!("lines {body:?}, sessions {s:?}")
}

pub fn c20(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    scratch();
    let mut u: Vec<Unit> = vec![];
    let texts = ["alma", "körte", ""];
    // One session: every edit of every line.
    let edits = [Keep, Text("alma"), Text("almafa"), Text(""), Wipe, Bold];
    for n in 1..=if t { 5 } else { 4 } {
        for first in tuples(&texts, n.min(2)) {
            u.push(Unit {
                label: format!("one-{n}-{}", first.join("-")),
                run: Box::new(move |c| {
                    for rest in tuples(&texts, n - first.len()) {
                        let body: Vec<&str> = first.iter().chain(&rest).copied().collect();
                        let lines = positioned(&body);
                        for e in tuples(&edits, n) {
                            if n > if t { 4 } else { 3 } && e.iter().filter(|e| **e != Keep).count() > if t { 3 } else { 2 } {
                                continue;
                            }
                            let s = [(e, Save::InPlace)];
                            c.case(|| describe(&body, &s), || history(c, &lines, &s));
                        }
                    }
                }),
            });
        }
    }
    // Two and three sessions.
    let edits = [Keep, Text("alma"), Wipe, Bold];
    for n in 1..=3 {
        for first in tuples(&texts, n.min(2)) {
            u.push(Unit {
                label: format!("two-{n}-{}", first.join("-")),
                run: Box::new(move |c| {
                    for rest in tuples(&texts, n - first.len()) {
                        let body: Vec<&str> = first.iter().chain(&rest).copied().collect();
                        let lines = positioned(&body);
                        let all: Vec<Vec<Edit>> =
                            tuples(&edits, n).into_iter().filter(|e| t || n < 3 || e.iter().filter(|e| **e != Keep).count() <= 1).collect();
                        for a in &all {
                            for b in &all {
                                let s = [(a.clone(), Save::InPlace), (b.clone(), Save::InPlace)];
                                c.case(|| describe(&body, &s), || history(c, &lines, &s));
                                if n > 2 || (n == 2 && !t) {
                                    continue;
                                }
                                for d in &all {
                                    let s = [(a.clone(), Save::InPlace), (b.clone(), Save::InPlace), (d.clone(), Save::InPlace)];
                                    c.case(|| describe(&body, &s), || history(c, &lines, &s));
                                }
                            }
                        }
                    }
                }),
            });
        }
    }
    // Ways of saving.
    let saves = [Save::InPlace, Save::ByRename, Save::NoFinalNewline, Save::Crlf, Save::Shorter, Save::Longer, Save::LongerStart];
    for save in saves {
        u.push(Unit {
            label: format!("save-{save:?}"),
            run: Box::new(move |c| {
                for n in 1..=3 {
                    for body in tuples(&texts, n) {
                        let lines = positioned(&body);
                        for e in tuples(&[Keep, Text("más"), Wipe], n) {
                            // A last line of nothing at all, with no newline, is no line.
                            if save == Save::NoFinalNewline && e[n - 1] == Wipe {
                                continue;
                            }
                            let s = [(e, save)];
                            c.case(|| describe(&body, &s), || history(c, &lines, &s));
                        }
                    }
                }
            }),
        });
    }
    // Odd texts, as old and as new ones, alone and as context of each other.
    let odd: &'static [&'static str] = &[
        "null", "~", "true", "1", "1.5", "- a", "a: b", "a #b", "#b", "'q'", "\"q\"", "it's", "„nyitott", "zárt”", "„a” és „b”", "{a", "[b]", "&a", "*a", "!a", "|", ">", "%a", "@a", "`a", "\\n",
        "<BOLD", "<b>", "(1) a", "0 a", "----", "...", "12. §", "a\u{a0}b", "\u{feff}z", "z\u{2028}w", "a\u{85}b", "a\tb", "é", "\u{1F600}", "5", "0000000000",
    ];
    for &a in odd {
        u.push(Unit {
            label: format!("odd-{a:?}"),
            run: Box::new(move |c| {
                for &b in odd {
                    let body = [a, b, a, "alma"];
                    let lines = positioned(&body);
                    let plans = [
                        vec![Keep, Keep, Text("x"), Keep],
                        vec![Keep, Text("x"), Keep, Keep],
                        vec![Keep, Keep, Bold, Bold],
                        vec![Keep, Wipe, Wipe, Keep],
                        vec![Keep, Keep, Keep, Text(b)],
                        vec![Keep, Keep, Keep, BoldText(b)],
                    ];
                    for e in plans {
                        let s = [(e, Save::InPlace), (vec![Keep, Keep, Keep, BoldAfter], Save::InPlace)];
                        c.case(|| describe(&body, &s), || history(c, &lines, &s));
                    }
                }
                for n in 0..=5 {
                    let body = [a, "alma"];
                    for e in [[Cut(n), Keep], [Keep, Cut(n)], [Spaces, Cut(n)], [Cut(n), Cut(n)], [Spaces, Spaces], [BoldAfter, BoldText("x  y")]] {
                        let s = [(e.to_vec(), Save::InPlace)];
                        c.case(|| describe(&body, &s), || history(c, &positioned(&body), &s));
                    }
                }
            }),
        });
    }
    // Long repetitions: more lines of context than are ever looked at.
    u.push(Unit {
        label: "repeating".into(),
        run: Box::new(move |c| {
            for period in [1, 2, 3] {
                for n in 1..=if t { 30 } else { 26 } {
                    let body: Vec<&str> = (0..n).map(|i| ["a", "b", "c"][i % period]).collect();
                    for at in 0..n {
                        for e in [Text("x"), Wipe, Bold] {
                            let mut plan = vec![Keep; n];
                            plan[at] = e;
                            let s = [(plan, Save::InPlace)];
                            c.case(|| describe(&body, &s), || history(c, &positioned(&body), &s));
                        }
                    }
                }
            }
        }),
    });
    // Stored fixups that cannot be read, and editors that cannot be run.
    u.push(Unit {
        label: "broken".into(),
        run: Box::new(move |c| {
            for stored in ["x", "- 1", "{", "- old: a", "- {old: a, new: b, set_bold: 3}", "\u{0}"] {
                c.case(
                    || format!("the stored fixups are {stored:?}"),
                    || {
                        c.validated();
                        c.steps(1);
                        let act = act_of(positioned(&["alma", "körte"]));
                        let path = fixups_path(act.identifier);
                        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
                        std::fs::write(&path, stored).unwrap();
                        let plan = serde_json::json!({"save": "InPlace", "edits": [["text", "x"], ["keep", ""]]});
                        let r = DESK.with(|d| {
                            std::fs::write(d.dir.join("plan"), plan.to_string()).unwrap();
                            fixup_editor::run_fixup_editor(&act, &d.editor)
                        });
                        let now = std::fs::read(&path).unwrap();
                        std::fs::remove_file(&path).unwrap();
                        check!(r.is_err(), "unreadable fixups were taken for fixups");
                        check!(now == stored.as_bytes(), "unreadable fixups were overwritten");
                        Ok(())
                    },
                );
            }
            c.case(
                || "an editor that does not exist".into(),
                || {
                    c.validated();
                    c.steps(1);
                    let act = act_of(positioned(&["alma"]));
                    check!(fixup_editor::run_fixup_editor(&act, "/nonexistent/editor").is_err(), "the missing editor was not noticed");
                    check!(!fixups_path(act.identifier).exists(), "fixups were stored");
                    Ok(())
                },
            );
        }),
    });
    u
}
