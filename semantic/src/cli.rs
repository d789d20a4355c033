//! C34: the program gives what it was asked for, and says so if it cannot.
use std::{
    collections::{BTreeMap, BTreeSet},
    io::Write,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{Arc, OnceLock},
};

use hun_law::{
    fixups::{Fixup, Fixups},
    identifier::ActIdentifier,
    output::{CliOutput, OutputFormat},
    parser::{
        mk_act_section::{parse_mk_pages_into_acts, ActRawText},
        pdf::{parse_pdf, CropBox},
        structure::parse_act_structure,
    },
};

use crate::{
    check,
    core::{Ctx, Tier, Unit},
    scratch::{scratch, Dir},
    typeset::{self, gap, row, Row, Sheet},
};

// ---- The gazette ----------------------------------------------------------------------------

type Id = (i16, i32);
type No = (i64, i64);

const fn id(i: Id) -> ActIdentifier {
    ActIdentifier { year: i.0, number: i.1 as _ }
}

/// Acts by the issue they are in; the bodies of the acts
const ISSUES: &[(No, &[(Id, &str, &[&str])])] = &[
    (
        (2013, 31),
        &[
            ((2013, 1), "2013. évi I. törvény", &["Az Országgyűlés a következő törvényt alkotja:", "1. § (1) Alma a Btk. 5. §-a szerint.", "(2) Körte, és nagyon-nagyon hosszú szöveg is van itt.", "", "2. § Dió."]),
            (
                (2013, 2),
                "2013. évi II. törvény",
                &[
                    "1. § A csodákról szóló 2012. évi C. törvény (a továbbiakban: Btk.) 5. § (2) bekezdése helyébe a",
                    "következő rendelkezés lép:",
                    "„(2) Az új szöveg.”",
                    "2. § Hatályát veszti a Btk. 6. §-a.",
                ],
            ),
        ],
    ),
    (
        (2013, 32),
        &[
            // Fails from the structure on
            ((2012, 7), "2012. évi VII. törvény", &["Nincs benne egy paragrafus sem.", "Ez sem az.", "Sem ez."]),
            ((2012, 8), "2012. évi VIII. törvény", &["1. § Alma.", "2. § Dió.", "3. § Barack."]),
        ],
    ),
    // Fails at the semantic step only
    ((2013, 33), &[((2011, 3), "2011. évi III. törvény", &["1. § Hatályát veszti a 2012. évi C. törvény 27. § címe.", "2. § Dió.", "3. § Barack."])]),
    // No PDF file at all, nothing in the cache, only a cover page
    ((2013, 34), &[]),
    ((2013, 35), &[]),
    ((2013, 36), &[]),
    // No acts in it
    ((2013, 37), &[]),
];
const CSV: &[(Id, No)] = &[
    ((2013, 1), (2013, 31)),
    ((2013, 2), (2013, 31)),
    ((2012, 7), (2013, 32)),
    ((2012, 8), (2013, 32)),
    ((2011, 3), (2013, 33)),
    ((2013, 10), (2013, 34)),
    ((2013, 11), (2013, 35)),
    ((2013, 12), (2013, 36)),
    ((2013, 13), (2013, 37)),
    ((2013, 9), (2013, 31)),
];

fn sheet(rows: Vec<Row>) -> Sheet {
    Sheet { header: "2101 M A G Y A R K Ö Z L Ö N Y • 2013. évi 31. szám".into(), rows }
}

fn issue(acts: &[(Id, &str, &[&str])], pages: usize) -> Vec<u8> {
    let mut sheets = vec![Sheet {
        header: String::new(),
        rows: vec![
            row(60.0, "MAGYAR KÖZLÖNY 31. szám", true),
            gap(),
            row(60.0, "MAGYARORSZÁG HIVATALOS LAPJA", false),
            row(60.0, "2013. április 5., péntek", false),
        ],
    }];
    let mut rows = vec![row(60.0, "II. Törvények", true)];
    for (_, head, body) in acts {
        rows.extend([gap(), row(220.0, head, true), row(200.0, "a vizsgálatról*", true), gap()]);
        for (i, l) in body.iter().enumerate() {
            rows.push(if l.is_empty() { gap() } else { row(if l.starts_with('(') { 85.0 } else { 60.0 }, l, false) });
            if i == 1 {
                sheets.push(sheet(std::mem::take(&mut rows)));
            }
        }
        rows.extend([
            gap(),
            row(80.0, "Áder János s. k.,               Kövér László s. k.,", false),
            row(80.0, "köztársasági elnök            az Országgyűlés elnöke", false),
        ]);
    }
    sheets.push(sheet(rows));
    sheets.truncate(pages);
    typeset::pdf(&sheets, 0)
}

struct World {
    root: PathBuf,
    files: BTreeMap<No, Option<Vec<u8>>>,
}

fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let root = scratch().join("world");
        let mut files = BTreeMap::new();
        for (no, acts) in ISSUES {
            files.insert(
                *no,
                match no.1 {
                    34 => Some(b"<html>404</html>".to_vec()),
                    35 => None,
                    36 => Some(issue(acts, 1)),
                    _ => Some(issue(acts, 99)),
                },
            );
        }
        build(&root, &files);
        World { root, files }
    })
}

fn build(root: &Path, files: &BTreeMap<No, Option<Vec<u8>>>) {
    std::fs::create_dir_all(root.join("data/fixups")).unwrap();
    let mut csv = "mk_issue,act,title\n".to_string();
    for (n, (a, i)) in CSV.iter().enumerate() {
        csv += &format!("{}/{},{},\"Cím, {n}\"\n", i.0, i.1, id(*a));
    }
    std::fs::write(root.join("data/act_to_mk_issue.csv"), csv).unwrap();
    for (no, bytes) in files {
        if let Some(b) = bytes {
            let d = root.join(format!("cache/MK/{}", no.0));
            std::fs::create_dir_all(&d).unwrap();
            std::fs::write(d.join(format!("{}.pdf", no.1)), b).unwrap();
        }
    }
}

// ---- What is asked, and what should come of it ------------------------------------------------

const STEPS: &[&str] = &["pdf-lines", "act-lines", "structure", "semantic"];
const FORMATS: &[(&str, OutputFormat, &str)] = &[
    ("plain", OutputFormat::Plain, "txt"),
    ("test-plain", OutputFormat::TestPlain, "txt"),
    ("colored", OutputFormat::Colored, "txt"),
    ("json", OutputFormat::Json, "json"),
    ("yaml", OutputFormat::Yaml, "yml"),
];

#[derive(Clone)]
struct Question {
    ids: Vec<String>,
    mk: bool,
    step: usize,
    /// None: not given
    format: Option<usize>,
    width: Option<usize>,
    /// 0: standard output, 1: a folder, 2: a folder with old files in it, 3: a folder that is not there
    target: usize,
}

fn show(q: &Question) -> String {
    format!(
        "{:?}{} -p {} -t {} -w {:?} to {}",
        q.ids,
        if q.mk { " --mk" } else { "" },
        STEPS[q.step],
        q.format.map_or("-", |f| FORMATS[f].0),
        q.width,
        ["standard output", "a folder", "a folder with old files", "a missing folder"][q.target]
    )
}

#[derive(Debug, Default)]
struct Answer {
    ok: bool,
    /// Names and contents, in order. None: failed.
    parts: Vec<(String, Option<String>)>,
}

fn acts_of(bytes: &[u8]) -> anyhow::Result<Vec<ActRawText>> {
    parse_mk_pages_into_acts(&pages_of(bytes)?)
}
fn pages_of(bytes: &[u8]) -> anyhow::Result<Vec<hun_law::parser::pdf::PageOfLines>> {
    // The text of a page begins an inch and a quarter from the top of an A4 sheet.
    parse_pdf(bytes, CropBox { top: 752.0, bottom: 0.0, left: 0.0, right: 1000.0 })
}

fn render(x: impl CliOutput, width: usize, format: OutputFormat) -> anyhow::Result<String> {
    let mut v = vec![];
    x.cli_output(width, format, &mut v)?;
    Ok(String::from_utf8(v).unwrap())
}

fn act_text(mut raw: ActRawText, fixups: &[Fixup], step: usize, width: usize, format: OutputFormat) -> anyhow::Result<String> {
    for f in fixups {
        f.apply(&mut raw.body)?;
    }
    raw.remove_double_empty_lines();
    if step == 1 {
        return render(raw, width, format);
    }
    let mut act = parse_act_structure(&raw)?;
    if step == 3 {
        act.add_semantic_info()?;
        act.convert_block_amendments()?;
    }
    render(act, width, format)
}

fn answer(q: &Question, files: &BTreeMap<No, Option<Vec<u8>>>, fixups: &BTreeMap<Id, Vec<Fixup>>) -> Answer {
    let width = q.width.unwrap_or(105);
    let mut format = q.format.map_or(OutputFormat::Yaml, |f| FORMATS[f].1);
    if q.target == 0 && format == OutputFormat::Plain {
        format = OutputFormat::Colored;
    }
    let no = Answer::default();
    let mut issues: Vec<No> = vec![];
    let mut wanted: Vec<Id> = vec![];
    for i in &q.ids {
        if q.mk {
            let Some((y, n)) = i.split_once('/') else { return no };
            let (Ok(y), Ok(n)) = (y.parse(), n.parse()) else { return no };
            issues.push((y, n));
        } else {
            let Ok(a) = i.parse::<ActIdentifier>() else { return no };
            let Some(c) = CSV.iter().find(|c| id(c.0) == a) else { return no };
            wanted.push(c.0);
            issues.push(c.1);
        }
    }
    if !q.mk {
        issues = issues.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
    }
    let mut out = Answer { ok: true, parts: vec![] };
    let mut missing: BTreeSet<Id> = wanted.iter().copied().collect();
    for i in issues {
        let Some(bytes) = files.get(&i).and_then(|b| b.as_ref()) else {
            out.ok = false;
            continue;
        };
        if q.step == 0 {
            missing.clear();
            match pages_of(bytes).and_then(|p| render(p, width, format)) {
                Ok(t) => out.parts.push((format!("mk_{}_{}", i.0, i.1), Some(t))),
                Err(_) => out.ok = false,
            }
            continue;
        }
        let Ok(acts) = acts_of(bytes) else {
            out.ok = false;
            continue;
        };
        for a in acts {
            let k: Id = (a.identifier.year, a.identifier.number as i32);
            if !q.mk && !wanted.contains(&k) {
                continue;
            }
            missing.remove(&k);
            let name = a.identifier.to_string();
            let text = act_text(a, fixups.get(&k).map_or(&[], |v| v), q.step, width, format).ok();
            out.ok &= text.is_some();
            out.parts.push((name, text));
        }
    }
    out.ok &= missing.is_empty();
    if q.target == 3 {
        // Nowhere to put them
        out.ok &= out.parts.is_empty();
        out.parts.clear();
    }
    out
}

// ---- Running it ------------------------------------------------------------------------------

fn program(cwd: &Path) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap().with_file_name("hun_law_program"));
    c.current_dir(cwd)
        .env_clear()
        .env("PATH", "/usr/bin:/bin")
        .env("TMPDIR", scratch().join("tmp"))
        // Nothing listens there.
        .env("http_proxy", "http://127.0.0.1:1")
        .env("HTTP_PROXY", "http://127.0.0.1:1")
        .stderr(Stdio::piped())
        .stdout(Stdio::piped());
    c
}

fn args(c: &mut Command, q: &Question, out: &Path) {
    c.args(["-p", STEPS[q.step]]);
    if let Some(f) = q.format {
        c.args(["-t", FORMATS[f].0]);
    }
    if let Some(w) = q.width {
        c.args(["-w", &w.to_string()]);
    }
    if q.mk {
        c.arg("--mk");
    }
    if q.target > 0 {
        c.arg("-o").arg(out);
    }
    c.arg("--").args(&q.ids);
}

fn judge_output(q: &Question, want: &Answer, status: std::process::ExitStatus, stdout: &str, stderr: &str, out: &Path) -> Result<(), String> {
    check!(status.code().is_some_and(|c| c != 101), "the program ends with {status}: {stderr}");
    check!(
        status.success() == want.ok,
        "the program reports {}, though {}; it said {stderr:?}",
        if status.success() { "success" } else { "failure" },
        if want.ok { "everything is there" } else { "not everything asked for can be given" }
    );
    if q.target == 0 {
        // The names of what failed may be there.
        let mut rest = stdout;
        for (name, text) in &want.parts {
            let head = format!("------ {name} ------\n");
            match (rest.strip_prefix(&head), text) {
                (Some(r), Some(t)) => {
                    let Some(r) = r.strip_prefix(t.as_str()) else { return Err(format!("for {name} it printed {r:?} instead of {t:?}")) };
                    rest = r;
                }
                (Some(r), None) => rest = r,
                (None, None) => {}
                (None, Some(_)) => return Err(format!("it printed {rest:?} instead of {name}")),
            }
        }
        check!(rest.is_empty(), "it also printed {rest:?}");
    } else {
        check!(stdout.is_empty(), "it printed {stdout:?}");
        let ext = FORMATS[q.format.unwrap_or(4)].2;
        let mut expected: BTreeMap<String, Option<&String>> = BTreeMap::new();
        for (name, text) in &want.parts {
            expected.insert(format!("{name}.{ext}"), text.as_ref());
        }
        let mut found = BTreeSet::new();
        for e in std::fs::read_dir(out).into_iter().flatten() {
            let e = e.unwrap();
            let name = e.file_name().into_string().unwrap();
            let text = std::fs::read_to_string(e.path()).unwrap();
            match expected.get(&name) {
                Some(Some(t)) => check!(text == **t, "{name} contains {text:?} instead of {t:?}"),
                Some(None) => check!(text.is_empty(), "{name} contains {text:?}, though it failed"),
                None => check!(q.target == 2 && text == OLD, "there is also {name}: {text:?}"),
            }
            found.insert(name);
        }
        for (name, t) in expected {
            check!(t.is_none() || found.contains(&name), "there is no {name}");
        }
    }
    Ok(())
}

const OLD: &str = "Régi szöveg, ami nem maradhat itt, ha új van helyette, akármilyen hosszú is volt: ................................................................................................";

fn ask(c: &Ctx, q: &Question, w: &Path, files: &BTreeMap<No, Option<Vec<u8>>>, fixups: &BTreeMap<Id, Vec<Fixup>>, what: &str) {
    c.case(
        || format!("{}{what}", show(q)),
        || {
            c.steps(1);
            c.validated();
            let want = answer(q, files, fixups);
            c.outcome(if want.ok {
                "all given"
            } else if want.parts.is_empty() {
                "nothing given"
            } else {
                "part given"
            });
            let dir = Dir::new();
            let out = dir.0.join("out");
            if q.target == 1 || q.target == 2 {
                std::fs::create_dir(&out).unwrap();
            }
            if q.target == 2 {
                let ext = FORMATS[q.format.unwrap_or(4)].2;
                for (a, i) in CSV {
                    for name in [id(*a).to_string(), format!("mk_{}_{}", i.0, i.1)] {
                        std::fs::write(out.join(format!("{name}.{ext}")), OLD).unwrap();
                    }
                }
            }
            let mut cmd = program(w);
            args(&mut cmd, q, &out);
            let r = cmd.stdin(Stdio::null()).output().map_err(|e| format!("cannot be run: {e}"))?;
            judge_output(q, &want, r.status, &String::from_utf8_lossy(&r.stdout), &String::from_utf8_lossy(&r.stderr), &out)
        },
    );
}

// ---- Interactive sessions -----------------------------------------------------------------------

/// An act that does not parse until its first article is repaired
const BROKEN: &[&str] = &["Barack.", "", "1x § Szilva.", "", "Barack."];
const REPAIRABLE: Id = (2012, 7);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Edit {
    Repair,
    Nothing,
    /// A line more: refused
    Add,
    /// Another text in the last of two equal lines
    Other,
    /// Clears the line between the empty ones; what was there is no article any more
    Clear,
}
const EDITS: &[Edit] = &[Edit::Repair, Edit::Nothing, Edit::Add, Edit::Other, Edit::Clear];
const ANSWERS: &[&str] = &["y", "", "n", "Yes", "no"];

/// One file for all the sessions, written before any process is started: a file just written cannot
/// be executed if another thread forked in the meantime.
fn editor() -> &'static Path {
    static E: OnceLock<PathBuf> = OnceLock::new();
    E.get_or_init(|| {
        let p = scratch().join("editor");
        std::fs::write(
            &p,
            "#!/bin/sh
n=$(cat \"$SESSION/n\" 2>/dev/null || echo 0)
n=$((n+1))
echo $n > \"$SESSION/n\"
case $(sed -n ${n}p \"$SESSION/plan\") in
Repair) sed -i 's/1x §/1. §/' \"$1\";;
Nothing) :;;
Add) echo '   0 Több' >> \"$1\";;
Other) sed -i '$s/Barack/Ribizli/' \"$1\";;
Clear) sed -i 's/^.*Szilva.*$//' \"$1\";;
*) echo more > \"$SESSION/more\"; exit 1;;
esac
",
        )
        .unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        p
    })
}

/// What a session does to the lines, and whether it ends well
fn session(lines: &mut Vec<String>, answers: &[&str], edits: &[Edit], force: bool) -> bool {
    let mut answers = answers.iter();
    let mut edits = edits.iter();
    loop {
        let parses = lines.iter().any(|l| l.starts_with("1. §"));
        if parses && !force {
            return true;
        }
        // The end of the input is not a consent.
        let Some(a) = answers.next() else { return false };
        if a.starts_with(['n', 'N']) {
            return false;
        }
        match edits.next() {
            Some(Edit::Repair) => lines.iter_mut().for_each(|l| *l = l.replace("1x §", "1. §")),
            Some(Edit::Other) => lines.iter_mut().last().into_iter().for_each(|l| *l = l.replace("Barack", "Ribizli")),
            Some(Edit::Clear) => lines.iter_mut().filter(|l| l.contains("Szilva")).for_each(|l| l.clear()),
            Some(Edit::Nothing) => {}
            Some(Edit::Add) | None => return false,
        }
    }
}

fn interactive(c: &Ctx, answers: &[&str], edits: &[Edit], force: bool, target: usize) {
    c.case(
        || format!("answers {answers:?}, edits {edits:?}{}, {}", if force { ", forced" } else { "" }, ["standard output", "a folder"][target]),
        || {
            c.steps(2);
            c.validated();
            let dir = Dir::new();
            let w = dir.0.join("world");
            let out = dir.0.join("out");
            std::fs::create_dir(&out).unwrap();
            let bytes = issue(&[(REPAIRABLE, "2012. évi VII. törvény", BROKEN)], 99);
            let files: BTreeMap<No, Option<Vec<u8>>> = [((2013, 32), Some(bytes.clone()))].into();
            build(&w, &files);
            let mut lines: Vec<String> = acts_of(&bytes).unwrap()[0].body.iter().map(|l| l.content().to_string()).collect();
            let good = session(&mut lines, answers, edits, force);
            c.outcome(if good { "repaired" } else { "not repaired" });
            let mut cmd = program(&w);
            std::fs::write(dir.0.join("plan"), edits.iter().map(|e| format!("{e:?}\n")).collect::<String>()).unwrap();
            cmd.arg("-i").arg("--editor").arg(editor()).env("SESSION", &dir.0);
            if force {
                cmd.arg("--force-fixup-editor");
            }
            let q = Question { ids: vec!["2012/7".into()], mk: false, step: 3, format: Some(3), width: None, target };
            args(&mut cmd, &q, &out);
            let mut child = cmd.stdin(Stdio::piped()).spawn().map_err(|e| format!("cannot be run: {e}"))?;
            let text: String = answers.iter().map(|a| format!("{a}\n")).collect();
            let _ = child.stdin.take().unwrap().write_all(text.as_bytes());
            let r = child.wait_with_output().unwrap();
            let stderr = String::from_utf8_lossy(&r.stderr);
            check!(!dir.0.join("more").exists(), "the editor was started although nobody consented");
            // What was edited is kept.
            let mut raw = acts_of(&bytes).unwrap().remove(0);
            Fixups::load_from(raw.identifier, w.join("data/fixups"))
                .and_then(|f| f.apply(&mut raw.body))
                .map_err(|e| format!("what was edited cannot be applied: {e:#}; it said {stderr}"))?;
            let mut kept: Vec<String> = raw.body.iter().map(|l| l.content().to_string()).collect();
            kept.dedup_by(|a, b| a.is_empty() && b.is_empty());
            let mut want = lines.clone();
            want.dedup_by(|a, b| a.is_empty() && b.is_empty());
            check!(kept == want, "kept {kept:?}, edited were {want:?}");
            raw.remove_double_empty_lines();
            let text = act_text(raw, &[], 3, 105, OutputFormat::Json).ok();
            let printed = if good || force { text } else { None };
            let a = Answer { ok: good, parts: vec![(id(REPAIRABLE).to_string(), printed.clone())] };
            if target == 0 && force {
                // Each attempt is printed.
                check!(!r.status.success(), "a forced session reports success");
                let all = String::from_utf8_lossy(&r.stdout);
                check!(printed.is_none() || all.ends_with(printed.as_ref().unwrap()), "it printed {all:?}, the last attempt gives {printed:?}");
                return Ok(());
            }
            judge_session(&q, &a, r.status, &String::from_utf8_lossy(&r.stdout), &stderr, &out)
        },
    );
}

fn judge_session(q: &Question, want: &Answer, status: std::process::ExitStatus, stdout: &str, stderr: &str, out: &Path) -> Result<(), String> {
    if q.target == 0 {
        // The name may be printed again for each attempt.
        let head = format!("------ {} ------\n", want.parts[0].0);
        let mut rest = stdout;
        while let Some(r) = rest.strip_prefix(&head) {
            rest = r;
        }
        return judge_output(q, want, status, &format!("{head}{rest}"), stderr, out);
    }
    judge_output(q, want, status, stdout, stderr, out)
}

// ---- The space -----------------------------------------------------------------------------------

fn lists(menu: &[&str], most: usize) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![];
    let mut last: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..most {
        last = last
            .iter()
            .flat_map(|l| menu.iter().map(move |m| l.iter().cloned().chain([m.to_string()]).collect::<Vec<_>>()))
            .collect();
        out.extend(last.clone());
    }
    out
}

const ACT_IDS: &[&str] = &["2013/1", "2013. évi II. törvény", "2012.7", "2012/8", "2011/3", "2013/10", "2013/11", "2013/12", "2013/13", "2013/9", "2099/1", "alma"];
const MK_IDS: &[&str] = &["2013/31", "2013/32", "2013/33", "2013/34", "2013/35", "2013/36", "2013/37", "31"];

pub fn units(tier: Tier) -> Vec<Unit<'static>> {
    let thorough = tier == Tier::Thorough;
    editor();
    let mut out: Vec<Unit> = vec![];
    let fx = |old: &str, new: &str, after: &[&str]| Fixup { after: after.iter().map(|s| s.to_string()).collect(), old: old.into(), new: new.into(), set_bold: false };
    // Which lists of ids are asked for in full
    for mk in [false, true] {
        let menu = if mk { MK_IDS } else { ACT_IDS };
        for ids in lists(menu, if thorough { 3 } else { 2 }) {
            out.push(Unit {
                label: format!("{}{ids:?}", if mk { "mk " } else { "" }),
                run: Box::new(move |c| {
                    let w = world();
                    let none = BTreeMap::new();
                    for step in 0..4 {
                        for format in [None, Some(0), Some(1), Some(2), Some(3)] {
                            for target in 0..4 {
                                let single = ids.len() == 1;
                                if !single && ((target > 1 && (format != Some(3) || step != 3)) || (format.is_some_and(|f| f < 3) && (ids.len() > 2 || step == 2))) {
                                    continue;
                                }
                                for width in [None, Some(30), Some(1)] {
                                    if width.is_some() && (!single || format.is_none() || format == Some(3) || target > 1) {
                                        continue;
                                    }
                                    ask(c, &Question { ids: ids.clone(), mk, step, format, width, target }, &w.root, &w.files, &none, "");
                                }
                            }
                        }
                    }
                }),
            });
        }
    }
    // Stored fixups: ones that apply, ones that do not
    let sets: Vec<(&str, BTreeMap<Id, Vec<Fixup>>)> = vec![
        ("a repair", [((2012, 7), vec![fx("Ez sem az.", "1. § De ez az.", &[])])].into()),
        ("a change", [((2013, 1), vec![fx("2. § Dió.", "2. § Mogyoró.", &[""])]), ((2012, 8), vec![fx("2. § Dió.", "", &["1. § Alma.", ""])])].into()),
        ("one that does not apply", [((2013, 1), vec![fx("3. § Dió.", "2. § Mogyoró.", &[])])].into()),
        ("one that spoils", [((2012, 8), vec![fx("1. § Alma.", "alma", &[]), fx("2. § Dió.", "dió", &[]), fx("3. § Barack.", "barack", &[])])].into()),
        ("of another act", [((2012, 1), vec![fx("2. § Dió.", "2. § Mogyoró.", &[])])].into()),
    ];
    for (name, set) in sets {
        let set = Arc::new(set);
        out.push(Unit {
            label: format!("fixups: {name}"),
            run: Box::new(move |c| {
                let dir = Dir::new();
                let w = dir.0.join("world");
                build(&w, &world().files);
                for (k, v) in set.iter() {
                    let mut f = Fixups::load_from(id(*k), w.join("data/fixups")).unwrap();
                    v.iter().for_each(|x| f.add(x.clone()));
                    f.save().unwrap();
                }
                for ids in lists(&["2013/1", "2013/2", "2012/7", "2012/8"], 2) {
                    for step in 0..4 {
                        for format in [None, Some(0), Some(3)] {
                            for target in 0..2 {
                                ask(c, &Question { ids: ids.clone(), mk: false, step, format, width: None, target }, &w, &world().files, &set, &format!(" with fixups: {name}"));
                            }
                        }
                    }
                }
            }),
        });
    }
    // Interactive sessions
    let depth = if thorough { 3 } else { 2 };
    let mut all: Vec<Vec<(&'static str, Edit)>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..depth {
        last = last
            .iter()
            .flat_map(|l| ANSWERS.iter().flat_map(move |a| EDITS.iter().map(move |e| l.iter().copied().chain([(*a, *e)]).collect::<Vec<_>>())))
            .collect();
        all.extend(last.clone());
    }
    for force in [false, true] {
        for chunk in all.chunks(40) {
            let chunk = chunk.to_vec();
            out.push(Unit {
                label: format!("sessions{} from {:?}", if force { " forced" } else { "" }, chunk[0]),
                run: Box::new(move |c| {
                    for s in &chunk {
                        let answers: Vec<&str> = s.iter().map(|x| x.0).collect();
                        let edits: Vec<Edit> = s.iter().map(|x| x.1).collect();
                        for target in 0..2 {
                            interactive(c, &answers, &edits, force, target);
                        }
                    }
                }),
            });
        }
    }
    out
}
