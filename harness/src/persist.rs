//! C21: stored fixups under crashes, faults and concurrency.  C22: the same for the gazette cache.
use crate::{
    check,
    core::{Ctx, Tier, Unit},
    scratch::{scratch, Dir},
    tracer::{self, Act, End, Event, Kind, Op, Proc},
};
use hun_law::{
    fixups::{Fixup, Fixups},
    identifier::ActIdentifier,
    mk_downloader::{download_mk_issue, MkIssue},
};
use libc::{EACCES, EINTR, EIO, ENOSPC};
use std::{
    io::{Read, Write},
    net::{TcpListener, TcpStream},
    path::Path,
    sync::{Arc, Mutex},
    time::Duration,
};

// ---------------------------------------------------------------- the traced processes

const ACT: ActIdentifier = ActIdentifier { year: 2012, number: 1 };

/// The fixup of this number; the later ones are long.
fn fixup(n: u32) -> Fixup {
    Fixup {
        after: (0..n % 3).map(|i| format!("előtte {i}")).collect(),
        old: format!("régi {n} {}", "szöveg ".repeat((n as usize % 4) * 300)),
        new: format!("új: {n}"),
        set_bold: n % 2 == 1,
    }
}

fn load(dir: &Path) -> Result<Vec<Fixup>, String> {
    Fixups::load_from(ACT, dir.join("data")).map(|f| f.into()).map_err(|e| format!("{e:#}"))
}
fn save(dir: &Path, add: &[u32]) -> Result<(), String> {
    (|| {
        let mut f = Fixups::load_from(ACT, dir.join("data"))?;
        add.iter().for_each(|n| f.add(fixup(*n)));
        f.save()
    })()
    .map_err(|e: anyhow::Error| format!("{e:#}"))
}

fn hash(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{} bytes {h:016x}", b.len())
}

pub fn child_mode(args: &[String]) -> Option<i32> {
    if args.get(1)? != "--child" {
        return None;
    }
    // A process that waits forever ends by a signal.
    unsafe {
        libc::alarm(15);
    }
    let dir = Path::new(&args[3]);
    let text = match args[2].as_str() {
        "save" => {
            let add: Vec<u32> = args[4].split(',').map(|n| n.parse().unwrap()).collect();
            tracer::mark();
            let r = save(dir, &add);
            tracer::mark();
            r.map(|()| String::new())
        }
        "load" => {
            tracer::mark();
            let r = load(dir);
            tracer::mark();
            r.map(|f| serde_json::to_string(&f).unwrap())
        }
        "download" => {
            let issue: MkIssue = args[4].parse().unwrap();
            tracer::mark();
            let r = download_mk_issue(&issue, dir);
            tracer::mark();
            r.map(|b| hash(&b)).map_err(|e| format!("{e:#}"))
        }
        _ => return Some(3),
    };
    match text {
        Ok(s) => println!("ok {s}"),
        Err(e) => println!("error {e}"),
    }
    Some(0)
}

/// How a run ended: its own word, or that it was killed.
#[derive(Clone, Debug, PartialEq)]
enum Said {
    Ok(String),
    Error(String),
    Killed,
}

fn said(p: &mut Proc, end: End) -> Result<Said, String> {
    let out = p.output();
    match end {
        End::Killed(libc::SIGKILL) => Ok(Said::Killed),
        End::Killed(libc::SIGALRM) => Err("the process does not end".into()),
        End::Exit(0) if out.starts_with("ok") => Ok(Said::Ok(out[2..].trim().to_string())),
        End::Exit(0) if out.starts_with("error") => Ok(Said::Error(out[5..].trim().to_string())),
        End::Exit(101) => Err("the process panicked".into()),
        e => Err(format!("the process ended with {e:?}, saying {out:?}")),
    }
}

// ---------------------------------------------------------------- faults

/// From operation `.0` on; `Fail` with `sticky` also fails everything after it that needs space.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Fault {
    at: u64,
    act: Act,
    sticky: bool,
}

fn actions(op: &Op, all: bool) -> Vec<(Act, bool)> {
    let mut v = vec![(Act::Kill, false), (Act::Fail(EIO), false)];
    match op.kind {
        Kind::Write(n) => {
            v.extend([(Act::Fail(ENOSPC), false), (Act::Fail(ENOSPC), true), (Act::Fail(EINTR), false)]);
            let mut cut = vec![1, n / 2, n.saturating_sub(1)];
            cut.retain(|c| *c > 0 && *c < n);
            cut.dedup();
            v.extend(cut.iter().flat_map(|c| [(Act::ShortenKill(*c), false), (Act::Shorten(*c), false)]));
        }
        Kind::Open => v.extend([(Act::Fail(EACCES), false), (Act::Fail(ENOSPC), true), (Act::Fail(EINTR), false), (Act::KillAfter, false)]),
        Kind::Change => v.extend([(Act::Fail(EACCES), false), (Act::Fail(ENOSPC), true), (Act::KillAfter, false)]),
        Kind::Look => v.push((Act::Fail(EACCES), false)),
        Kind::Read => v.push((Act::Fail(EINTR), false)),
        Kind::Sync => v.push((Act::Fail(ENOSPC), false)),
    }
    if !all {
        v.retain(|a| matches!(a.0, Act::Kill | Act::ShortenKill(_) | Act::Fail(EIO | ENOSPC)));
    }
    v
}

fn run_with(p: &mut Proc, faults: &[Fault]) -> (End, Vec<Op>) {
    let mut ops = vec![];
    let mut full = false;
    let end = tracer::run(p, |n, op| {
        ops.push(op.clone());
        if let Some(f) = faults.iter().find(|f| f.at == n) {
            full |= f.sticky;
            return f.act;
        }
        match op.kind {
            Kind::Write(_) | Kind::Change if full => Act::Fail(ENOSPC),
            _ => Act::Go,
        }
    });
    (end, ops)
}

/// Whether the system only did what it may do at any time without anything being wrong.
fn harmless(f: &[Fault]) -> bool {
    f.iter().all(|f| matches!(f.act, Act::Shorten(_) | Act::Go))
}

fn show_faults(f: &[Fault], ops: &[Op]) -> String {
    if f.is_empty() {
        return "no fault".into();
    }
    f.iter()
        .map(|f| {
            let op = ops.get(f.at as usize).map_or("?".into(), |o| format!("{} {}", o.name, o.what));
            format!("{:?}{} at operation {} ({op})", f.act, if f.sticky { " and no space afterwards" } else { "" }, f.at)
        })
        .collect::<Vec<_>>()
        .join(", ")
}

// ---------------------------------------------------------------- schedules

/// One run of some processes; `plan` says who goes at each point, then whoever went last.
/// Gives who could go and who went.
fn scheduled(procs: &mut [Proc], plan: &[usize]) -> (Vec<(Vec<usize>, usize)>, Vec<End>, Vec<String>) {
    let mut ends: Vec<Option<End>> = vec![None; procs.len()];
    let mut at: Vec<Option<Op>> = vec![None; procs.len()];
    let mut log = vec![];
    for (i, p) in procs.iter_mut().enumerate() {
        match p.next() {
            Event::End(e) => ends[i] = Some(e),
            Event::Op(op) => at[i] = Some(op),
        }
    }
    let (mut points, mut last) = (vec![], 0);
    loop {
        let can: Vec<usize> = (0..procs.len()).filter(|i| ends[*i].is_none()).collect();
        if can.is_empty() {
            break;
        }
        let who = match plan.get(points.len()) {
            Some(w) if can.contains(w) => *w,
            _ if can.contains(&last) => last,
            _ => can[0],
        };
        let op = at[who].take().unwrap();
        log.push(format!("{who}: {} {}", op.name, op.what));
        points.push((can, who));
        last = who;
        procs[who].act(Act::Go);
        match procs[who].next() {
            Event::End(e) => ends[who] = Some(e),
            Event::Op(op) => at[who] = Some(op),
        }
    }
    (points, ends.into_iter().map(|e| e.unwrap()).collect(), log)
}

/// The next plans after a run: every other choice after `from`, within the preemption bound.
fn branches(points: &[(Vec<usize>, usize)], from: usize, bound: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for k in from..points.len() {
        for w in &points[k].0 {
            if *w == points[k].1 {
                continue;
            }
            let mut plan: Vec<usize> = points[..k].iter().map(|p| p.1).collect();
            plan.push(*w);
            let preemptions = (1..plan.len()).filter(|i| plan[*i] != plan[i - 1] && points[*i].0.contains(&plan[i - 1])).count();
            if preemptions <= bound {
                out.push(plan);
            }
        }
    }
    out
}

fn schedules(start: impl Fn() -> (Dir, Vec<Proc>), bound: usize, first: Option<usize>, mut judge: impl FnMut(&Dir, Vec<Result<Said, String>>, &[usize], &[String])) {
    let mut todo = vec![(vec![], 0)];
    if let Some(f) = first {
        todo = vec![(vec![f], 1)];
    }
    while let Some((plan, from)) = todo.pop() {
        let (dir, mut procs) = start();
        let (points, ends, log) = scheduled(&mut procs, &plan);
        for p in branches(&points, from, bound) {
            let n = p.len();
            todo.push((p, n));
        }
        let all: Vec<usize> = points.iter().map(|p| p.1).collect();
        let s = procs.iter_mut().zip(ends).map(|(p, e)| said(p, e)).collect();
        judge(&dir, s, &all, &log);
    }
}

// ---------------------------------------------------------------- C21

fn prepared(before: Option<&[u32]>) -> Dir {
    let d = Dir::new();
    if let Some(b) = before {
        save(&d.0, b).unwrap();
    }
    d
}
fn list(n: &[u32]) -> Vec<Fixup> {
    n.iter().map(|n| fixup(*n)).collect()
}

/// After everything: a sound list, and all works again.
fn sound(dir: &Dir, allowed: &[Vec<Fixup>]) -> Result<Vec<Fixup>, String> {
    let now = load(&dir.0).map_err(|e| format!("afterwards the stored fixups cannot be loaded: {e}"))?;
    check!(allowed.contains(&now), "afterwards {} fixups are stored: {:.300}", now.len(), format!("{now:?}"));
    save(&dir.0, &[50]).map_err(|e| format!("afterwards fixups cannot be saved: {e}"))?;
    let mut want = now.clone();
    want.push(fixup(50));
    check!(load(&dir.0)? == want, "afterwards the next fixup is not added to those stored");
    Ok(now)
}

fn traced(dir: &Dir, args: &[&str], env: &[(&str, &str)]) -> Proc {
    let mut a = vec!["--child"];
    a.extend(args);
    Proc::start(&a, env, dir.text())
}

type Before = Option<&'static [u32]>;

fn save_with(c: &Ctx, before: Before, add: &str, faults: &[Fault], then: Option<(&str, &[Fault])>) -> Vec<Op> {
    let dir = prepared(before);
    let adds: Vec<u32> = add.split(',').map(|n| n.parse().unwrap()).collect();
    let old = list(before.unwrap_or(&[]));
    let mut new = old.clone();
    new.extend(list(&adds));
    let mut p = traced(&dir, &["save", dir.text(), add], &[]);
    let (end, mut ops) = run_with(&mut p, faults);
    let first = said(&mut p, end);
    let mut second = None;
    if let Some((add, faults)) = then {
        let mid = load(&dir.0);
        let mut p = traced(&dir, &["save", dir.text(), add], &[]);
        let (end, o) = run_with(&mut p, faults);
        second = Some((mid, add.parse::<u32>().unwrap(), said(&mut p, end)));
        ops = o;
    }
    c.steps(ops.len() as u64);
    c.case(
        || {
            let then = then.map_or(String::new(), |t| format!("; then adding {} with {}", t.0, show_faults(t.1, &ops)));
            format!("stored {before:?}, adding {add} with {}{then}", show_faults(faults, &ops))
        },
        || {
            c.validated();
            let first = first.clone()?;
            match &first {
                Said::Ok(_) => c.outcome("saved"),
                Said::Error(e) => {
                    check!(!harmless(faults), "saving is refused: {e}");
                    c.outcome("refused");
                }
                Said::Killed => c.outcome("killed"),
            }
            let allowed = if matches!(first, Said::Ok(_)) { vec![new.clone()] } else { vec![old.clone(), new.clone()] };
            match &second {
                None => drop(sound(&dir, &allowed)?),
                Some((mid, add, second)) => {
                    let mid = mid.clone().map_err(|e| format!("after the first saving the stored fixups cannot be loaded: {e}"))?;
                    check!(allowed.contains(&mid), "after the first saving {} fixups are stored", mid.len());
                    let mut next = mid.clone();
                    next.push(fixup(*add));
                    let allowed = if matches!(second.clone()?, Said::Ok(_)) { vec![next] } else { vec![mid, next] };
                    sound(&dir, &allowed)?;
                }
            }
            Ok(())
        },
    );
    ops
}

fn faults_of(ops: &[Op], from: usize, all: bool) -> Vec<Fault> {
    ops.iter()
        .enumerate()
        .skip(from)
        .flat_map(|(k, op)| actions(op, all).into_iter().map(move |(act, sticky)| Fault { at: k as u64, act, sticky }))
        .collect()
}

/// The operations of one fault-free (or given) run, outside of all cases.
fn probe(before: Before, add: &str, faults: &[Fault]) -> Vec<Op> {
    let dir = prepared(before);
    let mut p = traced(&dir, &["save", dir.text(), add], &[]);
    run_with(&mut p, faults).1
}

fn save_ok(c: &Ctx, r: &Result<Said, String>, what: &str) -> Result<(), String> {
    c.validated();
    match r.clone()? {
        Said::Ok(_) => Ok(()),
        other => Err(format!("{what}: {other:?}")),
    }
}

pub fn c21(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    scratch();
    let mut u: Vec<Unit> = vec![];
    let starts: [Before; 4] = [None, Some(&[]), Some(&[4]), Some(&[1, 3, 2])];
    for before in starts {
        for add in ["5", "7", "8,9,3"] {
            u.push(Unit {
                label: format!("one-{before:?}-{add}"),
                run: Box::new(move |c| {
                    let ops = save_with(c, before, add, &[], None);
                    for f in faults_of(&ops, 0, true) {
                        save_with(c, before, add, &[f], None);
                    }
                }),
            });
            // A second fault in the same run.
            let n = 4;
            for part in 0..n {
                u.push(Unit {
                    label: format!("two-{before:?}-{add}-{part}"),
                    run: Box::new(move |c| {
                        let ops = probe(before, add, &[]);
                        for f in faults_of(&ops, 0, true).into_iter().skip(part).step_by(n) {
                            if matches!(f.act, Act::Kill | Act::ShortenKill(_) | Act::KillAfter) || f.sticky {
                                continue;
                            }
                            let ops = probe(before, add, &[f]);
                            for g in faults_of(&ops, f.at as usize + 1, t) {
                                save_with(c, before, add, &[f, g], None);
                            }
                        }
                    }),
                });
            }
            // And a history of two faulty runs.
            for part in 0..n {
                u.push(Unit {
                    label: format!("history-{before:?}-{add}-{part}"),
                    run: Box::new(move |c| {
                        let ops = probe(before, add, &[]);
                        for f in faults_of(&ops, 0, t).into_iter().skip(part).step_by(n) {
                            let ops = save_with(c, before, add, &[f], Some(("6", &[])));
                            for g in faults_of(&ops, 0, t) {
                                save_with(c, before, add, &[f], Some(("6", &[g])));
                            }
                        }
                    }),
                });
            }
        }
        // Loading with faults.
        u.push(Unit {
            label: format!("load-{before:?}"),
            run: Box::new(move |c| {
                let want = list(before.unwrap_or(&[]));
                let go = |faults: &[Fault]| {
                    let dir = prepared(before);
                    let mut p = traced(&dir, &["load", dir.text()], &[]);
                    let (end, ops) = run_with(&mut p, faults);
                    let r = said(&mut p, end);
                    c.steps(ops.len() as u64);
                    c.case(
                        || format!("stored {before:?}, loading with {}", show_faults(faults, &ops)),
                        || {
                            c.validated();
                            match r.clone()? {
                                Said::Ok(s) => {
                                    let got: Vec<Fixup> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
                                    check!(got == want, "{} fixups are loaded instead of the {} stored", got.len(), want.len());
                                }
                                Said::Error(e) => check!(!harmless(faults), "loading is refused: {e}"),
                                Said::Killed => {}
                            }
                            sound(&dir, &[want.clone()]).map(|_| ())
                        },
                    );
                    ops
                };
                let ops = go(&[]);
                for f in faults_of(&ops, 0, true) {
                    let ops = go(&[f]);
                    if matches!(f.act, Act::Fail(_)) {
                        for g in faults_of(&ops, f.at as usize + 1, true) {
                            go(&[f, g]);
                        }
                    }
                }
            }),
        });
        // Somebody loads, or also saves, at the same time.
        for first in 0..2 {
            u.push(Unit {
                label: format!("reader-{before:?}-{first}"),
                run: Box::new(move |c| {
                    let old = list(before.unwrap_or(&[]));
                    let mut new = old.clone();
                    new.push(fixup(7));
                    schedules(
                        || {
                            let d = prepared(before);
                            let p = vec![traced(&d, &["save", d.text(), "7"], &[]), traced(&d, &["load", d.text()], &[])];
                            (d, p)
                        },
                        if t { 10 } else { 4 },
                        Some(first),
                        |dir, said, plan, log| {
                            c.steps(plan.len() as u64);
                            c.case(
                                || format!("stored {before:?}, 0 adds one, 1 loads: {log:?}"),
                                || {
                                    save_ok(c, &said[0], "saving")?;
                                    match said[1].clone()? {
                                        Said::Ok(s) => {
                                            let got: Vec<Fixup> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
                                            check!(got == old || got == new, "{} fixups were loaded meanwhile", got.len());
                                        }
                                        other => return Err(format!("loading meanwhile: {other:?}")),
                                    }
                                    sound(dir, &[new.clone()]).map(|_| ())
                                },
                            );
                        },
                    );
                }),
            });
            u.push(Unit {
                label: format!("writers-{before:?}-{first}"),
                run: Box::new(move |c| {
                    let with = |n: &[u32]| [list(before.unwrap_or(&[])), list(n)].concat();
                    schedules(
                        || {
                            let d = prepared(before);
                            let p = vec![traced(&d, &["save", d.text(), "7"], &[]), traced(&d, &["save", d.text(), "8"], &[])];
                            (d, p)
                        },
                        if t { 5 } else { 3 },
                        Some(first),
                        |dir, said, plan, log| {
                            c.steps(plan.len() as u64);
                            c.case(
                                || format!("stored {before:?}, two add one each: {log:?}"),
                                || {
                                    save_ok(c, &said[0], "the first saving")?;
                                    save_ok(c, &said[1], "the second saving")?;
                                    sound(dir, &[with(&[7]), with(&[8]), with(&[7, 8]), with(&[8, 7])]).map(|_| ())
                                },
                            );
                        },
                    );
                }),
            });
        }
    }
    u
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Copy, Debug, PartialEq)]
enum Reply {
    /// The whole document, with its length / in chunks / until the connection closes.
    Length,
    Chunks,
    UntilClose,
    /// The connection closes after this many of a thousand parts of the document.
    LengthCut(usize),
    ChunksCut(usize),
    /// Chunks without the last, empty one.
    ChunksOpen,
    Status(u16),
    Hangup,
    HalfHeader,
    Redirect,
}
use Reply::*;
impl Reply {
    fn complete(self) -> bool {
        matches!(self, Length | Chunks | UntilClose | Redirect)
    }
}

/// What the server has at an address.
fn document(path: &str, size: usize) -> Vec<u8> {
    let mut v = format!("%PDF {path} ").into_bytes();
    let mut x = 17u32;
    while v.len() < size {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        v.push((x >> 24) as u8);
    }
    v
}

struct Server {
    port: u16,
    state: Arc<Mutex<(Reply, usize, Vec<String>)>>,
}

fn serve(mut s: TcpStream, state: &Mutex<(Reply, usize, Vec<String>)>) -> std::io::Result<()> {
    s.set_read_timeout(Some(Duration::from_secs(10)))?;
    let mut head = vec![];
    let mut b = [0];
    while !head.ends_with(b"\r\n\r\n") {
        if s.read(&mut b)? == 0 {
            return Ok(());
        }
        head.push(b[0]);
    }
    let head = String::from_utf8_lossy(&head).into_owned();
    let url = head.split(' ').nth(1).unwrap_or("").to_string();
    let (reply, size) = {
        let mut st = state.lock().unwrap();
        st.2.push(url.clone());
        (st.0, st.1)
    };
    let path = url.trim_start_matches("http://www.kozlonyok.hu").trim_start_matches("/elsewhere");
    let doc = document(path, size);
    let reply = if reply == Redirect && url.contains("/elsewhere") { Length } else { reply };
    let cut = |n: usize| &doc[..doc.len() * n / 1000];
    let chunks = |d: &[u8]| {
        let mut out = vec![];
        for c in d.chunks(700) {
            out.extend(format!("{:x}\r\n", c.len()).bytes());
            out.extend(c);
            out.extend(b"\r\n");
        }
        out
    };
    let mut out = vec![];
    match reply {
        Length | LengthCut(_) => {
            out.extend(format!("HTTP/1.1 200 OK\r\nContent-Type: application/pdf\r\nContent-Length: {}\r\n\r\n", doc.len()).bytes());
            out.extend(if let LengthCut(n) = reply { cut(n) } else { &doc });
        }
        Chunks | ChunksCut(_) | ChunksOpen => {
            out.extend(b"HTTP/1.1 200 OK\r\nContent-Type: application/pdf\r\nTransfer-Encoding: chunked\r\n\r\n");
            let mut c = chunks(&doc);
            match reply {
                Chunks => c.extend(b"0\r\n\r\n"),
                ChunksCut(n) => c.truncate(c.len() * n / 1000),
                _ => {}
            }
            out.extend(c);
        }
        UntilClose => {
            out.extend(b"HTTP/1.0 200 OK\r\nContent-Type: application/pdf\r\n\r\n");
            out.extend(&doc);
        }
        Status(n) => out.extend(format!("HTTP/1.1 {n} No\r\nContent-Type: text/html\r\nContent-Length: 9\r\n\r\n<nothing>").bytes()),
        Hangup => {}
        HalfHeader => out.extend(b"HTTP/1.1 200 OK\r\nContent-Le"),
        Redirect => out.extend(format!("HTTP/1.1 302 Found\r\nLocation: http://www.kozlonyok.hu/elsewhere{path}\r\nContent-Length: 0\r\n\r\n").bytes()),
    }
    s.write_all(&out)?;
    s.shutdown(std::net::Shutdown::Write)?;
    // Until the client has gone: no reset takes away what it has not read yet.
    let _ = s.read(&mut b);
    Ok(())
}

impl Server {
    fn new() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let state = Arc::new(Mutex::new((Length, 100, vec![])));
        let st = state.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let st = st.clone();
                std::thread::spawn(move || serve(s, &st));
            }
        });
        Server { port, state }
    }
    fn set(&self, r: Reply, size: usize) {
        *self.state.lock().unwrap() = (r, size, vec![]);
    }
    fn asked(&self) -> Vec<String> {
        self.state.lock().unwrap().2.clone()
    }
}
thread_local! {
    static SERVER: Server = Server::new();
}
fn server<T>(f: impl FnOnce(&Server) -> T) -> T {
    SERVER.with(f)
}
fn env() -> Vec<(&'static str, String)> {
    vec![("http_proxy", format!("http://127.0.0.1:{}", server(|s| s.port)))]
}

fn download(dir: &Dir, issue: &str) -> Proc {
    let env = env();
    let env: Vec<(&str, &str)> = env.iter().map(|(k, v)| (*k, v.as_str())).collect();
    traced(dir, &["download", dir.text(), issue], &env)
}

fn url_path(issue: &str) -> String {
    let (y, i) = issue.split_once('/').unwrap();
    let (y, i): (i64, i64) = (y.parse().unwrap(), i.parse().unwrap());
    format!("/nkonline/MKPDF/hiteles/MK{:02}{i:03}.pdf", y % 100)
}

/// What is in the cache: no server can be reached from this process.
fn cached(dir: &Dir, issue: &str) -> Result<Vec<u8>, String> {
    download_mk_issue(&issue.parse().unwrap(), &dir.0).map_err(|e| format!("{e:#}"))
}

fn cache_sound(dir: &Dir, issue: &str, size: usize, must: bool) -> Result<(), String> {
    let want = document(&url_path(issue), size);
    match cached(dir, issue) {
        Ok(b) => check!(b == want, "afterwards the cache gives {} bytes instead of the document of {}", b.len(), want.len()),
        Err(e) => check!(!must, "afterwards the document is not in the cache: {e}"),
    }
    Ok(())
}
/// And it can be had again, from a server that works.
fn cache_recovers(dir: &Dir, issue: &str, size: usize) -> Result<(), String> {
    server(|s| s.set(Length, size));
    let want = hash(&document(&url_path(issue), size));
    let mut p = download(dir, issue);
    let end = tracer::run(&mut p, |_, _| Act::Go);
    match said(&mut p, end)? {
        Said::Ok(h) => check!(h == want, "the next download gives {h} instead of {want}"),
        other => return Err(format!("the next download: {other:?}")),
    }
    cache_sound(dir, issue, size, true)
}

#[derive(Clone, Copy, PartialEq)]
enum Start {
    Empty,
    NoDir,
    Other,
}

fn cache_with(c: &Ctx, start: Start, reply: Reply, size: usize, faults: &[Fault], judged: bool) -> Vec<Op> {
    let dir = Dir::new();
    let issue = "2013/31";
    match start {
        Start::Empty => {}
        Start::NoDir => std::fs::remove_dir(&dir.0).unwrap(),
        Start::Other => {
            server(|s| s.set(Length, 50));
            let mut p = download(&dir, "2013/32");
            tracer::run(&mut p, |_, _| Act::Go);
        }
    }
    server(|s| s.set(reply, size));
    let mut p = download(&dir, issue);
    let (end, ops) = run_with(&mut p, faults);
    if !judged {
        return ops;
    }
    let r = said(&mut p, end);
    let asked = server(|s| s.asked());
    c.steps(ops.len() as u64);
    c.case(
        || format!("server: {reply:?} of {size} bytes, with {}", show_faults(faults, &ops)),
        || {
            c.validated();
            let want = document(&url_path(issue), size);
            for a in &asked {
                check!(a.ends_with(&url_path(issue)) && a.starts_with("http://www.kozlonyok.hu/"), "the address {a:?} was asked for");
            }
            match r.clone()? {
                Said::Ok(h) => {
                    c.outcome("downloaded");
                    check!(reply.complete(), "the reply is not a document, but was taken for one: {h}");
                    check!(h == hash(&want), "the result is {h} instead of {}", hash(&want));
                    cache_sound(&dir, issue, size, faults.is_empty())?;
                }
                Said::Error(e) => {
                    c.outcome("refused");
                    check!(!(reply.complete() && harmless(faults)), "the download is refused: {e}");
                    cache_sound(&dir, issue, size, false)?;
                }
                Said::Killed => {
                    c.outcome("killed");
                    cache_sound(&dir, issue, size, false)?;
                }
            }
            if !reply.complete() {
                check!(cached(&dir, issue).is_err(), "something is in the cache, but there was no document");
            }
            cache_recovers(&dir, issue, size)?;
            if start == Start::Other {
                cache_sound(&dir, "2013/32", 50, true)?;
            }
            Ok(())
        },
    );
    ops
}

pub fn c22(tier: Tier) -> Vec<Unit<'static>> {
    let t = tier == Tier::Thorough;
    scratch();
    // Nothing listens there: in this process only the cache can answer.
    std::env::set_var("http_proxy", "http://127.0.0.1:1");
    let mut u: Vec<Unit> = vec![];
    let mut replies = vec![Length, Chunks, UntilClose, Redirect, ChunksOpen, Hangup, HalfHeader, Status(404), Status(500), Status(403), Status(503), Status(400)];
    let cuts: Vec<usize> = if t { (0..1000).step_by(13).collect() } else { vec![0, 1, 250, 500, 750, 999] };
    replies.extend(cuts.iter().map(|n| LengthCut(*n)));
    for size in [60usize, 5_000, 70_000] {
        let replies = replies.clone();
        u.push(Unit {
            label: format!("replies-{size}"),
            run: Box::new(move |c| {
                for r in &replies {
                    for start in [Start::Empty, Start::NoDir, Start::Other] {
                        cache_with(c, start, *r, size, &[], true);
                    }
                }
            }),
        });
        for (n, reply) in [Length, Chunks, UntilClose, LengthCut(500), Status(404)].into_iter().enumerate() {
            for (m, start) in [Start::Empty, Start::NoDir, Start::Other].into_iter().enumerate() {
                u.push(Unit {
                    label: format!("faults-{size}-{n}-{m}"),
                    run: Box::new(move |c| {
                        let ops = cache_with(c, start, reply, size, &[], false);
                        for f in faults_of(&ops, 0, true) {
                            let ops = cache_with(c, start, reply, size, &[f], true);
                            if !matches!(f.act, Act::Fail(_) | Act::Shorten(_)) || (n > 0 && !t) || size == 5_000 {
                                continue;
                            }
                            for g in faults_of(&ops, f.at as usize + 1, t) {
                                cache_with(c, start, reply, size, &[f, g], true);
                            }
                        }
                    }),
                });
            }
        }
    }
    // The client library does not notice a chunk that ends early: see known_findings.txt.
    u.push(Unit {
        label: "chunks-cut".into(),
        run: Box::new(move |c| {
            c.case(
                || "chunked replies cut off inside a chunk".into(),
                || {
                    let mut taken = None;
                    for size in [60usize, 5_000, 70_000] {
                        for n in &cuts {
                            c.steps(1);
                            let dir = Dir::new();
                            server(|s| s.set(ChunksCut(*n), size));
                            let mut p = download(&dir, "2013/31");
                            let end = tracer::run(&mut p, |_, _| Act::Go);
                            let doc = document(&url_path("2013/31"), size);
                            match said(&mut p, end)? {
                                Said::Error(_) => {
                                    check!(cached(&dir, "2013/31").is_err(), "the download was refused, but something is in the cache");
                                    cache_recovers(&dir, "2013/31", size)?;
                                }
                                Said::Ok(h) => {
                                    let b = cached(&dir, "2013/31").map_err(|e| format!("the download succeeded, but the cache gives: {e}"))?;
                                    check!(hash(&b) == h, "the cache gives {} after a download of {h}", hash(&b));
                                    check!(doc.starts_with(&b), "the download gives {h}, which is no beginning of the document");
                                    taken.get_or_insert(format!("{} of {size} bytes", b.len()));
                                }
                                Said::Killed => return Err("the process was killed".into()),
                            }
                        }
                    }
                    match taken {
                        Some(t) => Err(format!("the beginning of a document was taken for the whole ({t})")),
                        None => Ok(()),
                    }
                },
            );
        }),
    });
    // Two downloads of the same issue at the same time, or a reader.
    for (n, start) in [Start::Empty, Start::NoDir, Start::Other].into_iter().enumerate() {
        for first in 0..2 {
            for issues in [["2013/31", "2013/31"], ["2013/31", "2013/32"], ["2013/31", "2012/31"]] {
                u.push(Unit {
                    label: format!("both-{n}-{first}-{}", issues[1]),
                    run: Box::new(move |c| {
                        schedules(
                            || {
                                let dir = Dir::new();
                                match start {
                                    Start::NoDir => std::fs::remove_dir(&dir.0).unwrap(),
                                    Start::Other => {
                                        server(|s| s.set(Length, 50));
                                        let mut p = download(&dir, "2013/1");
                                        tracer::run(&mut p, |_, _| Act::Go);
                                    }
                                    Start::Empty => {}
                                }
                                server(|s| s.set(Length, 900));
                                let p = issues.iter().map(|i| download(&dir, i)).collect();
                                (dir, p)
                            },
                            if t { 4 } else { 3 },
                            Some(first),
                            |dir, said, plan, log| {
                                c.steps(plan.len() as u64);
                                c.case(
                                    || format!("two downloads, of {issues:?}: {log:?}"),
                                    || {
                                        c.validated();
                                        for (i, s) in said.iter().enumerate() {
                                            let want = hash(&document(&url_path(issues[i]), 900));
                                            match s.clone()? {
                                                Said::Ok(h) => check!(h == want, "download {i} gives {h} instead of {want}"),
                                                other => return Err(format!("download {i}: {other:?}")),
                                            }
                                        }
                                        for i in issues {
                                            cache_sound(dir, i, 900, true)?;
                                        }
                                        Ok(())
                                    },
                                );
                            },
                        );
                    }),
                });
            }
        }
    }
    // Which document an issue is, and that no two share one.
    let years: Vec<i64> = if t { (1998..=2030).collect() } else { vec![1998, 1999, 2000, 2001, 2009, 2010, 2013, 2020, 2021, 2030] };
    let numbers: Vec<i64> = if t { (1..=300).collect() } else { vec![1, 2, 9, 10, 11, 12, 20, 21, 99, 100, 101, 110, 112, 200, 211, 299] };
    let mut caches: Vec<(String, Vec<String>)> =
        years.iter().map(|y| (format!("issues-{y}"), numbers.iter().map(|i| format!("{y}/{i}")).collect())).collect();
    // The same numbers of different years, even if the server could not tell them apart.
    for i in [1, 12, 123] {
        caches.push((format!("years-{i}"), [2012, 2013, 2002, 1913, 2113, 201, 20, 2, 2120, 1998].iter().map(|y| format!("{y}/{i}")).collect()));
    }
    for (label, mut issues) in caches {
        issues.push(issues[0].clone());
        u.push(Unit {
            label,
            run: Box::new(move |c| {
                let dir = Dir::new();
                for (k, issue) in issues.iter().enumerate() {
                    server(|s| s.set(Length, 40));
                    let mut p = download(&dir, issue);
                    let end = tracer::run(&mut p, |_, _| Act::Go);
                    let r = said(&mut p, end);
                    let asked = server(|s| s.asked());
                    c.steps(1);
                    c.case(
                        || format!("downloading {issue} after {k} others"),
                        || {
                            c.validated();
                            let want = document(&url_path(issue), 40);
                            check!(r.clone()? == Said::Ok(hash(&want)), "the result is {r:?} instead of {}", hash(&want));
                            if k + 1 == issues.len() {
                                check!(asked.is_empty(), "a cached issue was downloaded again");
                                for i in &issues {
                                    cache_sound(&dir, i, 40, true)?;
                                }
                            } else {
                                check!(asked == [format!("http://www.kozlonyok.hu{}", url_path(issue))], "asked for {asked:?}");
                            }
                            Ok(())
                        },
                    );
                }
            }),
        });
    }
    u
}
