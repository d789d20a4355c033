//! Runs a child process under ptrace and puts it at the explorer's disposal at every file
//! system operation it makes inside its scratch directory: let it happen, fail it, shorten it,
//! or kill the process before or after it.
use libc::{c_long, c_void, pid_t};
use std::{
    io::Read,
    os::unix::process::CommandExt,
    process::{ChildStdout, Command, Stdio},
};

/// `write` to this descriptor marks the start and the end of the traced part.
const MARK: i32 = -77;

pub fn mark() {
    unsafe {
        libc::write(MARK, std::ptr::null(), 0);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Look,
    Open,
    Read,
    Write(u64),
    Sync,
    Change,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: Kind,
    pub name: &'static str,
    pub what: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Go,
    Kill,
    KillAfter,
    Fail(i32),
    Shorten(u64),
    ShortenKill(u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Killed(i32),
}

pub enum Event {
    Op(Op),
    End(End),
}

pub struct Proc {
    pid: pid_t,
    out: Option<ChildStdout>,
    dir: String,
    inside: bool,
    end: Option<End>,
    pub ops: u64,
}

fn ptrace(req: u32, pid: pid_t, addr: usize, data: usize) -> c_long {
    unsafe { libc::ptrace(req, pid, addr as *mut c_void, data as *mut c_void) }
}

impl Proc {
    /// `dir`: operations on paths below it are shown.
    pub fn start(args: &[&str], envs: &[(&str, &str)], dir: &str) -> Proc {
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.args(args).env_clear().envs(envs.iter().copied()).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                if libc::ptrace(libc::PTRACE_TRACEME, 0, 0usize, 0usize) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let mut child = cmd.spawn().expect("starting a traced process");
        let pid = child.id() as pid_t;
        let out = child.stdout.take();
        // Its end is awaited with waitpid below.
        std::mem::forget(child);
        let mut p = Proc { pid, out, dir: dir.into(), inside: false, end: None, ops: 0 };
        let st = p.wait();
        assert!(libc::WIFSTOPPED(st), "a traced process did not stop at its start");
        let opt = libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL;
        assert!(ptrace(libc::PTRACE_SETOPTIONS, pid, 0, opt as usize) == 0, "ptrace is refused");
        p
    }
    fn wait(&mut self) -> i32 {
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(self.pid, &mut st, libc::__WALL) };
            if r == self.pid {
                return st;
            }
            let e = std::io::Error::last_os_error();
            assert!(e.kind() == std::io::ErrorKind::Interrupted, "waitpid: {e}");
        }
    }
    fn regs(&self) -> libc::user_regs_struct {
        let mut r: libc::user_regs_struct = unsafe { std::mem::zeroed() };
        assert!(ptrace(libc::PTRACE_GETREGS, self.pid, 0, &mut r as *mut _ as usize) == 0, "PTRACE_GETREGS");
        r
    }
    fn set_regs(&self, r: &libc::user_regs_struct) {
        assert!(ptrace(libc::PTRACE_SETREGS, self.pid, 0, r as *const _ as usize) == 0, "PTRACE_SETREGS");
    }
    /// To the next system call stop (entry or exit, in turn), or to the end.
    fn step(&mut self) -> bool {
        let mut sig = 0;
        loop {
            // Refused only if it is gone in the meantime, which the wait shows.
            ptrace(libc::PTRACE_SYSCALL, self.pid, 0, sig);
            let st = self.wait();
            if libc::WIFEXITED(st) {
                self.end = Some(End::Exit(libc::WEXITSTATUS(st)));
                return false;
            }
            if libc::WIFSIGNALED(st) {
                self.end = Some(End::Killed(libc::WTERMSIG(st)));
                return false;
            }
            match libc::WSTOPSIG(st) {
                s if s == libc::SIGTRAP | 0x80 => return true,
                libc::SIGTRAP => sig = 0,
                s => sig = s as usize,
            }
        }
    }
    fn text(&self, addr: u64) -> String {
        let mut buf = [0u8; 4096];
        let mut n = 0;
        // Up to the end of the page at a time: the next one may not be there.
        while n < buf.len() {
            let here = addr as usize + n;
            let len = (4096 - here % 4096).min(buf.len() - n);
            let local = libc::iovec { iov_base: buf[n..].as_mut_ptr() as *mut c_void, iov_len: len };
            let remote = libc::iovec { iov_base: here as *mut c_void, iov_len: len };
            let r = unsafe { libc::process_vm_readv(self.pid, &local, 1, &remote, 1, 0) };
            if r <= 0 {
                break;
            }
            if let Some(z) = buf[n..n + r as usize].iter().position(|b| *b == 0) {
                return String::from_utf8_lossy(&buf[..n + z]).into_owned();
            }
            n += r as usize;
        }
        String::new()
    }
    fn fd_path(&self, fd: u64) -> String {
        std::fs::read_link(format!("/proc/{}/fd/{}", self.pid, fd as i32)).map_or(String::new(), |p| p.to_string_lossy().into_owned())
    }
    fn op(&self, r: &libc::user_regs_struct) -> Option<Op> {
        use Kind::*;
        let path = |a: u64| self.text(a);
        let fd = |a: u64| self.fd_path(a);
        #[allow(deprecated)]
        let (kind, name, what) = match r.orig_rax as c_long {
            libc::SYS_open | libc::SYS_creat => (Open, "open", path(r.rdi)),
            libc::SYS_openat | libc::SYS_openat2 => (Open, "open", path(r.rsi)),
            libc::SYS_stat | libc::SYS_lstat | libc::SYS_access => (Look, "stat", path(r.rdi)),
            libc::SYS_statx | libc::SYS_newfstatat | libc::SYS_faccessat | libc::SYS_faccessat2 => {
                let p = path(r.rsi);
                if p.is_empty() {
                    // About an open file: nothing another process could change unseen.
                    return None;
                }
                (Look, "stat", p)
            }
            libc::SYS_read | libc::SYS_pread64 | libc::SYS_readv => (Read, "read", fd(r.rdi)),
            libc::SYS_write | libc::SYS_pwrite64 => (Write(r.rdx), "write", fd(r.rdi)),
            libc::SYS_writev => (Change, "writev", fd(r.rdi)),
            libc::SYS_copy_file_range | libc::SYS_splice => (Change, "copy", fd(r.rdx)),
            libc::SYS_sendfile => (Change, "copy", fd(r.rdi)),
            libc::SYS_fsync | libc::SYS_fdatasync | libc::SYS_sync_file_range => (Sync, "fsync", fd(r.rdi)),
            libc::SYS_ftruncate | libc::SYS_fallocate | libc::SYS_fchmod => (Change, "ftruncate/fchmod", fd(r.rdi)),
            libc::SYS_rename | libc::SYS_link | libc::SYS_symlink => (Change, "rename/link", path(r.rdi)),
            libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_linkat => (Change, "rename/link", path(r.rsi)),
            libc::SYS_symlinkat => (Change, "symlink", path(r.rdx)),
            libc::SYS_unlink | libc::SYS_rmdir => (Change, "unlink", path(r.rdi)),
            libc::SYS_unlinkat => (Change, "unlink", path(r.rsi)),
            libc::SYS_mkdir | libc::SYS_truncate | libc::SYS_chmod => (Change, "mkdir/truncate/chmod", path(r.rdi)),
            libc::SYS_mkdirat | libc::SYS_fchmodat => (Change, "mkdir/chmod", path(r.rsi)),
            _ => return None,
        };
        if !what.starts_with(&self.dir) {
            return None;
        }
        Some(Op { kind, name, what: what[self.dir.len()..].to_string() })
    }
    /// To the entry of the next operation, or to the end.
    pub fn next(&mut self) -> Event {
        if let Some(e) = &self.end {
            return Event::End(e.clone());
        }
        loop {
            if !self.step() {
                break;
            }
            let r = self.regs();
            if r.orig_rax as c_long == libc::SYS_write && r.rdi as i32 == MARK {
                self.inside = !self.inside;
            } else if self.inside {
                if let Some(op) = self.op(&r) {
                    self.ops += 1;
                    return Event::Op(op);
                }
            }
            // Its exit.
            if !self.step() {
                break;
            }
        }
        Event::End(self.end.clone().unwrap())
    }
    /// What becomes of the operation `next` stopped at.
    pub fn act(&mut self, a: Act) {
        let mut r = self.regs();
        match a {
            Act::Go => {}
            Act::Kill => return self.kill(),
            Act::KillAfter => {
                if self.step() {
                    self.kill();
                }
                return;
            }
            Act::Fail(errno) => {
                r.orig_rax = u64::MAX;
                self.set_regs(&r);
                if self.step() {
                    let mut r = self.regs();
                    r.rax = -(errno as i64) as u64;
                    self.set_regs(&r);
                }
                return;
            }
            Act::Shorten(n) | Act::ShortenKill(n) => {
                let full = r.rdx;
                r.rdx = n;
                self.set_regs(&r);
                if self.step() {
                    if let Act::ShortenKill(_) = a {
                        return self.kill();
                    }
                    let mut r = self.regs();
                    r.rdx = full;
                    self.set_regs(&r);
                }
                return;
            }
        }
        self.step();
    }
    fn kill(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
        }
        while self.end.is_none() {
            let st = self.wait();
            if libc::WIFEXITED(st) {
                self.end = Some(End::Exit(libc::WEXITSTATUS(st)));
            } else if libc::WIFSIGNALED(st) {
                self.end = Some(End::Killed(libc::WTERMSIG(st)));
            }
        }
    }
    /// After the end: what it printed.
    pub fn output(&mut self) -> String {
        assert!(self.end.is_some());
        let mut s = String::new();
        if let Some(mut o) = self.out.take() {
            let _ = o.read_to_string(&mut s);
        }
        s
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        if self.end.is_none() {
            self.kill();
        }
    }
}

/// Runs it to the end with the action each operation gets.
pub fn run(p: &mut Proc, mut decide: impl FnMut(u64, &Op) -> Act) -> End {
    let mut n = 0;
    loop {
        match p.next() {
            Event::End(e) => return e,
            Event::Op(op) => {
                let a = decide(n, &op);
                n += 1;
                p.act(a);
            }
        }
    }
}
