//! A directory of this process, removed at its end.  It is also the working directory, and where
//! the code under check puts its temporary files.
use std::{
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        OnceLock,
    },
};

static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

pub fn scratch() -> &'static Path {
    SCRATCH.get_or_init(|| {
        let d = tempfile::Builder::new().prefix("mc-").tempdir().unwrap().keep();
        std::fs::create_dir(d.join("tmp")).unwrap();
        std::env::set_var("TMPDIR", d.join("tmp"));
        std::env::set_current_dir(&d).unwrap();
        d
    })
}

pub fn cleanup() {
    if let Some(d) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(d);
    }
}

/// A fresh directory for one case.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let d = scratch().join(format!("case{}", NEXT.fetch_add(1, SeqCst)));
        std::fs::create_dir(&d).unwrap();
        Dir(d)
    }
    pub fn text(&self) -> &str {
        self.0.to_str().unwrap()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
