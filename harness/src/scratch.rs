//! Scratch directories: one per thread under a per-process directory, removed at exit.

use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

static NEXT: AtomicUsize = AtomicUsize::new(0);

fn base() -> PathBuf {
    std::env::temp_dir().join(format!("pbt-{}", std::process::id()))
}

thread_local! {
    static DIR: PathBuf = {
        let d = base().join(format!("t{}", NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    };
}

/// This thread's scratch directory (created on first use).
pub fn dir() -> PathBuf {
    DIR.with(|d| d.clone())
}

/// A directory of this thread's for the machinery's own files.
pub fn aux() -> PathBuf {
    let d = dir().join("aux");
    if !d.exists() {
        std::fs::create_dir_all(&d).expect("scratch directory");
    }
    d
}

/// Removes everything this process created.
pub fn cleanup() {
    let b = base();
    if b.exists() {
        let _ = std::fs::remove_dir_all(&b);
    }
}

/// An empty subdirectory of this thread's scratch directory.
pub fn fresh(name: &str) -> PathBuf {
    let d = dir().join(name);
    if d.exists() {
        let _ = std::fs::remove_dir_all(&d);
    }
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

/// All files below a directory with their contents (None for a directory).
pub fn tree(root: &Path) -> std::collections::BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut out = std::collections::BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(root).unwrap().to_path_buf();
            let ft = e.file_type().ok();
            if ft.map_or(false, |t| t.is_dir()) {
                out.insert(rel, None);
                todo.push(p);
            } else if ft.map_or(false, |t| t.is_symlink()) {
                let to = std::fs::read_link(&p).unwrap_or_default();
                out.insert(rel, Some(format!("-> {}", to.display()).into_bytes()));
            } else {
                out.insert(rel, Some(std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    out
}
