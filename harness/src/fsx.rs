//! Scratch space and directory snapshots.

use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

/// Everything a case may touch is below this directory.
pub fn root() -> PathBuf {
    let w = std::env::var_os("PBT_WORKDIR").expect("PBT_WORKDIR");
    PathBuf::from(w).join("n1")
}

/// TMPDIR of this worker (several levels below `root()`).
pub fn tmp() -> PathBuf {
    std::env::temp_dir()
}

static HOME: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
static N: AtomicU64 = AtomicU64::new(0);

/// A fresh directory for one case, removed on drop. It is not inside TMPDIR.
pub struct CaseDir(pub PathBuf);

impl CaseDir {
    pub fn new() -> CaseDir {
        let p = root().join("n2/cases").join(format!("c{}/d1/d2/d3", N.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&p).unwrap();
        CaseDir(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    /// Make it the working directory, until it is dropped.
    pub fn enter(&self) {
        enter(&self.0);
    }
    /// top of this case's own tree (a few levels up)
    pub fn top(&self) -> &Path {
        self.0.parent().unwrap().parent().unwrap().parent().unwrap()
    }
}

/// Change into a directory below that of the case, until that is dropped.
pub fn enter(p: &Path) {
    HOME.get_or_init(|| std::env::current_dir().unwrap());
    std::env::set_current_dir(p).unwrap();
}

impl Drop for CaseDir {
    fn drop(&mut self) {
        if let Some(h) = HOME.get() {
            let _ = std::env::set_current_dir(h);
        }
        let _ = fs::remove_dir_all(self.top());
    }
}

/// Remove whatever is in TMPDIR.
pub fn clean_tmp() {
    let t = tmp();
    assert!(t.starts_with(root()));
    if let Ok(rd) = fs::read_dir(&t) {
        for e in rd.flatten() {
            let p = e.path();
            if fs::remove_file(&p).is_err() {
                let _ = fs::remove_dir_all(&p);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Dir,
    File(Vec<u8>),
}

/// All files and directories below `dir`, by absolute path.
pub fn tree(dir: &Path) -> BTreeMap<PathBuf, Node> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        if let Ok(rd) = fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                match e.file_type() {
                    Ok(t) if t.is_dir() => {
                        todo.push(p.clone());
                        out.insert(p, Node::Dir);
                    }
                    _ => {
                        let c = fs::read(&p).unwrap_or_default();
                        out.insert(p, Node::File(c));
                    }
                }
            }
        }
    }
    out
}

/// Number of entries below a directory.
pub fn count(dir: &Path) -> usize {
    tree(dir).len()
}

pub fn list(dir: &Path) -> Vec<String> {
    tree(dir).keys().map(|p| p.strip_prefix(dir).unwrap().display().to_string()).collect()
}
