//! Offline stand-in for `jwalk` 0.4: the builder calls and entry fields llamapun uses.
//! The walk itself is eager. With `sort(false)` the order of siblings is unspecified in the real
//! crate; here it is a pseudo-random permutation controlled by `set_order_seed`, so that a monitor
//! can drive many delivery orders.
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static ORDER_SEED: AtomicU64 = AtomicU64::new(0);
/// Test-double control: choose the sibling permutation of later unsorted walks.
pub fn set_order_seed(seed: u64) { ORDER_SEED.store(seed, Ordering::SeqCst); }
/// The same for a process of its own.
fn order_seed() -> u64 {
  match ORDER_SEED.load(Ordering::SeqCst) {
    0 => std::env::var("JWALK_STANDIN_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
    seed => seed,
  }
}

pub struct WalkDir {
  root: PathBuf,
  skip_hidden: bool,
  sort: bool,
  max_depth: usize,
  follow_links: bool,
  preload_metadata: bool,
}
#[derive(Debug)]
pub struct DirEntry {
  pub depth: usize,
  pub file_name: OsString,
  pub file_type: std::io::Result<std::fs::FileType>,
  pub metadata: Option<std::io::Result<std::fs::Metadata>>,
  path: PathBuf,
}
impl DirEntry {
  pub fn path(&self) -> PathBuf { self.path.clone() }
  pub fn file_name(&self) -> &std::ffi::OsStr { &self.file_name }
  pub fn depth(&self) -> usize { self.depth }
  pub fn metadata(&self) -> std::io::Result<std::fs::Metadata> { std::fs::symlink_metadata(&self.path) }
}
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

impl WalkDir {
  pub fn new<P: AsRef<Path>>(root: P) -> Self {
    WalkDir { root: root.as_ref().to_path_buf(), skip_hidden: true, sort: false, max_depth: usize::MAX, follow_links: false, preload_metadata: false }
  }
  pub fn num_threads(self, _n: usize) -> Self { self }
  pub fn skip_hidden(mut self, skip: bool) -> Self {
    self.skip_hidden = skip;
    self
  }
  pub fn sort(mut self, sort: bool) -> Self {
    self.sort = sort;
    self
  }
  pub fn max_depth(mut self, depth: usize) -> Self {
    self.max_depth = depth;
    self
  }
  pub fn follow_links(mut self, follow: bool) -> Self {
    self.follow_links = follow;
    self
  }
  pub fn preload_metadata(mut self, preload: bool) -> Self {
    self.preload_metadata = preload;
    self
  }
  fn entry(&self, path: &Path, file_name: OsString, depth: usize) -> DirEntry {
    let meta = || if self.follow_links { std::fs::metadata(path) } else { std::fs::symlink_metadata(path) };
    DirEntry { depth, file_name, file_type: meta().map(|m| m.file_type()), metadata: self.preload_metadata.then(meta), path: path.to_path_buf() }
  }
  fn collect(&self, dir: &Path, depth: usize, rng: &mut u64, out: &mut Vec<Result<DirEntry>>) {
    let mut children: Vec<PathBuf> = match std::fs::read_dir(dir) {
      Ok(rd) => rd.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
      Err(e) => {
        out.push(Err(Error(e.to_string())));
        return;
      },
    };
    children.sort();
    if !self.sort {
      for i in (1..children.len()).rev() {
        *rng ^= *rng << 13;
        *rng ^= *rng >> 7;
        *rng ^= *rng << 17;
        let j = (*rng % (i as u64 + 1)) as usize;
        children.swap(i, j);
      }
    }
    for path in children {
      let file_name = path.file_name().map(|x| x.to_os_string()).unwrap_or_default();
      if self.skip_hidden && file_name.to_string_lossy().starts_with('.') {
        continue;
      }
      let entry = self.entry(&path, file_name, depth);
      let is_dir = entry.file_type.as_ref().map(|t| t.is_dir()).unwrap_or(false);
      out.push(Ok(entry));
      // (a link to an ancestor is not followed forever)
      if is_dir && depth < self.max_depth.min(if self.follow_links { 40 } else { usize::MAX }) {
        self.collect(&path, depth + 1, rng, out);
      }
    }
  }
}
impl IntoIterator for WalkDir {
  type Item = Result<DirEntry>;
  type IntoIter = std::vec::IntoIter<Result<DirEntry>>;
  fn into_iter(self) -> Self::IntoIter {
    let mut out = Vec::new();
    match std::fs::symlink_metadata(&self.root) {
      Err(e) => out.push(Err(Error(e.to_string()))),
      Ok(meta) => {
        let file_name = self.root.file_name().map(|x| x.to_os_string()).unwrap_or_else(|| self.root.as_os_str().to_os_string());
        out.push(Ok(self.entry(&self.root, file_name, 0)));
        if self.max_depth > 0 && (meta.is_dir() || std::fs::metadata(&self.root).map(|m| m.is_dir()).unwrap_or(false)) {
          let mut rng = order_seed().wrapping_mul(0x9E3779B97F4A7C15) | 1;
          self.collect(&self.root, 1, &mut rng, &mut out);
        }
      },
    }
    out.into_iter()
  }
}
