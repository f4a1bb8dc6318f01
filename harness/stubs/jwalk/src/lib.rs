//! STUB of jwalk 0.4 (not available offline): a sequential directory walk behind the same calls.
use std::ffi::OsString;
use std::path::{Path, PathBuf};
pub struct WalkDir { root: PathBuf, hidden: bool }
pub struct DirEntry { pub file_name: OsString, dir: PathBuf }
impl DirEntry { pub fn path(&self) -> PathBuf { self.dir.join(&self.file_name) } }
impl WalkDir {
  pub fn new<P: AsRef<Path>>(root: P) -> Self { WalkDir { root: root.as_ref().to_path_buf(), hidden: true } }
  pub fn num_threads(self, _n: usize) -> Self { self }
  pub fn skip_hidden(mut self, b: bool) -> Self { self.hidden = b; self }
  pub fn sort(self, _b: bool) -> Self { self }
}
impl IntoIterator for WalkDir {
  type Item = Result<DirEntry, std::io::Error>;
  type IntoIter = std::vec::IntoIter<Self::Item>;
  fn into_iter(self) -> Self::IntoIter {
    fn go(d: &Path, skip: bool, out: &mut Vec<Result<DirEntry, std::io::Error>>) {
      let mut es: Vec<_> = match std::fs::read_dir(d) { Ok(r) => r.filter_map(|e| e.ok()).collect(), Err(e) => { out.push(Err(e)); return } };
      es.sort_by_key(|e| e.file_name());
      for e in es {
        if skip && e.file_name().to_string_lossy().starts_with('.') { continue; }
        let p = e.path();
        out.push(Ok(DirEntry { file_name: e.file_name(), dir: d.to_path_buf() }));
        if p.is_dir() { go(&p, skip, out); }
      }
    }
    let mut out = Vec::new();
    let parent = self.root.parent().map(|p| p.to_path_buf()).unwrap_or_default();
    out.push(Ok(DirEntry { file_name: self.root.file_name().map(|s| s.to_owned()).unwrap_or_default(), dir: parent }));
    go(&self.root, self.hidden, &mut out);
    out.into_iter()
  }
}
