//! Shared helpers of the demonstrations.
#![allow(dead_code, unused_imports)]
use libxml::parser::Parser;
use libxml::tree::Document;
pub use llamapun::dnm::*;
pub use llamapun::tokenizer::Tokenizer;
pub use std::collections::HashMap;
pub fn xml(s: &str) -> Document { Parser::default().parse_string(s).unwrap() }
pub fn plain(s: &str) -> (Document, DNM) {
  let p = DNMParameters { normalize_white_spaces: false, ..Default::default() };
  DNM::from_str(s, Some(p)).unwrap()
}
pub fn sentences(s: &str) -> Vec<String> {
  let (_d, dnm) = plain(s);
  let t = Tokenizer::default();
  let v = t.sentences(&dnm).iter().map(|r| r.get_plaintext().to_string()).collect();
  v
}
/// a scratch directory, removed when dropped
pub struct Dir(pub std::path::PathBuf);
impl Dir {
  pub fn new() -> Dir {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
  }
  pub fn put(&self, name: &str, text: &str) -> String {
    let p = self.0.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, text).unwrap();
    p.to_str().unwrap().to_string()
  }
  pub fn path(&self) -> String { self.0.to_str().unwrap().to_string() }
}
impl Drop for Dir {
  fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}
