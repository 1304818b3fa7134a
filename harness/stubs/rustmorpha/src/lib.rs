//! Offline stand-in for `rustmorpha` (the morpha stemmer): lowercases and strips one plural/-ing
//! suffix per call; `full_stem` iterates to a fixed point. Only the contract llamapun relies on
//! (a deterministic string function) is represented, not the linguistic quality.
pub fn stem(text: &str) -> String {
  text
    .split_inclusive(|c: char| !c.is_alphabetic())
    .map(|piece| {
      let (word, tail) = match piece.char_indices().last() {
        Some((i, c)) if !c.is_alphabetic() => (&piece[..i], &piece[i..]),
        _ => (piece, ""),
      };
      let mut w = word.to_lowercase();
      for suffix in ["ing", "es", "s", "ed"] {
        if w.len() > suffix.len() + 3 && w.is_ascii() && w.ends_with(suffix) {
          w.truncate(w.len() - suffix.len());
          break;
        }
      }
      w + tail
    })
    .collect()
}
pub fn full_stem(text: &str) -> String {
  let mut current = text.to_string();
  loop {
    let next = stem(&current);
    if next == current {
      return current;
    }
    current = next;
  }
}
pub fn close() {}
