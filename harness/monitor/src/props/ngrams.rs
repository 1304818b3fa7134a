//! C15, C16: n-grams, count tables, dictionaries.
use super::{Spec, BASE};
use crate::cx::{clip, Cx};
use llamapun::ngrams::{Dictionary, Ngrams};
use std::collections::BTreeMap;

pub fn specs() -> Vec<Spec> {
  vec![
    Spec { id: "C15", run: c15, rule: "distinct (anchor, W, n, contents) with at least two anchors, or words out of reach, and at least one n-gram", quick: 1_500_000, ..BASE },
    Spec { id: "C16", run: c16, rule: "distinct histories with a repeated phrase and at least two different ones", quick: 800_000, ..BASE },
  ]
}

#[allow(clippy::field_reassign_with_default)]
fn c15(cx: &mut Cx, k: u64) {
  // (a few cases with counts and lengths beyond 2^16)
  let huge = k % 60_000 == 77;
  let r = &mut cx.rng;
  let anchor = *r.pick(&["citationelement", "A", "étale", "x1"]);
  // now and then an anchor that is close to a word, but none
  let set: &str = if r.chance(1, 12) { *r.pick(&["A ", " x1", "x1.", "", "ÉTALE", "X1", "CitationElement", "citationelement\n", "x1 y1", "(a", "citation"]) } else { anchor };
  let big = r.chance(1, 60);
  let (w, n) = if big {
    (*r.pick(&[7, 12, 30, 64, 100, 1000, usize::MAX]), if r.chance(1, 3) { r.range(1, 45) } else { r.range(1, 16) })
  } else {
    (r.range(1, 6), r.range(1, 5))
  };
  let vocab = ["a", "b", "c", "the", "A.", "citationelements", "é", "1", "日本", "Étale", "x", "y1", "z-z"];
  let noise = [".", ",", "-", "'s", "(a", "—", "*", "”", "_x"];
  let dens = if big { r.range(10, 150) } else { r.range(2, 14) };
  let contents: Vec<String> = (0..r.range(1, 3))
    .map(|_| {
      let mut s = String::new();
      if huge {
        let unit = format!("{} ", (0..r.range(1, 4)).map(|_| if r.chance(1, 3) { anchor } else { *r.pick(&vocab) }).collect::<Vec<_>>().join(" "));
        s.push_str(&format!("{anchor} {}", unit.repeat(*r.pick(&[300, 5_000, 66_000, 70_000]))));
      }
      let longest = if big { 400 } else { 30 };
      for _ in 0..r.range(0, longest) {
        s.push_str(if r.chance(1, dens) {
          anchor
        } else if r.chance(1, 6) {
          *r.pick(&noise)
        } else {
          *r.pick(&vocab)
        });
        s.push_str(r.pick(&[" ", " ", "\n", "  ", "\t"]));
      }
      s
    })
    .collect();
  let mut ng = Ngrams::default();
  ng.anchor = Some(set.to_string());
  ng.window_size = w;
  ng.n = n;
  let mut want: BTreeMap<String, usize> = BTreeMap::new();
  let (mut out_of_reach, mut anchors) = (0, 0);
  cx.doing = format!("anchor {set:?}, W={w}, n={n}, contents {:?}", contents.iter().map(|c| clip(c, 3_000)).collect::<Vec<_>>());
  let (mut w, mut n, mut set) = (w, n, set);
  for (ci, c) in contents.iter().enumerate() {
    // the settings are public and may change between contents
    if ci > 0 && cx.rng.chance(1, 8) {
      (w, n, set) = (cx.rng.range(1, 6), cx.rng.range(1, 5), *cx.rng.pick(&[anchor, anchor, "A", "a", "b"]));
      (ng.window_size, ng.n, ng.anchor) = (w, n, Some(set.to_string()));
      let more = format!("\nthen from content {ci} on anchor {set:?}, W={w}, n={n}");
      cx.doing.push_str(&more);
    }
    ng.add_content(c);
    let words: Vec<&str> = c
      .split(|x: char| x.is_ascii_whitespace())
      .filter(|t| t.chars().next().map_or(false, |x| x.is_alphanumeric()))
      .collect();
    let at: Vec<usize> = (0..words.len()).filter(|i| words[*i] == set).collect();
    anchors += at.len();
    // distance to the nearest anchor on either side
    let near: Vec<bool> = (0..words.len())
      .map(|i| {
        let j = at.partition_point(|a| *a < i);
        at.get(j).is_some_and(|a| a - i <= w) || j > 0 && i - at[j - 1] <= w
      })
      .collect();
    out_of_reach += near.iter().filter(|x| !**x).count();
    // every window of n consecutive words all of which take part
    for i in 0..words.len() {
      if i + n <= words.len() && near[i..i + n].iter().all(|x| *x) {
        *want.entry(words[i..i + n].join(" ")).or_insert(0) += 1;
      }
    }
  }
  let got: BTreeMap<String, usize> = ng.counts.iter().map(|(k, v)| (k.clone(), *v)).collect();
  let id = cx.doing.clone();
  cx.eval(id.as_str(), !want.is_empty() && (anchors >= 2 || out_of_reach > 0));
  cx.seen("n-grams", want.values().sum::<usize>() as u64);
  cx.seen("words out of reach", out_of_reach as u64);
  cx.seen("anchors", anchors as u64);
  cx.sample(|| clip(&id, 300));
  cx.check(got == want, "ngrams", || {
    let diff: Vec<String> = want
      .keys()
      .chain(got.keys())
      .filter(|k| want.get(*k) != got.get(*k))
      .take(5)
      .map(|k| format!("{k:?}: counted {}, expected {}", got.get(k).unwrap_or(&0), want.get(k).unwrap_or(&0)))
      .collect();
    format!("{}\n{id}", diff.join("; "))
  });
  let d = Ngrams::default();
  cx.check(d.n == 1 && d.anchor.is_none() && d.counts.is_empty(), "default", String::new);
}

#[allow(clippy::field_reassign_with_default)]
fn c16(cx: &mut Cx, k: u64) {
  let huge = k % 20_000 == 77;
  let r = &mut cx.rng;
  let vocab = ["a", "b", "c", "a b", "", "é", " a", "A", "日本 語", "the the"];
  let pool = r.range(1, vocab.len());
  // n-gram tables
  let big = r.chance(1, 50);
  let n = if !big { r.range(1, 4) } else if r.chance(1, 3) { r.range(8, 40) } else { r.range(1, 12) };
  let mut ng = Ngrams::default();
  ng.n = n;
  let mut want: BTreeMap<String, usize> = BTreeMap::new();
  let mut log = Vec::new();
  let longest = if big { 400 } else { 40 };
  for _ in 0..r.range(0, longest) {
    if r.chance(2, 3) {
      let p = vocab[r.below(pool)];
      ng.insert(p.to_string());
      *want.entry(p.to_string()).or_insert(0) += 1;
      log.push(format!("insert {p:?}"));
    } else {
      let most = if !big { 8 } else if n > 8 { 3 * n } else { 40 };
      let ws: Vec<&str> = (0..r.range(0, most)).map(|_| *r.pick(&["a", "b", "c", "é", "the"])).collect();
      ng.record_words(ws.clone());
      let before: usize = want.values().sum();
      for x in ws.windows(n) {
        *want.entry(x.join(" ")).or_insert(0) += 1;
      }
      let after: usize = want.values().sum();
      debug_assert_eq!(after - before, (ws.len() + 1).saturating_sub(n));
      log.push(format!("record {ws:?}"));
    }
  }
  if huge {
    // counts beyond 2^8 and 2^16
    let times = *r.pick(&[300, 40_000, 66_000, 70_000, 140_000]);
    let ws = vec![*r.pick(&["a", "é"]); times];
    let twice = r.chance(1, 2);
    for part in if twice { vec![&ws[..times / 2], &ws[times / 2..]] } else { vec![&ws[..]] } {
      ng.record_words(part.to_vec());
      for x in part.windows(n) {
        *want.entry(x.join(" ")).or_insert(0) += 1;
      }
    }
    log.push(format!("record {times} times {:?} in {} lists", ws[0], 1 + twice as usize));
    for _ in 0..times / 3 {
      ng.insert("b".to_string());
    }
    *want.entry("b".to_string()).or_insert(0) += times / 3;
    log.push(format!("insert \"b\" {} times", times / 3));
  }
  let h = || format!("n={n}: {}", clip(&log.join("; "), 900));
  let id = h();
  let nt = want.len() >= 2 && want.values().any(|c| *c > 1);
  cx.eval(id.as_str(), nt);
  cx.seen("table operations", log.len() as u64);
  cx.sample(|| clip(&id, 300));
  for p in vocab.iter().copied().chain(want.keys().map(String::as_str)).chain(["never"]) {
    let w = want.get(p).copied().unwrap_or(0);
    cx.check(ng.get(p) == w, "get", || format!("get({p:?}) is {}, expected {w}\n{}", ng.get(p), h()));
  }
  cx.check(ng.distinct_count() == want.len(), "distinct", || format!("distinct_count {} expected {}\n{}", ng.distinct_count(), want.len(), h()));
  let s = ng.sorted();
  let as_map: BTreeMap<String, usize> = s.iter().map(|(k, v)| ((*k).clone(), *v)).collect();
  cx.check(s.len() == want.len() && as_map == want, "report", || format!("report {s:?}, expected {want:?}\n{}", h()));
  cx.check(s.windows(2).all(|x| x[0].1 >= x[1].1), "report-order", || format!("report {s:?}\n{}", h()));
  // dictionaries
  let mut d = Dictionary::new();
  let mut pos: Vec<String> = Vec::new();
  let mut hist = Vec::new();
  let steps = cx.rng.range(0, if big { 600 } else { 60 });
  let fresh = if big { 500 } else { 30 };
  for step in 0..steps {
    let w = if cx.rng.chance(1, 4) { format!("w{}", cx.rng.below(fresh)) } else { vocab[cx.rng.below(pool)].to_string() };
    d.insert(w.clone());
    hist.push(w.clone());
    if !pos.contains(&w) {
      pos.push(w);
    }
    if step % 5 == 0 {
      let ok = d.count() == pos.len() && pos.iter().enumerate().all(|(i, w)| d.map.get(w) == Some(&(i + 1)));
      cx.check(ok, "dictionary", || format!("dictionary {:?}, first insertions {pos:?}, history {hist:?}", d.map));
    }
  }
  if huge {
    let more = *cx.rng.pick(&[300, 5_000, 66_000, 70_000]);
    let mut known: std::collections::HashMap<String, usize> = pos.iter().cloned().enumerate().map(|(i, w)| (w, i)).collect();
    for i in 0..more {
      let w = if i % 7 == 3 { pos[cx.rng.below(pos.len())].clone() } else { format!("h{i}") };
      d.insert(w.clone());
      if !known.contains_key(&w) {
        known.insert(w.clone(), pos.len());
        pos.push(w);
      }
    }
    let wrong = pos.iter().enumerate().find(|(i, w)| d.map.get(*w) != Some(&(i + 1)));
    cx.check(wrong.is_none(), "dictionary", || format!("after {more} more insertions {wrong:?} (0-based) has number {:?}", d.map.get(wrong.unwrap().1)));
  }
  cx.seen("dictionary insertions", hist.len() as u64);
  cx.check(d.count() == pos.len() && d.map.len() == pos.len(), "dictionary-count", || format!("count {} of {} {:?}", d.count(), pos.len(), &pos[..pos.len().min(40)]));
  let s: Vec<(String, usize)> = d.sorted().into_iter().map(|(a, b)| (a.clone(), b)).collect();
  let want: Vec<(String, usize)> = (0..pos.len()).rev().map(|i| (pos[i].clone(), i + 1)).collect();
  cx.check(s == want, "dictionary-report", || clip(&format!("report {s:?}, expected {want:?}, history {hist:?}"), 4_000));
}
