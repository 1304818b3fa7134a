//! C20–C23: pattern files, and matching them against analysed sentences.
//!
//! The reference is a loader written from the grammar of the pattern language and an interpreter
//! written from the documented meaning of each pattern; neither shares code with llamapun.
use super::{Spec, BASE};
use crate::cx::{clip, hash_of, Cx, Rng};
use crate::gen::{self, Kind, Snap};
use libxml::tree::Document;
use llamapun::dnm::{DNMParameters, DNMRange, SpecialTagsOption, DNM};
use llamapun::patterns::{match_sentence, MarkerEnum, Match, PatternFile};
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::{PSGNode, PSGParentContent, Sentence, Word};

pub fn specs() -> Vec<Spec> {
  vec![
    Spec { id: "C20", run: c20, rule: "distinct pattern files with at least three rules, or one edit away from such a file", quick: 80_000, ..BASE },
    Spec { id: "C21", run: c21, rule: "distinct (rules, analysed sentence) with at least one match of a pattern over several words or with a choice", quick: 240_000, ..BASE },
    Spec { id: "C22", run: c22, rule: "distinct (rules, formulas) with at least one matching and one non-matching formula", quick: 300_000, ..BASE },
    Spec { id: "C23", run: c23, rule: "distinct (rules, analysed sentence) with at least two markers", quick: 300_000, ..BASE },
  ]
}

/* ------------------------------------------------------------------ XML of a pattern file */

#[derive(Clone, Debug)]
enum N {
  El(X),
  Text(String),
  Comment,
}
#[derive(Clone, Debug)]
struct X {
  name: String,
  attrs: Vec<(String, String)>,
  kids: Vec<N>,
}
fn x(name: &str, attrs: &[(&str, &str)], kids: Vec<X>) -> X {
  X { name: name.into(), attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), kids: kids.into_iter().map(N::El).collect() }
}
fn xt(name: &str, text: &str) -> X { X { name: name.into(), attrs: vec![], kids: vec![N::Text(text.into())] } }
impl X {
  fn attr(&self, n: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str()) }
  fn write(&self, out: &mut String) {
    out.push_str(&format!("<{}", self.name));
    for (a, b) in &self.attrs {
      out.push_str(&format!(" {a}=\"{}\"", gen::escape(b).replace('\n', "&#10;").replace('\t', "&#9;")));
    }
    if self.kids.is_empty() {
      out.push_str("/>");
      return;
    }
    out.push('>');
    for k in &self.kids {
      match k {
        N::El(e) => e.write(out),
        N::Text(t) => out.push_str(&gen::escape(t)),
        N::Comment => out.push_str("<!-- word_any <b/> text -->"),
      }
    }
    out.push_str(&format!("</{}>", self.name));
  }
}
/// text nodes of a parsed file are never adjacent and never empty
fn tidy(e: &mut X) {
  let mut v: Vec<N> = Vec::new();
  for k in e.kids.drain(..) {
    match (v.last_mut(), k) {
      (_, N::Text(t)) if t.is_empty() => {},
      (Some(N::Text(a)), N::Text(b)) => a.push_str(&b),
      (_, k) => v.push(k),
    }
  }
  e.kids = v;
  for k in &mut e.kids {
    if let N::El(e) = k {
      tidy(e)
    }
  }
}
/// white space between elements and comments mean nothing
fn decorate(e: &mut X, r: &mut Rng, heavy: bool) {
  let texty = ["word", "description", "match_type"].contains(&e.name.as_str());
  if !texty {
    let mut v = Vec::new();
    for k in e.kids.drain(..) {
      if r.chance(1, if heavy { 2 } else { 8 }) {
        v.push(N::Text(r.pick(&["\n  ", " ", "\u{2003}", "\t"]).to_string()));
      }
      if r.chance(1, if heavy { 5 } else { 20 }) {
        v.push(N::Comment);
      }
      v.push(k);
    }
    if r.chance(1, if heavy { 3 } else { 10 }) {
      v.push(N::Text("\n".into()));
    }
    e.kids = v;
  }
  for k in &mut e.kids {
    if let N::El(e) = k {
      decorate(e, r, heavy)
    }
  }
}

/* ------------------------------------------------------------------ reference grammar */

type Marker = (String, Vec<String>);
#[derive(Clone, Debug)]
enum P {
  Any,
  Ref(String),
  Or(Vec<P>),
  Not(Box<P>),
  Mark(Box<P>, Marker),
  Lit(String),
  /// a part-of-speech tag
  Tag(String),
  /// part of speech, word
  WordPos(Box<P>, Box<P>),
  WordMath(Box<P>),
  MathNode(Option<String>, Option<String>, Option<(Vec<P>, String)>),
  Desc(Box<P>, String),
  SeqWord(Box<P>),
  Seq(Vec<P>),
  SeqOr(Vec<P>, String),
  Phrase(String, String, Option<(Box<P>, String)>, Option<Box<P>>),
}
struct RFile {
  summary: String,
  /// kind, name, summary, pattern
  rules: Vec<(String, String, String, P)>,
}
impl RFile {
  fn get(&self, kind: &str, name: &str) -> Option<&P> { self.rules.iter().find(|r| r.0 == kind && r.1 == name).map(|r| &r.3) }
}

/// Why a file is refused; `Unsure` where the language does not say.
enum No {
  Bad(String),
  Unsure,
}
type Y<T> = Result<T, No>;
fn bad<T>(s: &str) -> Y<T> { Err(No::Bad(s.to_string())) }
fn els(e: &X) -> Y<Vec<&X>> {
  let mut v = Vec::new();
  for k in &e.kids {
    match k {
      N::El(e) => v.push(e),
      N::Text(t) if !t.trim().is_empty() => return bad(&format!("text in {}", e.name)),
      _ => {},
    }
  }
  Ok(v)
}
fn one(e: &X) -> Y<&X> {
  let v = els(e)?;
  if v.len() == 1 { Ok(v[0]) } else { bad(&format!("{} elements in {}", v.len(), e.name)) }
}
fn none(e: &X) -> Y<()> {
  if els(e)?.is_empty() { Ok(()) } else { bad(&format!("elements in {}", e.name)) }
}
fn simple(e: &X) -> Y<String> {
  match e.kids.as_slice() {
    [] => Ok(String::new()),
    [N::Text(t)] => Ok(t.trim().to_string()),
    k if k.iter().any(|k| matches!(k, N::El(_))) => bad(&format!("elements in {}", e.name)),
    _ => Err(No::Unsure), // comments within a word
  }
}
fn need(e: &X, a: &str) -> Y<String> { e.attr(a).map(str::to_string).map_or_else(|| bad(&format!("{} without {a}", e.name)), Ok) }
fn among(v: String, xs: &[&str], what: &str) -> Y<String> {
  if xs.contains(&v.as_str()) { Ok(v) } else { bad(&format!("{what} {v}")) }
}
fn marker(e: &X) -> Y<Marker> {
  Ok((need(e, "name")?, e.attr("tags").map(|t| t.split(',').map(|s| s.trim().to_string()).collect()).unwrap_or_default()))
}
fn all(e: &X, kind: &str) -> Y<Vec<P>> { els(e)?.into_iter().map(|c| pattern(c, kind)).collect() }
fn sub(e: &X, kind: &str) -> Y<Box<P>> { Ok(Box::new(pattern(one(e)?, kind)?)) }

fn pattern(e: &X, kind: &str) -> Y<P> {
  let what = match e.name.strip_prefix(kind) {
    Some("") => "",
    Some(s) if s.starts_with('_') => &s[1..],
    _ if kind == "seq" && e.name == "phrase" => "phrase",
    _ => return bad(&format!("{} among {kind} patterns", e.name)),
  };
  match (kind, what) {
    (_, "ref") => {
      none(e)?;
      Ok(P::Ref(need(e, "ref")?))
    },
    ("math" | "mtext" | "word", "any") => {
      none(e)?;
      Ok(P::Any)
    },
    ("math" | "word" | "seq", "marker") => Ok(P::Mark(sub(e, kind)?, marker(e)?)),
    ("math" | "mtext" | "pos" | "word", "or") => Ok(P::Or(all(e, kind)?)),
    ("mtext" | "pos" | "word", "not") => Ok(P::Not(sub(e, kind)?)),
    ("mtext", "lit") => {
      none(e)?;
      Ok(P::Lit(need(e, "str")?))
    },
    ("pos", "") => {
      none(e)?;
      let t = need(e, "tag")?;
      if POS::ALL.iter().any(|p| p.1 == t) { Ok(P::Tag(t)) } else { bad("pos tag") }
    },
    ("word", "") => Ok(P::Lit(simple(e)?)),
    ("word", "math") => Ok(P::WordMath(sub(e, "math")?)),
    ("word", "pos") => {
      let (mut pos, mut word) = (None, None);
      for c in els(e)? {
        let twice = if c.name == "pos" {
          pos.replace(sub(c, "pos")?).is_some()
        } else {
          word.replace(Box::new(pattern(c, "word")?)).is_some()
        };
        if twice {
          return bad("two of a kind in word_pos");
        }
      }
      match (pos, word) {
        (Some(p), Some(w)) => Ok(P::WordPos(p, w)),
        _ => bad("incomplete word_pos"),
      }
    },
    ("math", "node") => {
      let (mut mtext, mut children) = (None, None);
      for c in els(e)? {
        match c.name.as_str() {
          "mtext_ref" => {
            none(c)?;
            if mtext.replace(need(c, "ref")?).is_some() {
              return bad("two mtext_ref");
            }
          },
          "math_children" => {
            let t = among(need(c, "match_type")?, &["starts_with", "exact", "ends_with", "arbitrary"], "match_type")?;
            let v = all(c, "math")?;
            if v.is_empty() || children.replace((v, t)).is_some() {
              return bad("no or two children");
            }
          },
          _ => return bad("element in math_node"),
        }
      }
      Ok(P::MathNode(e.attr("name").map(str::to_string), mtext, children))
    },
    ("math", "descendant") => Ok(P::Desc(sub(e, "math")?, among(need(e, "match_type")?, &["first", "at_least_one", "arbitrary"], "match_type")?)),
    ("seq", "word") => Ok(P::SeqWord(sub(e, "word")?)),
    ("seq", "seq") => Ok(P::Seq(all(e, "seq")?)),
    ("seq", "or") => Ok(P::SeqOr(all(e, "seq")?, among(e.attr("match_type").unwrap_or("first").to_string(), &["first", "atleastone", "any", "longest"], "match_type")?)),
    ("seq", "phrase") => {
      let tag = need(e, "tag")?;
      let (mut mt, mut start, mut end) = (None, None, None);
      let mut twice = false;
      let mut unsure = false;
      for c in els(e)? {
        match c.name.as_str() {
          "match_type" => unsure |= mt.replace(among(simple(c)?, &["shortest", "longest"], "match_type")?).is_some(),
          "starts_with_seq" => {
            let cont = among(c.attr("containment").unwrap_or("any").to_string(), &["lessorequal", "any"], "containment")?;
            twice |= start.replace((sub(c, "seq")?, cont)).is_some()
          },
          "ends_with_seq" => twice |= end.replace(sub(c, "seq")?).is_some(),
          _ => return bad("element in phrase"),
        }
      }
      if twice {
        return bad("condition given twice");
      }
      if !Phrase::ALL.iter().any(|p| p.1 == tag) {
        return bad("phrase tag");
      }
      if unsure {
        return Err(No::Unsure);
      }
      Ok(P::Phrase(tag, mt.unwrap_or("longest".into()), start, end))
    },
    _ => bad(&format!("element {}", e.name)),
  }
}

fn meta(e: &X) -> Y<String> {
  let mut d = None;
  for c in els(e)? {
    if c.name != "description" || d.replace(simple(c)?).is_some() {
      return bad("meta");
    }
  }
  Ok(d.unwrap_or_default())
}
fn file(root: &X) -> Y<RFile> {
  // an unsure part makes the file unsure unless another part refuses it
  let mut unsure = false;
  let mut f = RFile { summary: String::new(), rules: vec![] };
  let mut m = None;
  for c in els(root)? {
    if c.name == "meta" {
      match meta(c) {
        Ok(s) => {
          if m.replace(s).is_some() {
            return bad("two metas");
          }
        },
        Err(No::Unsure) => unsure = true,
        Err(e) => return Err(e),
      }
      continue;
    }
    let Some(kind) = c.name.strip_suffix("_rule").filter(|k| ["pos", "math", "mtext", "word", "seq"].contains(k)) else { return bad(&format!("element {}", c.name)) };
    let name = need(c, "name")?;
    let (mut s, mut p) = (None, None);
    for d in els(c)? {
      let twice = if d.name == "meta" {
        match meta(d) {
          Ok(x) => s.replace(x).is_some(),
          Err(No::Unsure) => {
            unsure = true;
            false
          },
          Err(e) => return Err(e),
        }
      } else {
        match pattern(d, kind) {
          Ok(x) => p.replace(x).is_some(),
          Err(No::Unsure) => {
            unsure = true;
            p.replace(P::Any).is_some()
          },
          Err(e) => return Err(e),
        }
      };
      if twice {
        return bad("two of a kind in a rule");
      }
    }
    let Some(p) = p else { return bad("empty rule") };
    if f.get(kind, &name).is_some() {
      return bad("defined twice");
    }
    f.rules.push((kind.into(), name, s.unwrap_or_default(), p));
  }
  f.summary = m.unwrap_or_default();
  for (k, _, _, p) in &f.rules {
    if let Some(n) = dangling(&f, k, p) {
      if !unsure {
        return bad(&format!("reference to undefined {n}"));
      }
    }
  }
  if unsure { Err(No::Unsure) } else { Ok(f) }
}
fn dangling(f: &RFile, kind: &str, p: &P) -> Option<String> {
  let many = |v: &[P]| v.iter().find_map(|p| dangling(f, kind, p));
  match p {
    P::Ref(n) => f.get(kind, n).is_none().then(|| n.clone()),
    P::Or(v) | P::Seq(v) | P::SeqOr(v, _) => many(v),
    P::Not(p) | P::Mark(p, _) | P::Desc(p, _) => dangling(f, kind, p),
    P::Any | P::Lit(_) | P::Tag(_) => None,
    P::WordPos(a, b) => dangling(f, "pos", a).or_else(|| dangling(f, "word", b)),
    P::WordMath(p) => dangling(f, "math", p),
    P::MathNode(_, t, c) => t.as_ref().filter(|t| f.get("mtext", t).is_none()).cloned().or_else(|| c.as_ref().and_then(|c| many(&c.0))),
    P::SeqWord(p) => dangling(f, "word", p),
    P::Phrase(_, _, s, e) => s.as_ref().and_then(|s| dangling(f, kind, &s.0)).or_else(|| e.as_ref().and_then(|e| dangling(f, kind, e))),
  }
}

/* ------------------------------------------------------------------ loaded rules, described */

fn describe(f: &PatternFile) -> (String, Vec<String>) {
  let mut v = Vec::new();
  let line = |k: &str, name: &str, s: &str| format!("{k} {name:?} {s:?}");
  for (name, i) in &f.pos_rule_names {
    v.push(line("pos", name, f.pos_rules[*i].description.get_summary()));
  }
  for (name, i) in &f.math_rule_names {
    v.push(line("math", name, f.math_rules[*i].description.get_summary()));
  }
  for (name, i) in &f.mtext_rule_names {
    v.push(line("mtext", name, f.mtext_rules[*i].description.get_summary()));
  }
  for (name, i) in &f.word_rule_names {
    v.push(line("word", name, f.word_rules[*i].description.get_summary()));
  }
  for (name, i) in &f.sequence_rule_names {
    v.push(line("seq", name, f.sequence_rules[*i].description.get_summary()));
  }
  v.sort();
  (f.description.get_summary().to_string(), v)
}
fn describe_ref(f: &RFile) -> (String, Vec<String>) {
  let mut v: Vec<String> = f.rules.iter().map(|(k, n, s, _)| format!("{k} {n:?} {s:?}")).collect();
  v.sort();
  (f.summary.clone(), v)
}

/* ------------------------------------------------------------------ generating rules */

const KINDS: [&str; 5] = ["pos", "mtext", "math", "word", "seq"];
struct Gen<'a> {
  words: &'a [String],
  tags: &'a [POS],
  phrases: &'a [Phrase],
  /// how many rules of each kind
  count: [usize; 5],
  /// no marker below this one
  markers: bool,
  text_only: bool,
  math_only: bool,
  /// what the rules will be matched against: some patterns are derived from it, so that they match
  subject: Option<Subject<'a>>,
}
struct Subject<'a> {
  snap: &'a Snap,
  /// where the matching of each formula starts
  tops: Vec<usize>,
  words: &'a [(usize, usize, String, POS)],
  phrases: &'a [(Phrase, usize, usize)],
}
/// where the matching of a formula starts: its first element, or the first element of its semantics
fn top_of(snap: &Snap, math: usize) -> Option<usize> {
  if snap.nodes[math].name != "math" || snap.nodes[math].kind != Kind::Element {
    return None;
  }
  let first = |i: usize| snap.nodes[i].children.iter().copied().find(|c| snap.nodes[*c].kind == Kind::Element);
  let top = first(math)?;
  if snap.nodes[top].name == "semantics" { first(top) } else { Some(top) }
}
const NAMES: [&str; 6] = ["identifier", "indefinite article", "r", "ε-rule", "a", "  b "];
fn rule_name(i: usize) -> String { NAMES.get(i).map_or_else(|| format!("rule {i}"), |n| n.to_string()) }
const MNAMES: &[&str] = &["mi", "mo", "mn", "mrow", "msub", "msup"];
const MTEXTS: &[&str] = &["x", "y", "∈", "<", "…", "1", "", " x"];
impl Gen<'_> {
  /// a reference to a rule below `lim`; rules of a kind refer to earlier ones unless something has
  /// been consumed
  fn reference(&self, r: &mut Rng, kind: usize, lim: usize) -> Option<X> {
    if lim == 0 {
      return None;
    }
    Some(x(&format!("{}_ref", KINDS[kind]), &[("ref", &rule_name(r.below(lim)))], vec![]))
  }
  fn mark(&self, r: &mut Rng, kind: &str, inner: X) -> X {
    let mut e = x(&format!("{kind}_marker"), &[("name", r.pick(&["identifier", "m1", "m2", "é", "x y"]))], vec![inner]);
    if r.chance(1, 2) {
      e.attrs.push(("tags".into(), r.pick(&["math", "a,b", " a , b c,d ", "a,a", "ü"]).to_string()));
    }
    e
  }
  fn pos(&self, r: &mut Rng, d: usize, lim: usize) -> X {
    let tag = |r: &mut Rng| if r.chance(3, 4) && !self.tags.is_empty() { *r.pick(self.tags) } else { r.pick(POS::ALL).0 };
    match if d == 0 { 0 } else { r.below(8) } {
      0..=3 => x("pos", &[("tag", tag(r).to_str())], vec![]),
      4 => x("pos_not", &[], vec![self.pos(r, d - 1, lim)]),
      5 | 6 => x("pos_or", &[], (0..r.below(4)).map(|_| self.pos(r, d - 1, lim)).collect()),
      _ => self.reference(r, 0, lim).unwrap_or_else(|| x("pos", &[("tag", tag(r).to_str())], vec![])),
    }
  }
  fn mtext(&self, r: &mut Rng, d: usize, lim: usize) -> X {
    match if d == 0 { r.below(3) } else { r.below(8) } {
      0..=2 => x("mtext_lit", &[("str", r.pick(MTEXTS))], vec![]),
      3 => x("mtext_any", &[], vec![]),
      4 => x("mtext_not", &[], vec![self.mtext(r, d - 1, lim)]),
      5 | 6 => x("mtext_or", &[], (0..r.below(4)).map(|_| self.mtext(r, d - 1, lim)).collect()),
      _ => self.reference(r, 1, lim).unwrap_or_else(|| x("mtext_any", &[], vec![])),
    }
  }
  fn math(&self, r: &mut Rng, d: usize, lim: usize) -> X {
    match if d == 0 { r.below(3) } else { r.below(14) } {
      0 => x("math_any", &[], vec![]),
      1..=6 => {
        let mut kids = Vec::new();
        if self.count[1] > 0 && r.chance(1, 3) {
          kids.push(self.reference(r, 1, self.count[1]).unwrap());
        }
        if d > 0 && r.chance(1, 2) {
          let t = *r.pick(&["starts_with", "exact", "ends_with", "arbitrary"]);
          let n = r.range(1, 3);
          // below a node, recursion is well-founded
          let c = (0..n).map(|_| self.math(r, d - 1, self.count[2])).collect();
          kids.push(x("math_children", &[("match_type", t)], c));
          r.shuffle(&mut kids);
        }
        let mut e = x("math_node", &[], kids);
        if r.chance(2, 3) {
          e.attrs.push(("name".into(), r.pick(MNAMES).to_string()));
        }
        e
      },
      7 | 8 => x("math_or", &[], (0..r.below(4)).map(|_| self.math(r, d - 1, lim)).collect()),
      9 | 10 => x("math_descendant", &[("match_type", r.pick(&["first", "at_least_one", "arbitrary"]))], vec![self.math(r, d - 1, lim)]),
      11 | 12 => {
        let inner = self.math(r, d - 1, lim);
        if self.markers { self.mark(r, "math", inner) } else { inner }
      },
      _ => self.reference(r, 2, lim).unwrap_or_else(|| x("math_any", &[], vec![])),
    }
  }
  /// a pattern that matches node `i`, most of the time
  fn derived_math(&self, r: &mut Rng, i: usize, d: usize) -> X {
    let s = self.subject.as_ref().unwrap();
    let n = &s.snap.nodes[i];
    if d == 0 || r.chance(1, 16) {
      return match r.below(4) {
        0 => x("math_any", &[], vec![]),
        1 => self.math(r, 0, 0),
        _ => x("math_node", &[("name", &n.name)], vec![]),
      };
    }
    let elements: Vec<usize> = n.children.iter().copied().filter(|c| s.snap.nodes[*c].kind == Kind::Element).collect();
    let e = match r.below(12) {
      0 => {
        let mut v = vec![self.derived_math(r, i, d - 1)];
        for _ in 0..r.below(3) {
          v.push(self.math(r, 1, 0));
        }
        r.shuffle(&mut v);
        x("math_or", &[], v)
      },
      1 | 2 if !elements.is_empty() => {
        // late descendants, rather
        let end = s.snap.subtree_end(i);
        let below: Vec<usize> = (i..end).filter(|j| s.snap.nodes[*j].kind == Kind::Element).collect();
        let at = below.len() - 1 - if r.chance(1, 2) { r.below(below.len().min(4)) } else { r.below(below.len()) };
        let inner = self.derived_math(r, below[at], d - 1);
        x("math_descendant", &[("match_type", r.pick(&["first", "at_least_one", "arbitrary"]))], vec![inner])
      },
      _ => {
        let mut kids = Vec::new();
        if self.count[1] > 0 && elements.is_empty() && r.chance(1, 3) {
          kids.push(self.reference(r, 1, self.count[1]).unwrap());
        }
        if !elements.is_empty() && r.chance(5, 6) {
          let len = elements.len();
          let (t, a, w) = match r.below(6) {
            0 if len < 12 => ("exact", 0, len),
            1 => ("starts_with", 0, r.range(1, len.min(5))),
            2 | 3 => {
              let w = r.range(1, len.min(5));
              ("ends_with", len - w, w)
            },
            _ => {
              let w = r.range(1, len.min(4));
              ("arbitrary", if r.chance(1, 2) { len - w - r.below(len - w + 1).min(r.below(9)) } else { r.below(len - w + 1) }, w)
            },
          };
          let mut c: Vec<X> = elements[a..a + w].iter().map(|k| self.derived_math(r, *k, d - 1)).collect();
          if r.chance(1, 10) {
            // off by a bit
            match r.below(3) {
              0 => c.push(self.math(r, 0, 0)),
              1 if c.len() > 1 => drop(c.pop()),
              _ => {
                let at = r.below(c.len());
                c[at] = self.math(r, 1, 0);
              },
            }
          }
          kids.push(x("math_children", &[("match_type", t)], c));
        }
        r.shuffle(&mut kids);
        let mut e = x("math_node", &[], kids);
        if r.chance(5, 6) {
          e.attrs.push(("name".into(), n.name.clone()));
        }
        e
      },
    };
    if self.markers && r.chance(1, 3) { self.mark(r, "math", e) } else { e }
  }
  fn derived_word(&self, r: &mut Rng, w: usize) -> X {
    let s = self.subject.as_ref().unwrap();
    let (_, _, text, tag) = &s.words[w];
    let e = match r.below(8) {
      0 => x("word_any", &[], vec![]),
      1 if *tag != POS::NOT_SET => {
        let mut k = vec![x("pos", &[], vec![x("pos", &[("tag", tag.to_str())], vec![])]), self.derived_word(r, w)];
        r.shuffle(&mut k);
        x("word_pos", &[], k)
      },
      2 => {
        let mut k = vec![self.word(r, 0, 0), self.derived_word(r, w)];
        r.shuffle(&mut k);
        x("word_or", &[], k)
      },
      3 => x("word_not", &[], vec![self.word(r, 0, 0)]),
      _ => xt("word", text),
    };
    if self.markers && r.chance(1, 3) { self.mark(r, "word", e) } else { e }
  }
  /// consecutive words and phrases of the sentence
  fn derived_seq(&self, r: &mut Rng) -> X {
    let s = self.subject.as_ref().unwrap();
    let mut at = r.below(s.words.len());
    let mut v = Vec::new();
    for _ in 0..r.range(1, 6) {
      if at >= s.words.len() {
        break;
      }
      let here: Vec<&(Phrase, usize, usize)> = s.phrases.iter().filter(|p| p.1 == at).collect();
      let (e, next) = if !here.is_empty() && r.chance(1, 3) {
        let p = *r.pick(&here);
        let mut kids = Vec::new();
        if r.chance(1, 2) {
          let w = self.derived_word(r, at);
          let mut c = x("starts_with_seq", &[], vec![x("seq_word", &[], vec![w])]);
          if r.chance(2, 3) {
            c.attrs.push(("containment".into(), r.pick(&["lessorequal", "any"]).to_string()));
          }
          kids.push(c);
        }
        if r.chance(1, 2) {
          let w = self.derived_word(r, p.2);
          kids.push(x("ends_with_seq", &[], vec![x("seq_word", &[], vec![w])]));
        }
        if r.chance(2, 3) {
          kids.push(xt("match_type", r.pick(&["shortest", "longest"])));
        }
        r.shuffle(&mut kids);
        (x("phrase", &[("tag", p.0.to_str())], kids), p.2 + 1)
      } else {
        let w = self.derived_word(r, at);
        (x("seq_word", &[], vec![w]), at + 1)
      };
      v.push(if self.markers && r.chance(1, 4) { self.mark(r, "seq", e) } else { e });
      at = next;
    }
    if r.chance(1, 4) {
      let mut k = vec![x("seq_seq", &[], v), self.seq(r, 0, 0)];
      r.shuffle(&mut k);
      return x("seq_or", &[("match_type", r.pick(&["first", "atleastone", "any", "longest"]))], k);
    }
    x("seq_seq", &[], v)
  }
  fn word_math(&self, r: &mut Rng, d: usize) -> X {
    let m = match &self.subject {
      Some(s) if !s.tops.is_empty() && r.chance(2, 5) => {
        let top = *r.pick(&s.tops);
        self.derived_math(r, top, d + 1)
      },
      _ => self.math(r, d, self.count[2]),
    };
    x("word_math", &[], vec![m])
  }
  fn word(&self, r: &mut Rng, d: usize, lim: usize) -> X {
    if self.math_only && r.chance(2, 3) {
      return self.word_math(r, d + 1);
    }
    let lit = |r: &mut Rng| {
      let w = if r.chance(4, 5) && !self.words.is_empty() { r.pick(self.words).clone() } else { r.pick(&["let", "Let", "x", "", "a b"]).to_string() };
      let pad = *r.pick(&["", "", "", " ", "\n"]);
      xt("word", &format!("{pad}{w}{pad}"))
    };
    match if d == 0 { r.below(4) } else { r.below(14) } {
      0..=2 => lit(r),
      3 => x("word_any", &[], vec![]),
      4 | 5 => x("word_or", &[], (0..r.below(4)).map(|_| self.word(r, d - 1, lim)).collect()),
      6 | 7 => {
        let mut k = vec![x("pos", &[], vec![self.pos(r, 2, self.count[0])]), self.word(r, d - 1, lim)];
        r.shuffle(&mut k);
        x("word_pos", &[], k)
      },
      8 => x("word_not", &[], vec![self.word(r, d - 1, lim)]),
      9 | 10 => {
        let inner = self.word(r, d - 1, lim);
        if self.markers { self.mark(r, "word", inner) } else { inner }
      },
      11 if !self.text_only => self.word_math(r, d),
      _ => self.reference(r, 3, lim).unwrap_or_else(|| lit(r)),
    }
  }
  fn seq(&self, r: &mut Rng, d: usize, lim: usize) -> X {
    match if d == 0 { 0 } else { r.below(14) } {
      0..=3 => {
        let w = self.word(r, d.min(2), self.count[3]);
        x("seq_word", &[], vec![w])
      },
      4 | 5 => {
        let n = r.below(4);
        let mut v: Vec<X> = Vec::new();
        for i in 0..n {
          if i == 0 && r.chance(1, 2) {
            // something is consumed: later parts may recur
            v.push(x("seq_word", &[], vec![self.word(r, 1, self.count[3])]));
          } else {
            let consumed = v.first().is_some_and(|f| f.name == "seq_word");
            let l = if consumed && r.chance(1, 2) { self.count[4] } else { lim };
            v.push(self.seq(r, d - 1, l));
          }
        }
        x("seq_seq", &[], v)
      },
      6 | 7 => {
        let mut e = x("seq_or", &[], (0..r.range(if d > 1 { 0 } else { 1 }, 3)).map(|_| self.seq(r, d - 1, lim)).collect());
        if r.chance(4, 5) {
          e.attrs.push(("match_type".into(), r.pick(&["first", "atleastone", "any", "longest"]).to_string()));
        }
        e
      },
      8 | 9 => {
        let tag = if r.chance(4, 5) && !self.phrases.is_empty() { *r.pick(self.phrases) } else { r.pick(Phrase::ALL).0 };
        let mut kids = Vec::new();
        if r.chance(1, 2) {
          kids.push(xt("match_type", r.pick(&["shortest", " shortest\n", "longest"])));
        }
        if r.chance(1, 2) {
          let mut s = x("starts_with_seq", &[], vec![self.seq(r, d - 1, lim)]);
          if r.chance(2, 3) {
            s.attrs.push(("containment".into(), r.pick(&["lessorequal", "lessorequal", "any"]).to_string()));
          }
          kids.push(s);
        }
        if r.chance(1, 3) {
          kids.push(x("ends_with_seq", &[], vec![self.seq(r, d - 1, lim)]));
        }
        r.shuffle(&mut kids);
        x("phrase", &[("tag", tag.to_str())], kids)
      },
      10 | 11 => {
        let inner = self.seq(r, d - 1, lim);
        if self.markers { self.mark(r, "seq", inner) } else { inner }
      },
      _ => self.reference(r, 4, lim).unwrap_or_else(|| x("seq_word", &[], vec![x("word_any", &[], vec![])])),
    }
  }
  fn file(&self, r: &mut Rng, depth: usize, heavy: bool) -> X {
    let mut rules = Vec::new();
    for (k, kind) in KINDS.iter().enumerate() {
      for i in 0..self.count[k] {
        let d = r.range(0, depth);
        let p = match k {
          0 => self.pos(r, d, i),
          1 => self.mtext(r, d, i),
          2 => self.math(r, d, i),
          3 => self.word(r, d, i),
          _ => {
            let p = if !self.math_only && self.subject.as_ref().is_some_and(|s| !s.words.is_empty()) && r.chance(1, 3) { self.derived_seq(r) } else { self.seq(r, d, i) };
            // a match without markers is silent
            if r.chance(9, 10) { self.mark(r, "seq", p) } else { p }
          },
        };
        let mut e = x(&format!("{kind}_rule"), &[("name", &rule_name(i))], vec![p]);
        if r.chance(1, 5) {
          let m = x("meta", &[], if r.chance(1, 5) { vec![] } else { vec![xt("description", r.pick(&["about", " padded \n text ", "<&>", "é"]))] });
          let at = r.below(2);
          e.kids.insert(at, N::El(m));
        }
        rules.push(e);
      }
    }
    r.shuffle(&mut rules);
    if r.chance(1, 3) {
      let at = r.below(rules.len() + 1);
      rules.insert(at, x("meta", &[], vec![xt("description", "the file")]));
    }
    let mut root = x("pattern_file", &[], rules);
    decorate(&mut root, r, heavy);
    tidy(&mut root);
    root
  }
}

fn save(cx: &Cx, k: u64, bytes: &[u8]) -> super::corpus::RemoveFile {
  let p = cx.scratch.join(format!("rules-{}-{k}.xml", std::process::id()));
  std::fs::write(&p, bytes).expect("pattern file");
  super::corpus::RemoveFile(p)
}

/* ------------------------------------------------------------------ C20 */

fn count_els(e: &X) -> usize { 1 + e.kids.iter().map(|k| if let N::El(e) = k { count_els(e) } else { 0 }).sum::<usize>() }
fn nth<'a>(e: &'a mut X, n: &mut usize) -> Option<&'a mut X> {
  if *n == 0 {
    return Some(e);
  }
  *n -= 1;
  for k in &mut e.kids {
    if let N::El(c) = k {
      if let Some(f) = nth(c, n) {
        return Some(f);
      }
    }
  }
  None
}
const ALL_NAMES: &[&str] = &[
  "pos", "pos_not", "pos_or", "pos_ref", "mtext_any", "mtext_or", "mtext_lit", "mtext_not", "mtext_ref", "math_any", "math_ref", "math_or", "math_node", "math_children", "math_descendant", "math_marker",
  "word", "word_any", "word_or", "word_not", "word_ref", "word_pos", "word_math", "word_marker", "seq_word", "seq_seq", "seq_or", "seq_ref", "seq_marker", "phrase", "meta", "description", "match_type",
  "starts_with_seq", "ends_with_seq", "pos_rule", "word_rule", "seq_rule", "math_rule", "mtext_rule", "pattern_file", "foo", "Word", "seq", "pos_any", "math_not", "seq_not", "math", "mtext",
];
const ALL_VALUES: &[&str] = &["first", "longest", "shortest", "any", "arbitrary", "exact", "starts_with", "ends_with", "at_least_one", "atleastone", "lessorequal", "NP", "NN", "np", "Exact", "", " any", "undefined rule", "identifier", "r", "POS", "PRP$", "NOT_SET"];

fn edit(root: &mut X, r: &mut Rng) -> String {
  let n = r.below(count_els(root));
  let mut at = n;
  let e = nth(root, &mut at).unwrap();
  let name = e.name.clone();
  let what = match r.below(11) {
    0 if !e.attrs.is_empty() => {
      let i = r.below(e.attrs.len());
      format!("remove {}", e.attrs.remove(i).0)
    },
    1 | 2 if !e.attrs.is_empty() => {
      let i = r.below(e.attrs.len());
      e.attrs[i].1 = r.pick(ALL_VALUES).to_string();
      format!("set {:?}", e.attrs[i])
    },
    3 if n > 0 => {
      e.name = r.pick(ALL_NAMES).to_string();
      format!("rename to {}", e.name)
    },
    4 if !e.kids.is_empty() => {
      let i = r.below(e.kids.len());
      e.kids.remove(i);
      "remove a child".into()
    },
    5 if !e.kids.is_empty() => {
      let i = r.below(e.kids.len());
      let c = e.kids[i].clone();
      let j = r.below(e.kids.len() + 1);
      e.kids.insert(j, c);
      "repeat a child".into()
    },
    6 => {
      let j = r.below(e.kids.len() + 1);
      e.kids.insert(j, N::Text(r.pick(&["stray", " \n ", "\u{a0}", "."]).to_string()));
      "insert text".into()
    },
    7 => {
      let j = r.below(e.kids.len() + 1);
      e.kids.insert(j, N::Comment);
      "insert a comment".into()
    },
    8 => {
      let c = x(r.pick(ALL_NAMES), &[], vec![]);
      let j = r.below(e.kids.len() + 1);
      e.kids.insert(j, N::El(c));
      "insert an element".into()
    },
    9 => {
      let a = *r.pick(&["name", "ref", "match_type", "containment", "tag", "tags", "str", "other"]);
      if e.attr(a).is_none() {
        e.attrs.push((a.into(), r.pick(ALL_VALUES).to_string()));
      }
      format!("add {a}")
    },
    _ if n > 0 => {
      // lift a grandchild
      let inner = e.kids.iter().position(|k| matches!(k, N::El(_)));
      if let Some(N::El(c)) = inner.map(|i| e.kids[i].clone()) {
        *e = c;
      }
      "replace by its child".into()
    },
    _ => "nothing".into(),
  };
  format!("{what} at {name}")
}

fn c20(cx: &mut Cx, k: u64) {
  const EXAMPLE: &str = "/repo/examples/declaration_pattern.xml";
  if k == 0 && std::path::Path::new(EXAMPLE).exists() {
    cx.doing = "the example pattern file".into();
    let f = PatternFile::load(EXAMPLE);
    cx.eval(EXAMPLE, true);
    cx.check(f.as_ref().is_ok_and(|f| f.sequence_rules.len() >= 3 && f.math_rule_names.contains_key("indexed identifier")), "example", || format!("the example file does not load: {:?}", f.err()));
    return;
  }
  let r = &mut cx.rng;
  let words: Vec<String> = ["let", "é", "a<b", "x"].iter().map(|s| s.to_string()).collect();
  let mut count = [0; 5];
  for c in &mut count {
    *c = r.below(4);
  }
  let large = k % 1_000 == 77;
  if large && r.chance(2, 3) {
    count[r.below(5)] = *r.pick(&[20, 70, 300]);
    count[r.below(5)] = *r.pick(&[20, 140, 260]);
  }
  cx.seen("files of many or deep rules", large as u64);
  let r = &mut cx.rng;
  let g = Gen { words: &words, tags: &[], phrases: &[], count, markers: true, text_only: false, math_only: false, subject: None };
  let heavy = r.chance(1, 4);
  let mut root = g.file(r, if large && count.iter().sum::<usize>() < 20 { 9 } else { 4 }, heavy);
  if k % 11 == 1 {
    // not a pattern file at all: any answer but a panic
    let mut s = String::new();
    root.write(&mut s);
    let mut b = s.into_bytes();
    match r.below(7) {
      6 => {
        // entities named like the elements of rules
        for _ in 0..r.range(1, 4) {
          let ends: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'>').collect();
          let i = ends[r.below(ends.len())] + 1;
          b.splice(i..i, r.pick(&["&word;", "&word_or;", "&meta;", "&word_rule;", "&math_or;", "&t;"]).bytes());
        }
        let dtd = b"<!DOCTYPE pattern_file [<!ENTITY word \"<word>x</word>\"><!ENTITY word_or \"<word_or>&word;<word>y</word></word_or>\"><!ENTITY meta \"<description>d</description>\"><!ENTITY word_rule \"<word_rule name='z'><word_any/></word_rule>\"><!ENTITY math_or \"<math_or/>\"><!ENTITY t \"text\">]>";
        let at = if b.starts_with(b"<?xml") { b.iter().position(|c| *c == b'>').unwrap() + 1 } else { 0 };
        b.splice(at..at, dtd.iter().copied());
      },
      0 => b.truncate(r.below(b.len())),
      1 => b = (0..r.below(200)).map(|_| r.next() as u8).collect(),
      2 => {
        for _ in 0..r.range(1, 6) {
          let i = r.below(b.len());
          b[i] = *r.pick(&[b'<', b'>', b'&', b'"', 0, 0xff, b'/', b' ']);
        }
      },
      3 => b = r.pick(&["", "<a/>", "<pattern_file/>", "<?xml version=\"1.0\"?>", "<!DOCTYPE a [<!ENTITY e \"x\">]><a>&e;</a>", "<pattern_file><![CDATA[x]]></pattern_file>", "<pattern_file><?pi x?></pattern_file>", "<x:a/>"]).as_bytes().to_vec(),
      4 => {
        let i = r.below(b.len());
        let j = (i + r.below(40)).min(b.len());
        b.drain(i..j);
      },
      _ => {
        let i = r.below(b.len());
        let piece = *r.pick(&["<![CDATA[word]]>", "<?word_any?>", "&undefined;", "&#0;", "<!DOCTYPE x>", "]]>", "<word_rule name='z'><word/></word_rule>"]);
        b.splice(i..i, piece.bytes());
      },
    }
    cx.doing = format!("loading broken rules {}", clip(&String::from_utf8_lossy(&b), 1500));
    let p = save(cx, k, &b);
    let got = PatternFile::load(&p.0.to_string_lossy());
    cx.eval(&b, false);
    cx.seen("broken files", 1);
    cx.seen("broken files loaded all the same", got.is_ok() as u64);
    return;
  }
  if k % 50 == 2 {
    let d = cx.scratch.clone();
    let missing = d.join(format!("missing-{k}.xml"));
    cx.doing = "loading a missing file and a directory".into();
    cx.check(PatternFile::load(&missing.to_string_lossy()).is_err(), "missing", || "a missing file loads".into());
    cx.check(PatternFile::load(&d.to_string_lossy()).is_err(), "directory", || "a directory loads".into());
  }
  let r = &mut cx.rng;
  let n = if r.chance(1, 4) { 0 } else { r.range(1, 2) };
  let edits: Vec<String> = (0..n).map(|_| edit(&mut root, r)).collect();
  tidy(&mut root);
  let mut s = String::new();
  if r.chance(1, 2) {
    s.push_str("<?xml version=\"1.0\"?>\n");
  }
  root.write(&mut s);
  cx.doing = format!("loading rules ({edits:?}) {}", clip(&s, 1500));
  let want = file(&root);
  let p = save(cx, k, s.as_bytes());
  let got = PatternFile::load(&p.0.to_string_lossy());
  cx.eval(s.as_str(), count.iter().sum::<usize>() >= 3);
  cx.sample(|| format!("{edits:?} {}", clip(&s, 400)));
  match want {
    Ok(f) => {
      cx.seen("accepted files", 1);
      cx.seen("rules loaded", f.rules.len() as u64);
      match got {
        Ok(g) => {
          let (a, b) = (describe(&g), describe_ref(&f));
          cx.check(a == b, "rules", || {
            let j = a.1.iter().zip(&b.1).take_while(|(x, y)| x == y).count();
            format!("loaded {:?} {:?}\nexpected {:?} {:?}\n({edits:?}) {}", a.0, a.1.get(j), b.0, b.1.get(j), clip(&s, 1200))
          });
        },
        Err(e) => cx.fail("refused", format!("a correct file is refused: {e} ({edits:?})\n{}", clip(&s, 1500))),
      }
    },
    Err(No::Bad(why)) => {
      cx.seen("refused files", 1);
      cx.check(got.is_err(), "accepted", || format!("an incorrect file is accepted: {why} ({edits:?})\n{}", clip(&s, 1500)));
    },
    Err(No::Unsure) => cx.seen("files left open", 1),
  }
}

/* ------------------------------------------------------------------ reference interpreter */

#[derive(Clone, PartialEq, Debug)]
enum R {
  Text(usize, usize, Marker, Vec<R>),
  Math(Option<usize>, Marker, Vec<R>),
}
fn count_r(v: &[R]) -> usize {
  v.iter()
    .map(|r| match r {
      R::Text(_, _, _, s) | R::Math(_, _, s) => 1 + count_r(s),
    })
    .sum()
}
struct In<'a> {
  f: &'a RFile,
  words: &'a [(usize, usize, String, POS)],
  /// all phrases: label, first and last word
  phrases: &'a [(Phrase, usize, usize)],
  end: usize,
  snap: &'a Snap,
  /// DOM node of the first character of each word
  node: Vec<Option<usize>>,
  fuel: std::cell::Cell<u64>,
}
impl In<'_> {
  fn tick(&self) -> bool {
    let f = self.fuel.get();
    self.fuel.set(f.saturating_sub(1));
    f > 0
  }
  fn rule(&self, kind: &str, n: &str) -> &P { self.f.get(kind, n).expect("defined") }
  fn pos(&self, p: &P, t: POS) -> bool {
    match p {
      P::Tag(s) => t.to_str() == s,
      P::Not(p) => !self.pos(p, t),
      P::Or(v) => v.iter().any(|p| self.pos(p, t)),
      P::Ref(n) => self.pos(self.rule("pos", n), t),
      _ => unreachable!(),
    }
  }
  fn mtext(&self, p: &P, t: &str) -> bool {
    match p {
      P::Any => true,
      P::Lit(s) => t == s,
      P::Not(p) => !self.mtext(p, t),
      P::Or(v) => v.iter().any(|p| self.mtext(p, t)),
      P::Ref(n) => self.mtext(self.rule("mtext", n), t),
      _ => unreachable!(),
    }
  }
  fn elements(&self, i: usize) -> Vec<usize> {
    self.snap.nodes[i].children.iter().copied().filter(|c| self.snap.nodes[*c].kind == Kind::Element).collect()
  }
  /// the markers of a match, or none
  fn math(&self, p: &P, i: usize) -> Option<Vec<R>> {
    if !self.tick() {
      return None;
    }
    let n = &self.snap.nodes[i];
    match p {
      P::Any => Some(vec![]),
      P::Ref(r) => self.math(self.rule("math", r), i),
      P::Mark(p, m) => Some(vec![R::Math(Some(i), m.clone(), self.math(p, i)?)]),
      P::Or(v) => v.iter().find_map(|p| self.math(p, i)),
      P::MathNode(name, text, children) => {
        if name.as_ref().is_some_and(|x| *x != n.name) {
          return None;
        }
        if let Some(t) = text {
          let content = match n.children.as_slice() {
            [] => "",
            [c] if self.snap.nodes[*c].kind == Kind::Text => self.snap.nodes[*c].content.as_str(),
            _ => return None,
          };
          if !self.mtext(self.rule("mtext", t), content) {
            return None;
          }
        }
        let Some((ps, how)) = children else { return Some(vec![]) };
        let kids = self.elements(i);
        if kids.len() < ps.len() {
          return None;
        }
        let last = kids.len() - ps.len();
        let starts: Vec<usize> = match how.as_str() {
          "exact" => (0..1).filter(|_| last == 0).collect(),
          "starts_with" => vec![0],
          "ends_with" => vec![last],
          _ => (0..=last).collect(),
        };
        starts.into_iter().find_map(|s| {
          let mut out = vec![];
          for (j, p) in ps.iter().enumerate() {
            out.extend(self.math(p, kids[s + j])?);
          }
          Some(out)
        })
      },
      P::Desc(p, how) => {
        let all = i..self.snap.subtree_end(i);
        let hits = all.filter(|j| self.snap.nodes[*j].kind == Kind::Element);
        let mut out = vec![];
        let mut any = false;
        for j in hits {
          if let Some(m) = self.math(p, j) {
            any = true;
            out.extend(m);
            if how == "first" {
              break;
            }
          }
        }
        (any || how == "arbitrary").then_some(out)
      },
      _ => unreachable!(),
    }
  }
  fn word(&self, p: &P, w: usize) -> Option<Vec<R>> {
    if !self.tick() {
      return None;
    }
    let (a, b, s, t) = &self.words[w];
    match p {
      P::Any => Some(vec![]),
      P::Lit(x) => (x == s).then(Vec::new),
      P::Or(v) => v.iter().find_map(|p| self.word(p, w)),
      P::Not(p) => if self.word(p, w).is_some() { None } else { Some(vec![]) },
      P::Ref(r) => self.word(self.rule("word", r), w),
      P::WordPos(p, q) => if self.pos(p, *t) { self.word(q, w) } else { None },
      P::Mark(p, m) => Some(vec![R::Text(*a, *b, m.clone(), self.word(p, w)?)]),
      P::WordMath(p) => {
        let math = self.node[w]?;
        if self.snap.nodes[math].name != "math" || self.snap.nodes[math].kind != Kind::Element {
          return None;
        }
        let mut top = *self.elements(math).first()?;
        if self.snap.nodes[top].name == "semantics" {
          top = *self.elements(top).first()?;
        }
        self.math(p, top)
      },
      _ => unreachable!(),
    }
  }
  /// end of the match and its markers
  fn seq(&self, p: &P, at: usize) -> Option<(usize, Vec<R>)> {
    if !self.tick() {
      return None;
    }
    match p {
      P::Ref(r) => self.seq(self.rule("seq", r), at),
      P::SeqWord(p) => if at < self.words.len() { Some((at + 1, self.word(p, at)?)) } else { None },
      P::Seq(v) => {
        let mut out = vec![];
        let mut cur = at;
        for p in v {
          let (e, m) = self.seq(p, cur)?;
          out.extend(m);
          cur = e;
        }
        Some((cur, out))
      },
      P::Mark(p, m) => {
        let (e, sub) = self.seq(p, at)?;
        let (a, b) = if e > at {
          (self.words[at].0, self.words[e - 1].1)
        } else {
          let o = self.words.get(at).map_or(self.end, |w| w.0);
          (o, o)
        };
        Some((e, vec![R::Text(a, b, m.clone(), sub)]))
      },
      P::SeqOr(v, how) => {
        let hits: Vec<(usize, Vec<R>)> = match how.as_str() {
          "first" => v.iter().find_map(|p| self.seq(p, at)).into_iter().collect(),
          _ => v.iter().filter_map(|p| self.seq(p, at)).collect(),
        };
        if hits.is_empty() {
          return if how == "any" { Some((at, vec![])) } else { None };
        }
        let longest = hits.iter().map(|h| h.0).max().unwrap();
        if how == "longest" {
          // alternatives that consume nothing leave no markers
          if longest == at {
            return Some((at, vec![]));
          }
          return hits.into_iter().find(|h| h.0 == longest);
        }
        Some((longest, hits.into_iter().flat_map(|h| h.1).collect()))
      },
      P::Phrase(label, how, start, end) => {
        let mut ends: Vec<usize> = self.phrases.iter().filter(|p| p.0.to_str() == label && p.1 == at).map(|p| p.2 + 1).collect();
        ends.sort();
        if how == "longest" {
          ends.reverse();
        }
        ends.into_iter().find_map(|e| {
          let mut out = vec![];
          if let Some((p, c)) = start {
            let (x, m) = self.seq(p, at)?;
            if c == "lessorequal" && x > e {
              return None;
            }
            out.extend(m);
          }
          if let Some(p) = end {
            let m = (at..e).find_map(|s| self.seq(p, s).filter(|h| h.0 == e))?;
            out.extend(m.1);
          }
          Some((e, out))
        })
      },
      _ => unreachable!(),
    }
  }
}

fn observed(m: &Match, s: &Snap) -> R {
  let sub = m.sub_matches.iter().map(|m| observed(m, s)).collect();
  match &m.marker {
    MarkerEnum::Text(t) => R::Text(t.range.start, t.range.end, (t.marker.name.clone(), t.marker.tags.clone()), sub),
    MarkerEnum::Math(t) => R::Math(s.idx(t.node), (t.marker.name.clone(), t.marker.tags.clone()), sub),
  }
}
fn flatten<'a>(r: &'a R, out: &mut Vec<(&'a Marker, usize, usize)>) {
  match r {
    R::Text(a, b, m, s) => {
      out.push((m, *a, *b));
      s.iter().for_each(|r| flatten(r, out));
    },
    R::Math(i, m, s) => {
      out.push((m, i.map_or(usize::MAX, |i| i), usize::MAX));
      s.iter().for_each(|r| flatten(r, out));
    },
  }
}

/* ------------------------------------------------------------------ sentences */

fn formula(r: &mut Rng, d: usize, out: &mut String) {
  let name = *r.pick(MNAMES);
  let leaf = d == 0 || name == "mi" || name == "mo" || name == "mn";
  out.push_str(&format!("<{name}>"));
  if r.chance(1, 12) {
    out.push_str(r.pick(&["<!-- c -->", "<?mi?>", "<![CDATA[x]]>"]));
  }
  if leaf {
    out.push_str(&gen::escape(r.pick(MTEXTS)));
  } else {
    for _ in 0..r.below(4) {
      formula(r, d - 1, out);
      if r.chance(1, 5) {
        out.push_str(r.pick(&["\n", " ", "<!-- x -->", "text", "<?p i?>", "<![CDATA[mi]]>", "&e;", "&f;"]));
      }
    }
  }
  out.push_str(&format!("</{name}>"));
}
/// many children, or deep nesting
fn large_formula(r: &mut Rng) -> String {
  let mut s = "<math><mrow>".to_string();
  let n = *r.pick(&[20, 70, 300]);
  if r.chance(1, 2) {
    for _ in 0..n {
      formula(r, 1, &mut s);
    }
  } else {
    let d = n.min(100);
    s.push_str(&"<mrow>".repeat(d));
    formula(r, 1, &mut s);
    s.push_str(&"</mrow>".repeat(d));
  }
  s + "</mrow></math>"
}
fn math_element(r: &mut Rng) -> String {
  let mut s = "<math>".to_string();
  if r.chance(1, 8) {
    s.push_str(r.pick(&["\n", "<!-- c -->", "<?mrow?>", "&f;"]));
  }
  match r.below(8) {
    0 => s.push_str(r.pick(&["", "x", "<semantics/>", "<semantics>x</semantics>"])),
    1..=3 => {
      s.push_str("<semantics>");
      if r.chance(1, 4) {
        s.push('\n');
      }
      formula(r, 3, &mut s);
      s.push_str("<annotation>x</annotation></semantics>");
    },
    _ => {
      formula(r, 3, &mut s);
      if r.chance(1, 5) {
        formula(r, 1, &mut s);
      }
    },
  }
  s + "</math>"
}
const VOCAB: &[&str] = &["let", "Let", "be", "a", "the", "x", "set", "é", "日本", "straße", "ﬁn", "such", "that", "İx", "𝔸", "<", "-"];

struct Case {
  _doc: Document,
  src: String,
  dnm: DNM,
  span: (usize, usize),
}
/// many children, one of them of its own kind, most often late
fn wide_formula(r: &mut Rng) -> String {
  let n = *r.pick(&[3, 9, 17, 33, 65, 70, 129, 300]) + r.below(3);
  let at = if r.chance(2, 3) { n - 1 - r.below(n.min(8)) } else { r.below(n) };
  let mut s = "<math><mrow>".to_string();
  for i in 0..n {
    s.push_str(if i == at { "<msub><mi>x</mi><mn>1</mn></msub>" } else if r.chance(1, 40) { "<mo>&lt;</mo>" } else { "<mi>y</mi>" });
  }
  s + "</mrow></math>"
}
fn sentence_doc(r: &mut Rng, math: bool, text: bool, large: bool) -> Case {
  let mut s = "<!DOCTYPE html [<!ENTITY e \"E\"><!ENTITY f \"<mi>z</mi> &e;\"><!ENTITY g \"<mo>g</mo>\">]><html><body><p>".to_string();
  if r.chance(1, 3) {
    s.push_str("é before. ");
  }
  let n = if large { *r.pick(&[30, 140, 300]) } else { r.range(1, 8) };
  for _ in 0..n {
    if math && r.chance(1, 60) {
      s.push_str(&wide_formula(r));
    } else if large && math && r.chance(1, 40) {
      s.push_str(&large_formula(r));
    } else if math && (!text || r.chance(1, 4)) {
      s.push_str(&math_element(r));
    } else if r.chance(1, 10) {
      s.push_str("<cite>x</cite>");
    } else {
      s.push_str(&gen::escape(r.pick(VOCAB)));
    }
    s.push_str(r.pick(&[" ", " ", " ", ", ", "\n", "-", "é"]));
  }
  s.push_str("</p></body></html>");
  let doc = gen::parse(&s);
  let mut p = DNMParameters::llamapun_normalization();
  match r.below(4) {
    0 => p.convert_to_lowercase = true,
    1 => p.normalize_unicode = !p.normalize_unicode,
    2 => p.normalize_unicode = false,
    _ => {},
  }
  if r.chance(1, 8) {
    p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Normalize("xé".into()));
  }
  if r.chance(1, 12) {
    p.special_tag_name_options.insert("math".into(), SpecialTagsOption::Enter);
  }
  p.support_back_mapping = true;
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  let len = dnm.plaintext.chars().count();
  let span = if r.chance(1, 3) && len > 2 {
    let a = r.below(len / 2);
    (a, len - r.below((len - a) / 3 + 1))
  } else {
    (0, len)
  };
  Case { _doc: doc, src: s, dnm, span }
}
/// any analysis a parser might deliver: words, tags and a tree over the words
fn analyse(r: &mut Rng, c: &Case, most: usize) -> (Vec<(usize, usize, String, POS)>, Option<PSGNode>, Vec<(Phrase, usize, usize)>) {
  let chars: Vec<char> = c.dnm.plaintext.chars().collect();
  let tags = [POS::DT, POS::NN, POS::VB, POS::NNP, POS::NOT_SET];
  let mut words = Vec::new();
  let mut i = c.span.0;
  while i < c.span.1 && words.len() < most {
    if chars[i].is_whitespace() {
      i += 1;
      continue;
    }
    let st = i;
    let alnum = chars[i].is_alphanumeric();
    i += 1;
    while alnum && i < c.span.1 && chars[i].is_alphanumeric() {
      i += 1;
    }
    words.push((st, i, chars[st..i].iter().collect::<String>(), *r.pick(&tags)));
  }
  let mut phrases = Vec::new();
  let root = if words.is_empty() {
    None
  } else {
    Some(tree(r, 0, words.len(), if most > 9 { 14 } else { 4 }, &mut phrases))
  };
  (words, root, phrases)
}
fn tree(r: &mut Rng, a: usize, b: usize, d: usize, out: &mut Vec<(Phrase, usize, usize)>) -> PSGNode {
  let label = *r.pick(&[Phrase::NP, Phrase::NP, Phrase::VP, Phrase::S]);
  out.push((label, a, b - 1));
  let mut children = Vec::new();
  let mut i = a;
  while i < b {
    let whole = i == a;
    if d > 0 && r.chance(1, 2) {
      let e = if whole && r.chance(1, 5) { b } else { r.range(i + 1, b) };
      children.push(tree(r, i, e, d - 1, out));
      i = e;
    } else {
      children.push(PSGNode::Leaf(i));
      i += 1;
    }
  }
  PSGNode::Parent(PSGParentContent { label, children })
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
  Text,
  Math,
  Markers,
}
fn run(cx: &mut Cx, k: u64, mode: Mode) {
  let r = &mut cx.rng;
  let (with_math, with_text) = (mode != Mode::Text || r.chance(1, 4), mode != Mode::Math || r.chance(1, 4));
  // now and then long sentences, large formulas, many rules, deep rules
  let large = k % 2_000 == 77;
  let case = sentence_doc(r, with_math, with_text, large);
  let (words, root, phrases) = analyse(r, &case, if large { 400 } else { 9 });
  let vocab: Vec<String> = words.iter().map(|w| w.2.clone()).filter(|w| !w.trim().is_empty()).collect();
  let tags: Vec<POS> = words.iter().map(|w| w.3).filter(|t| *t != POS::NOT_SET).collect();
  let labels: Vec<Phrase> = phrases.iter().map(|p| p.0).collect();
  let snap = Snap::new(case.dnm.root_node);
  let node: Vec<Option<usize>> = words.iter().map(|w| snap.idx(case.dnm.back_map[w.0].0)).collect();
  let tops: Vec<usize> = node.iter().flatten().filter_map(|n| top_of(&snap, *n)).collect();
  let count = match mode {
    _ if large && r.chance(1, 2) => [*r.pick(&[2, 40, 300]), *r.pick(&[2, 40, 300]), *r.pick(&[3, 40, 300]), *r.pick(&[3, 40, 300]), *r.pick(&[4, 40, 300])],
    Mode::Text => [r.below(3), 0, 0, r.below(4), r.range(1, 4)],
    Mode::Math => [0, r.below(3), r.range(1, 4), r.below(2), r.range(1, 2)],
    Mode::Markers => [r.below(2), r.below(2), r.below(3), r.below(3), r.range(1, 4)],
  };
  let g = Gen { words: &vocab, tags: &tags, phrases: &labels, count, markers: mode != Mode::Text || r.chance(1, 2), text_only: mode == Mode::Text, math_only: mode == Mode::Math, subject: Some(Subject { snap: &snap, tops, words: &words, phrases: &phrases }) };
  let depth = if large && count[4] < 5 { r.range(4, 8) } else { 4 };
  let rules = g.file(r, depth, false);
  let mut xml = String::new();
  rules.write(&mut xml);
  let Ok(f) = file(&rules) else { panic!("generated rules are not correct: {xml}") };
  let name = rule_name(r.below(count[4]));
  let _guard = save(cx, k, xml.as_bytes());
  cx.doing = format!("matching {name:?} of {}\non {}", clip(&xml, 1500), clip(&case.src, 800));
  let pf = match PatternFile::load(&_guard.0.to_string_lossy()) {
    Ok(f) => f,
    Err(e) => {
      cx.fail("load", format!("rules are refused: {e}\n{}", clip(&xml, 1500)));
      return;
    },
  };
  let range = DNMRange { start: case.span.0, end: case.span.1, dnm: &case.dnm };
  let text = range.get_plaintext().to_string();
  let chars: Vec<char> = case.dnm.plaintext.chars().collect();
  let byte = |c: usize| chars[case.span.0..c].iter().map(|c| c.len_utf8()).sum::<usize>();
  let ws: Vec<Word> = words
    .iter()
    .enumerate()
    .map(|(i, w)| Word { string: &text[byte(w.0)..byte(w.1)], offset_start: byte(w.0), offset_end: byte(w.1), pos: w.3, index: i as u32 })
    .collect();
  let mut sentence = Sentence { string: &text, words: ws, psgroot: root };
  let it = In { f: &f, words: &words, phrases: &phrases, end: case.span.1, snap: &snap, node, fuel: std::cell::Cell::new(if large { 600_000 } else { 60_000 }) };
  let top = f.get("seq", &name).unwrap();
  if sentence.psgroot.is_none() {
    let got = match_sentence(&pf, &sentence, &range, &name);
    cx.check(got.is_err(), "no-tree", || "a sentence without a syntax tree is matched".into());
    return;
  }
  let mut want: Vec<R> = Vec::new();
  let mut hits = 0;
  for at in 0..words.len() {
    if let Some((_, m)) = it.seq(top, at) {
      hits += 1;
      want.extend(m);
    }
  }
  if it.fuel.get() == 0 {
    cx.seen("too costly to interpret", 1);
    return;
  }
  let got = match_sentence(&pf, &sentence, &range, &name);
  let n = count_r(&want);
  cx.seen("large sentences, formulas or rule files", large as u64);
  cx.seen("sentences matched", (hits > 0) as u64);
  cx.seen("matches", hits);
  cx.seen("markers", n as u64);
  cx.sample(|| format!("{} against {:?}: {n} markers", clip(&xml, 300), clip(&text, 150)));
  let choice = ["seq_seq", "seq_or", "phrase", "word_or", "word_not", "word_pos"].iter().any(|s| xml.contains(s));
  let nt = match mode {
    Mode::Text => hits > 0 && choice,
    Mode::Math => hits > 0 && (hits as usize) < words.len() && xml.contains("math_"),
    Mode::Markers => n >= 2,
  };
  cx.eval(&(xml.as_str(), case.src.as_str(), hash_of(&format!("{words:?}{phrases:?}"))), nt);
  let context = || format!("words {:?}\nphrases {phrases:?}\nrule {name:?} of {}\non {}", words.iter().map(|w| (w.0, w.1, &w.2, w.3)).collect::<Vec<_>>(), clip(&xml, 1500), clip(&case.src, 600));
  match &got {
    Ok(v) => {
      let seen: Vec<R> = v.iter().map(|m| observed(m, &snap)).collect();
      if cx.check(seen == want, "matches", || {
        let j = seen.iter().zip(&want).take_while(|(a, b)| a == b).count();
        format!("{} matches, expected {}; number {j} is {:?}\nexpected {:?}\n{}", seen.len(), want.len(), seen.get(j), want.get(j), context())
      }) && mode == Mode::Markers
      {
        for (m, w) in v.iter().zip(&want) {
          let list = m.get_marker_list();
          let mut flat = Vec::new();
          flatten(w, &mut flat);
          let got: Vec<(Marker, usize, usize)> = list
            .iter()
            .map(|m| match m {
              MarkerEnum::Text(t) => ((t.marker.name.clone(), t.marker.tags.clone()), t.range.start, t.range.end),
              MarkerEnum::Math(t) => ((t.marker.name.clone(), t.marker.tags.clone()), snap.idx(t.node).unwrap_or(usize::MAX), usize::MAX),
            })
            .collect();
          let same = got.len() == flat.len() && got.iter().zip(&flat).all(|(a, b)| a.0 == *b.0 && a.1 == b.1 && a.2 == b.2);
          cx.check(same, "marker-list", || format!("marker list {got:?}, expected {flat:?}\n{}", context()));
        }
        // the text of a marker is the text of its words
        for m in v {
          for mk in m.get_marker_list() {
            if let MarkerEnum::Text(t) = mk {
              let want: String = chars[t.range.start..t.range.end].iter().collect();
              cx.check(t.range.get_plaintext() == want, "marker-text", || format!("marker text {:?}, expected {want:?}\n{}", t.range.get_plaintext(), context()));
            }
          }
        }
      }
    },
    Err(e) => cx.fail("error", format!("matching fails: {e}\n{}", context())),
  }
  if k % 16 == 0 {
    let missing = match_sentence(&pf, &sentence, &range, "no such rule");
    cx.check(missing.is_err(), "unknown-rule", || "an unknown rule is matched".into());
    sentence.psgroot = if k % 32 == 0 { None } else { Some(PSGNode::Leaf(0)) };
    let got = match_sentence(&pf, &sentence, &range, &name);
    cx.check(got.is_err(), "no-tree", || "a sentence without a syntax tree is matched".into());
    cx.seen("errors provoked", 2);
  }
}
fn c21(cx: &mut Cx, k: u64) { run(cx, k, Mode::Text) }
fn c22(cx: &mut Cx, k: u64) { run(cx, k, Mode::Math) }
fn c23(cx: &mut Cx, k: u64) { run(cx, k, Mode::Markers) }
