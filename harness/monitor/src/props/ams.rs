//! C24, C25, C26: headings, AMS classes, word normalization.
use super::{Spec, BASE};
use crate::cx::{clip, Cx, Rng};
use crate::gen::{self, Snap};
use libxml::xpath::Context;
use llamapun::ams::{class_to_env, has_markup_xmldoc, normalize_env, AmsEnv, StructuralEnv};
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::tokenizer::Tokenizer;
use llamapun::util::data_helpers::{ams_normalize_word_range, heading_from_node_aux, normalize_heading_title, LexicalOptions};

pub fn specs() -> Vec<Spec> {
  vec![
    Spec { id: "C24", run: c24, rule: "distinct headings of at least two words from which something is removed or which name a category", quick: 300_000, ..BASE },
    Spec { id: "C25", run: c25, rule: "distinct class attributes (or documents) that name an ltx_theorem environment", quick: 600_000, ..BASE },
    Spec { id: "C26", run: c26, rule: "distinct words with options in which a special class (number, formula, citation, overlong) or a removed character occurs", quick: 50_000, ..BASE },
  ]
}

/* ------------------------------------------------------------------ C24 */

const ENVS: &[(StructuralEnv, &str)] = {
  use StructuralEnv::*;
  &[
    (Abstract, "abstract"), (Acknowledgement, "acknowledgement"), (Analysis, "analysis"), (Application, "application"),
    (Assumption, "assumption"), (Background, "background"), (Case, "case"), (Caption, "caption"), (Claim, "claim"),
    (Conclusion, "conclusion"), (Condition, "condition"), (Conjecture, "conjecture"), (Contribution, "contribution"),
    (Corollary, "corollary"), (Data, "data"), (Dataset, "dataset"), (Definition, "definition"), (Demonstration, "demonstration"),
    (Description, "description"), (Discussion, "discussion"), (Example, "example"), (Experiment, "experiment"), (Fact, "fact"),
    (FutureWork, "future work"), (Implementation, "implementation"), (Introduction, "introduction"), (Lemma, "lemma"),
    (Methods, "methods"), (Model, "model"), (Motivation, "motivation"), (Notation, "notation"), (Observation, "observation"),
    (Other, "other"), (Preliminaries, "preliminaries"), (Problem, "problem"), (Proof, "proof"), (Property, "property"),
    (Proposition, "proposition"), (Question, "question"), (RelatedWork, "related work"), (Remark, "remark"), (Result, "result"),
    (Simulation, "simulation"), (Step, "step"), (Summary, "summary"), (Theorem, "theorem"), (Theory, "theory"),
  ]
};
const CATEGORIES: &[&str] = &[
  "", "conjecture", "implementation", "subject", "references", "related work", "preliminaries", "analysis", "background", "example",
  "problem", "demonstration", "result", "simulation", "acknowledgement", "proof", "remark", "experiment", "keywords", "introduction",
  "appendix", "notation", "theorem", "lemma", "corollary", "proposition", "definition", "axiom", "fact", "question", "conclusion",
  "summary", "observation", "model", "methods", "future work", "description", "discussion", "property", "condition", "contribution",
  "motivation",
];
const PLURALS: &[&str] = &[
  "axiom", "algorithm", "assumption", "application", "conjecture", "condition", "conclusion", "contribution", "dataset", "set",
  "definition", "discussion", "experiment", "example", "exercise", "lemma", "model", "method", "motivation", "notation",
  "observation", "proof", "proposition", "problem", "question", "result", "remark", "subject", "step", "simulation", "theorem", "work",
];
/// fixed filler that may disappear (numbering and section labels besides)
const FILLER: &[&str] = &[
  "comparison", "with", "list", "summary", "outline", "sketch", "overview", "start", "end", "of", "general", "other", "additional",
  "completion", "finishing", "first", "second", "third", "new", "alternative", "chapter", "section", "some", "basic", "closely", "an",
  "our", "the", "see", "for", "paper",
];
fn numbering(w: &str) -> bool {
  w.chars().all(|c| "xiv".contains(c)) || w == "NUM" || (w.chars().count() == 1 && w.chars().all(|c| ('a'..='p').contains(&c)))
}

/// The words of `out` are those of `heading` in order, each unchanged or singular for a known
/// plural; whatever is left out is numbering, a label or filler.
fn words_kept(heading: &[String], out: &[String]) -> bool {
  // dynamic programming over the two lists: several heading words may be equal
  let (n, m) = (heading.len(), out.len());
  let mut can = vec![vec![false; m + 1]; n + 1];
  can[n][m] = true;
  for i in (0..n).rev() {
    for j in (0..=m).rev() {
      let h = &heading[i];
      let drop = (numbering(h) || FILLER.contains(&h.as_str())) && can[i + 1][j];
      let keep = j < m && {
        let o = &out[j];
        (h == o || (h.strip_suffix('s') == Some(o.as_str()) && PLURALS.iter().any(|p| o.ends_with(p)))) && can[i + 1][j + 1]
      };
      can[i][j] = drop || keep;
    }
  }
  can[0][0]
}

fn heading_text(r: &mut Rng) -> String {
  let mut s = String::new();
  if r.chance(1, 8) {
    // an entry of the table, alone or with a word before, behind or both
    let t = *r.pick(&[EXACT, STARTS, ENDS]);
    let word = *r.pick(&["", "", "s", " of x", "s and y", " NUM", " b", "x"]);
    return r.pick(&["", "", "the ", "y ", "iv "]).to_string() + r.pick(t).0 + word;
  }
  let n = if r.chance(1, 100) { r.range(8, 45) } else { r.range(0, 7) };
  for i in 0..n {
    let w: String = match r.below(14) {
      0 => r.pick(&["i", "iv", "xiii", "x", "v", "xx", "vi", "ii"]).to_string(),
      1 => "NUM".into(),
      2 => r.pick(&["a", "b", "c", "p", "q", "z", "o", "h"]).to_string(),
      3 | 4 => r.pick(FILLER).to_string(),
      5 | 6 => {
        let p = *r.pick(PLURALS);
        if r.chance(2, 3) { format!("{p}s") } else { p.to_string() }
      },
      7 | 8 => r.pick(ENVS).1.to_string(),
      9 => r.pick(CATEGORIES).to_string(),
      10 => r.pick(&["hypotheses", "hypothesis", "data sets", "data", "sets", "prior work", "exercise", "exercises", "key words", "aknowledgements", "acknowledgements", "concluding remarks", "appendices", "msc", "properties", "lemme", "remarque", "literature review", "bibliography", "analyses", "exemple", "future directions", "experimental setup"]).to_string(),
      11 => gen::text(r, 2),
      _ => r.pick(&["banach", "spaces", "physics", "vector", "in", "and", "on", "stability", "deep", "learning", "élan", "straße", "日本", "graph", "energy"]).to_string(),
    };
    s.push_str(&w);
    if i + 1 < n || r.chance(1, 8) {
      s.push_str(r.pick(&[" ", " ", " ", " ", " ", "  ", "   ", "\t", "\n", "\u{a0}"]));
    }
  }
  if r.chance(1, 8) {
    s.insert(0, ' ');
  }
  s
}

fn c24(cx: &mut Cx, k: u64) {
  let r = &mut cx.rng;
  if k < ENVS.len() as u64 {
    let (env, name) = &ENVS[k as usize];
    let shown = env.to_string();
    cx.check(shown == *name, "env-name", || format!("{env:?} prints as {shown:?}, expected {name:?}"));
    for h in [shown.clone(), shown.to_uppercase(), {
      let mut c = shown.clone();
      c[..1].make_ascii_uppercase();
      c
    }] {
      cx.doing = format!("heading {h:?}");
      let back: StructuralEnv = h.as_str().into();
      cx.eval(h.as_str(), false);
      cx.check(back == *env, "env-roundtrip", || format!("{env:?} prints as {shown:?} but {h:?} is read back as {back:?}"));
    }
    cx.seen("environments round-tripped", 1);
    // numbering and case do not change what a heading is
    return;
  }
  let h = match k {
    50 => "the of ".repeat(500),
    51 => "x i v ".repeat(500),
    52 => "some ".repeat(700),
    53 => "NUM".repeat(3000),
    54 => "a b ".repeat(700),
    55 => "result ".to_string() + &"of ".repeat(700),
    56 => " ".repeat(5000),
    _ => heading_text(r),
  };
  cx.doing = format!("heading {:?}", clip(&h, 300));
  let got = normalize_heading_title(&h);
  let again = normalize_heading_title(&got);
  let hw: Vec<String> = h.replace("NUM", " NUM ").split_whitespace().map(str::to_string).collect();
  let gw: Vec<String> = got.split_whitespace().map(str::to_string).collect();
  let named = CATEGORIES.contains(&got.as_str());
  cx.eval(h.as_str(), hw.len() >= 2 && (gw != hw || named));
  cx.seen(if got.is_empty() { "empty results" } else if named { "categories" } else { "plain headings" }, 1);
  cx.seen("words removed", hw.len().saturating_sub(gw.len()) as u64);
  cx.sample(|| format!("{:?} => {got:?}", clip(&h, 200)));
  cx.check(again == got, "idempotent", || format!("{:?} gives {got:?}, which in turn gives {again:?}", clip(&h, 600)));
  cx.check(got == got.trim(), "trimmed", || format!("{:?} gives {got:?}", clip(&h, 600)));
  if !named {
    cx.check(words_kept(&hw, &gw), "words", || format!("{:?} gives {got:?}, whose words are not those of the heading", clip(&h, 600)));
  }
  // categories are judged by the heading's remaining words
  // (on the plain shape headings have: single spaces, NUM a word of its own)
  let plain = h.split(' ').all(|w| !w.is_empty() && (w == "NUM" || !w.contains("NUM")) && !w.contains(char::is_whitespace));
  if h.len() < 400 && plain {
    cx.seen("headings judged word by word", 1);
    let want = reference(&h);
    cx.check(got.split_whitespace().eq(want.split_whitespace()), "category", || format!("{:?} gives {got:?}, expected {want:?}", clip(&h, 600)));
  }
  // the environment of a heading does not depend on letter case
  let low: StructuralEnv = h.as_str().into();
  let up: StructuralEnv = h.to_uppercase().as_str().into();
  if h.is_ascii() {
    cx.check(low == up, "case", || format!("{:?} is {low:?} but its upper-case spelling is {up:?}", clip(&h, 300)));
  }
  let by_name = ENVS.iter().find(|e| e.1 == normalize_heading_title(&h.to_lowercase())).map_or(StructuralEnv::Other, |e| e.0);
  cx.check(low == by_name, "env", || format!("{:?} is {low:?}, but its normal form names {by_name:?}", clip(&h, 300)));
}

/// Word-level reading of the documented clean-up: in rounds, until nothing changes.
fn reference(heading: &str) -> String {
  let mut ws: Vec<String> = heading.replace("NUM", " NUM ").split_whitespace().map(str::to_string).collect();
  loop {
    let before = ws.clone();
    // matches of one round do not overlap: of two adjacent ones, the second waits for the next
    ws = sweep(ws, |w| w.chars().all(|c| "xiv".contains(c)));
    ws.retain(|w| w != "NUM");
    ws = sweep(ws, |w| w.chars().count() == 1 && w.chars().all(|c| ('a'..='p').contains(&c)));
    if ws.len() > 1 && ws.last().is_some_and(|w| w.len() == 1 && w.as_bytes()[0].is_ascii_lowercase() && w.as_bytes()[0] <= b'p') {
      ws.pop();
    }
    let two = |a: &str, b: &str| (a == "comparison" && b == "with") || (b == "of" && ["list", "summary", "outline", "sketch", "overview", "start", "end"].contains(&a));
    if ws.len() > 2 && two(&ws[0], &ws[1]) {
      ws.drain(..2);
    } else if ws.len() > 1
      && [
        "general", "other", "additional", "completion", "finishing", "first", "second", "third", "new", "alternative", "chapter", "section", "some",
        "basic", "closely", "an", "our", "the",
      ]
      .contains(&ws[0].as_str())
    {
      ws.remove(0);
    }
    let n = ws.len();
    if n > 3 && ws[n - 3..] == ["of", "the", "paper"] {
      ws.truncate(n - 3);
    } else if n > 1 && ["see", "of", "for"].contains(&ws[n - 1].as_str()) {
      ws.pop();
    }
    for i in 0..ws.len() {
      if let Some(w) = ws[i].strip_suffix('s') {
        let set = w == "set" && i > 0 && ws[i - 1].ends_with("data");
        if set || PLURALS.iter().any(|p| *p != "set" && w.ends_with(p)) {
          ws[i] = w.to_string();
        }
      }
    }
    if ws == before {
      break;
    }
  }
  category(&ws.join(" "))
}
fn sweep(ws: Vec<String>, hit: impl Fn(&str) -> bool) -> Vec<String> {
  let mut out = Vec::new();
  let mut last_hit = false;
  for w in ws {
    if !last_hit && hit(&w) {
      last_hit = true;
    } else {
      last_hit = false;
      out.push(w);
    }
  }
  out
}
/// the table of simple variations: whole headings, beginnings, ends; the first that applies counts
const EXACT: &[(&str, &str)] = &[
  ("lemme", ""), ("remarque", ""), ("corollaire", ""), ("dokazatelstvo", ""), ("hypothesis", "conjecture"), ("hypotheses", "conjecture"),
  ("implementation details", "implementation"), ("mathematics subject classification", "subject"), ("subject headings", "subject"),
  ("bibliography", "references"), ("previous work", "related work"), ("prior work", "related work"), ("related literature", "related work"),
  ("related research", "related work"), ("related studies", "related work"), ("literature review", "related work"),
  ("preliminary", "preliminaries"), ("analyses", "analysis"), ("theoretical background", "background"), ("exemple", "example"),
  ("exercise", "problem"),
];
const STARTS: &[(&str, &str)] = &[
  ("demonstration ", "demonstration"), ("simulation result", "result"), ("simulation ", "simulation"), ("acknowledg", "acknowledgement"),
  ("aknowledg", "acknowledgement"), ("proof", "proof"), ("remark ", "remark"), ("experiment", "experiment"), ("key word", "keywords"),
  ("keyword", "keywords"), ("introduction", "introduction"), ("related work", "related work"), ("background ", "background"),
  ("appendi", "appendix"), ("notation", "notation"), ("theorem", "theorem"), ("lemma", "lemma"), ("corollary", "corollary"),
  ("proposition", "proposition"), ("definition", "definition"), ("axiom", "axiom"), ("conjecture", "conjecture"),
  ("hypothesis", "conjecture"), ("fact ", "fact"), ("problem ", "problem"), ("exercise ", "problem"), ("question ", "question"),
  ("result", "result"), ("msc", "subject"), ("conclusion", "conclusion"), ("concluding remarks", "conclusion"), ("summary ", "summary"),
  ("observation", "observation"), ("model", "model"), ("method", "methods"), ("future", "future work"), ("description", "description"),
  ("discussion", "discussion"), ("example", "example"), ("properties", "property"), ("property ", "property"),
  ("preliminaries ", "preliminaries"), ("condition ", "condition"), ("contribution ", "contribution"), ("analaysis", "analysis"),
  ("analysis ", "analysis"), ("motivation ", "motivation"),
];
const ENDS: &[(&str, &str)] = &[
  (" demonstration", "demonstration"), (" simulation", "simulation"), (" proof", "proof"), (" remark", "remark"), (" notation", "notation"),
  (" experiment", "experiment"), (" theorem", "theorem"), (" lemma", "lemma"), (" corollary", "corollary"), (" proposition", "proposition"),
  (" definition", "definition"), (" axiom", "axiom"), (" conjecture", "conjecture"), (" hypothesis", "conjecture"),
  (" conclusion", "conclusion"), (" summary", "summary"), (" problem", "problem"), ("exercise", "problem"), (" question", "question"),
  (" result", "result"), (" method", "methods"), (" model", "model"), (" description", "description"), (" discussion", "discussion"),
  (" example", "example"), (" property", "property"), (" properties", "property"), (" preliminaries", "preliminaries"),
  (" condition", "condition"), (" contribution", "contribution"), (" analysis", "analysis"), (" motivation", "motivation"),
];
fn category(h: &str) -> String {
  if let Some(x) = EXACT.iter().find(|x| x.0 == h) {
    return x.1.into();
  }
  if let Some(x) = STARTS.iter().find(|x| h.starts_with(x.0)) {
    return x.1.into();
  }
  if let Some(x) = ENDS.iter().find(|x| h.ends_with(x.0)) {
    return x.1.into();
  }
  h.into()
}

/* ------------------------------------------------------------------ C25 */

/// the names LaTeX authors give their environments and what they stand for
static SYNONYMS: &str = include_str!("../data/ams_env.txt");
const AMS: &[AmsEnv] = {
  use AmsEnv::*;
  &[
    Acknowledgement, Algorithm, Answer, Affirmation, Assumption, Bound, Caption, Case, Claim, Comment, Conclusion, Condition, Conjecture,
    Constraint, Convention, Corollary, Criterion, Definition, Demonstration, Discussion, Example, Experiment, Expansion, Expectation,
    Explanation, Fact, Hint, Issue, Keywords, Lemma, Notation, Note, Notice, Observation, Paragraph, Principle, Problem, Proof, Proposition,
    Question, Remark, Result, Rule, Solution, Step, Summary, Theorem, Other,
  ]
};

fn c25(cx: &mut Cx, k: u64) {
  if k == 0 {
    for e in AMS {
      let name = e.to_string();
      if *e == AmsEnv::Other {
        continue; // not a name: environments called "other" are what their authors used them for
      }
      let back = normalize_env(&name);
      cx.eval(&("canonical", name.as_str()), true);
      cx.check(back == *e, "fixed-point", || format!("{e:?} is named {name:?}, which maps to {back:?}"));
      cx.check(name == format!("{e:?}").to_lowercase(), "name", || format!("{e:?} is named {name:?}"));
    }
    cx.seen("canonical names", AMS.len() as u64);
    return;
  }
  if k == 1 {
    for l in SYNONYMS.lines() {
      let (name, env) = l.split_once(' ').unwrap();
      let got = normalize_env(name);
      cx.eval(&("synonym", name), true);
      cx.check(format!("{got:?}") == env, "synonym", || format!("{name:?} maps to {got:?}, expected {env}"));
    }
    cx.seen("synonyms", SYNONYMS.lines().count() as u64);
    return;
  }
  let r = &mut cx.rng;
  let n_syn = 2509;
  if k % 4 == 0 {
    // a document: is there AMS markup?
    let o = gen::TreeOpts {
      classes: &["ltx_theorem", "ltx_theorem_lemma", "ltx_proof", "ltx_para", "ltx_theo", "xltx_theorem", "c1"],
      names: &["div", "p", "span", "section", "divx"],
      namespaces: r.chance(1, 3),
      depth: r.range(0, 4),
      width: r.range(0, 3),
      ..gen::TreeOpts::basic()
    };
    let src = if k % 3_000 == 4 { gen::large_document(r, &o) } else { gen::document(r, &o) };
    cx.doing = format!("has_markup of {}", clip(&src, 800));
    let d = gen::parse(&src);
    let snap = Snap::new(d.get_root_readonly().unwrap());
    let want = snap.nodes.iter().any(|n| {
      n.kind == gen::Kind::Element && n.name == "div" && n.ro.get_property("class").is_some_and(|c| c.contains("ltx_theorem"))
    });
    let got = has_markup_xmldoc(&d);
    cx.eval(src.as_str(), src.contains("ltx_theorem"));
    cx.seen(if want { "documents with AMS markup" } else { "documents without AMS markup" }, 1);
    cx.check(got == want, "has-markup", || format!("has_markup is {got}, expected {want}\n{}", clip(&src, 1200)));
    return;
  }
  let name = match r.below(6) {
    0 => AMS[r.below(AMS.len())].to_string(),
    1 | 2 => {
      let i = r.below(n_syn);
      SYNONYMS.lines().nth(i).unwrap().split_once(' ').unwrap().0.to_string()
    },
    3 => r.pick(&["thmé", "Lemma", "LEMMA", "x1", "_", "nosuchenv", "lemmaa", "thm_a"]).to_string(),
    4 => (0..r.range(1, 6)).map(|_| (b'a' + r.below(26) as u8) as char).collect(),
    _ => r.pick(&["defn", "prop", "thm", "lem", "cor", "rem", "ex"]).to_string(),
  };
  let other = AMS[r.below(AMS.len())].to_string();
  let many = |r: &mut Rng, w: &str| {
    let n = *r.pick(&[3, 20, 140, 300]);
    (0..n).map(|i| format!("{w}{i} ")).collect::<String>()
  };
  let class = match r.below(10) {
    _ if k % 500 == 77 => match r.below(4) {
      0 => format!("{}ltx_theorem ltx_theorem_{name}", many(r, "c")),
      1 => format!("ltx_theorem {}ltx_theorem_{name} {}", many(r, "ltx_"), many(r, "x")),
      2 => format!("ltx_theorem ltx_theorem_{name} {}", many(r, "ltx_theorem_q")),
      _ => format!("ltx_theorem ltx_theorem_{}", name.repeat(*r.pick(&[2, 20, 300, 9_000]))),
    },
    0 => String::new(),
    1 => "ltx_proof".into(),
    2 => "ltx_proof x".into(),
    3 => "ltx_para c1".into(),
    4 => "ltx_theorem".into(),
    5 => format!("ltx_theorem ltx_theorem_{name}"),
    6 => format!("ltx_theorem_{name} ltx_theorem_{other}"),
    7 => format!("c1 ltx_theorem ltx_theorem_{name}-x"),
    8 => format!("ltx_proof ltx_theorem ltx_theorem_{name} ltx_centering"),
    _ => format!("ltx_theorem  ltx_{name} x{other}"),
  };
  cx.doing = format!("class {class:?}");
  let got = class_to_env(&class);
  let want = if class == "ltx_proof" {
    Some("Proof".to_string())
  } else if !class.contains("ltx_theorem") {
    None
  } else {
    let name = class
      .match_indices("ltx_theorem_")
      .map(|(i, m)| class[i + m.len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>())
      .find(|n| !n.is_empty());
    Some(match name {
      None => "Theorem".into(),
      Some(n) => SYNONYMS.lines().find_map(|l| l.strip_prefix(n.as_str()).and_then(|x| x.strip_prefix(' '))).unwrap_or("Other").to_string(),
    })
  };
  cx.eval(class.as_str(), class.contains("ltx_theorem_"));
  cx.seen("class attributes", 1);
  cx.sample(|| format!("{class:?} => {got:?}"));
  let g = got.map(|e| format!("{e:?}"));
  cx.check(g == want, "class", || format!("class {:?} maps to {g:?}, expected {want:?}", clip(&class, 600)));
}

/* ------------------------------------------------------------------ C26 */

pub fn numeric(w: &str) -> bool {
  // integer, decimal (with exponent) or integer with a subfigure letter
  let w = w.strip_prefix('-').unwrap_or(w);
  let digits = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_numeric() && is_nd(c));
  let int_len: usize = w.chars().take_while(|c| is_nd(*c)).map(|c| c.len_utf8()).sum();
  if int_len == 0 {
    return false;
  }
  let rest = &w[int_len..];
  if rest.is_empty() {
    return true;
  }
  if rest.len() == 1 {
    return ('a'..='k').contains(&rest.chars().next().unwrap());
  }
  let Some(frac) = rest.strip_prefix('.') else { return false };
  match frac.find(['e', 'E']) {
    None => digits(frac),
    Some(i) => {
      let e = &frac[i + 1..];
      digits(&frac[..i]) && digits(e.strip_prefix(['+', '-']).unwrap_or(e))
    },
  }
}
/// decimal digits of any script (general category Nd), over the characters the generators use
/// a decimal digit of any script
fn is_nd(c: char) -> bool {
  thread_local! {
    static DIGIT: regex::Regex = regex::Regex::new(r"^\d$").unwrap();
  }
  c.is_ascii_digit() || (!c.is_ascii() && DIGIT.with(|d| d.is_match(c.encode_utf8(&mut [0; 4]))))
}

/// None when the word is too long
pub fn classify(text: &str, math: &str, keep_case: bool, keep_punct: bool, drop_math: bool) -> Option<String> {
  let mut w = if keep_case { text.to_string() } else { text.to_lowercase() };
  if !keep_punct {
    w = w.chars().filter(|c| c.is_alphanumeric()).collect();
  }
  if w.len() > 25 {
    return None;
  }
  let low = w.to_lowercase();
  Some(if low.contains("mathformula") {
    if drop_math { String::new() } else { math.to_string() }
  } else if low.contains("citationelement") {
    "citationelement".into()
  } else if numeric(&low) {
    "NUM".into()
  } else {
    w
  })
}

fn c26(cx: &mut Cx, k: u64) {
  let xml = {
    let r = &mut cx.rng;
    if k % 2_000 == 77 {
      // long words, long headings
      format!("<html><body><h2>{} {}</h2></body></html>", gen::escape(&gen::long_text(r)), gen::annotated_math(r).repeat(r.range(0, 40)))
    } else if k % 3 == 0 {
      gen::latexml(r, 2)
    } else {
      let mut s = String::from("<html><body><h2>");
      for _ in 0..r.range(1, 10) {
        match r.below(9) {
          0 | 1 => s.push_str(&gen::annotated_math(r)),
          2 => s.push_str(r.pick(&["12", "-3", "4.25", "1.5e-3", "2E+7", "7k", "7l", "12ab", "٣", "1.", ".5", "1.e5", "-", "3.14a", "0x1", "１２"])),
          3 => s.push_str("<cite>1</cite>"),
          4 => s.push_str(r.pick(&["mathformula", "Mathformula", "xmathformulay", "mathformula-like", "CitationElement", "citationelements", "non-citationelement", "CITATIONELEMENT's"])),
          5 => s.push_str(r.pick(&["abcdefghijklmnopqrstuvwxy", "abcdefghijklmnopqrstuvwxyz", "ÄÖÜäöüßÄÖÜäö", "ÄÖÜäöüßÄÖÜäöü", "İİİİİİİİİ", "Lagrange's", "o'clock's", "a'sb'sc'sd'se'sf'sg'sh'si", "ABC’s"])),
          _ => s.push_str(&gen::escape(&gen::text(r, 4))),
        }
        s.push_str(r.pick(&[" ", " ", "", "\n", "-", "'"]));
      }
      s.push_str("</h2></body></html>");
      s
    }
  };
  let d = gen::parse(&xml);
  let root = d.get_root_readonly().unwrap();
  let snap = Snap::new(root);
  let mut p = DNMParameters::llamapun_normalization();
  p.normalize_unicode = cx.rng.chance(1, 3);
  p.wrap_tokens = cx.rng.chance(2, 3);
  let headings: Vec<usize> = (0..snap.nodes.len()).filter(|i| snap.nodes[*i].name.len() == 2 && snap.nodes[*i].name.starts_with('h')).collect();
  let top = if headings.is_empty() { root } else { snap.nodes[*cx.rng.pick(&headings)].ro };
  let dnm = DNM::new(top, p);
  let mut ctx = Context::new(&d).unwrap();
  let tok = Tokenizer::default();
  let Ok(range) = dnm.get_range() else { return };
  let mut words = if cx.rng.chance(1, 2) { tok.words(&range) } else { tok.words_and_punct(&range) };
  // words as another tokenizer would cut them: two that touch, or a few characters more or less
  for _ in 0..3 {
    if words.len() > 1 {
      let a = cx.rng.below(words.len() - 1);
      let (s, e) = (words[a].start, words[a + 1].end);
      if s <= e && e - s <= 30 && !words[a].is_empty() {
        words.push(range.get_subrange(s - range.start, e - range.start));
      }
    }
  }
  for w in words.iter().filter(|w| !w.is_empty()) {
    let text = w.get_plaintext().to_string();
    let (math, punct, case) = (cx.rng.chance(1, 3), cx.rng.chance(1, 2), cx.rng.chance(2, 3));
    cx.doing = format!("word {text:?} discard_math={math} discard_punct={punct} discard_case={case} in {}", clip(&xml, 800));
    let lex = gen::lexemes_below(&snap, snap.idx(dnm.back_map[w.start].0).unwrap());
    let want = classify(&text, &lex, !case, !punct, math);
    let got = ams_normalize_word_range(w, &mut ctx, LexicalOptions { discard_math: math, discard_punct: punct, discard_case: case }).ok();
    let low = text.to_lowercase();
    cx.eval(&(text.as_str(), math, punct, case), want.as_deref() != Some(low.as_str()));
    match &want {
      None => cx.seen("overlong words", 1),
      Some(x) if x == "NUM" => cx.seen("numbers", 1),
      Some(x) if x == "citationelement" => cx.seen("citations", 1),
      Some(_) if low.contains("mathformula") => cx.seen("formulas", 1),
      Some(_) => cx.seen("plain words", 1),
    }
    cx.check(got == want, "word", || format!("word {text:?} (discard math {math}, punct {punct}, case {case}) gives {got:?}, expected {want:?}\n{}", clip(&xml, 800)));
  }
  // headings, from any element
  let els: Vec<usize> = (0..snap.nodes.len()).filter(|i| snap.nodes[*i].kind == gen::Kind::Element).collect();
  let i = if headings.is_empty() || cx.rng.chance(1, 4) { *cx.rng.pick(&els) } else { *cx.rng.pick(&headings) };
  cx.doing = format!("heading of node {i} in {}", clip(&xml, 800));
  let got = heading_from_node_aux(snap.nodes[i].ro, &tok, &mut ctx);
  let hd = DNM::new(snap.nodes[i].ro, DNMParameters::llamapun_normalization());
  let mut want = Some(String::new());
  if let Ok(range) = hd.get_range() {
    for w in tok.words(&range) {
      let lex = gen::lexemes_below(&snap, snap.idx(hd.back_map[w.start].0).unwrap());
      match classify(w.get_plaintext(), &lex, false, false, false) {
        None => {
          want = None;
          break;
        },
        Some(x) if x.is_empty() || x == "NUM" => {},
        Some(x) => {
          if let Some(s) = want.as_mut() {
            s.push_str(&x);
            s.push(' ');
          }
        },
      }
    }
  }
  cx.seen("headings", 1);
  cx.sample(|| format!("{:?} => {want:?}", clip(&hd.plaintext, 150)));
  cx.check(got == want, "heading", || format!("heading {:?} gives {got:?}, expected {want:?}", clip(&hd.plaintext, 400)));
}
