//! C07–C10: sentence and word tokenization.
use super::dnm::raw_params;
use super::{Spec, BASE};
use crate::cx::{clip, Cx, Rng};
use crate::gen;
use llamapun::dnm::{DNMParameters, DNMRange, DNM};
use llamapun::tokenizer::Tokenizer;
use regex::Regex;
use std::collections::HashSet;

pub fn specs() -> Vec<Spec> {
  vec![
    Spec { id: "C07", run: c07, rule: "distinct plaintexts with at least two sentences or text outside sentences, or multi-byte characters", quick: 1_000_000, ..BASE },
    Spec { id: "C08", run: c08, rule: "distinct plaintexts in which a sentence-ending character occurs before the last word", quick: 1_500_000, ..BASE },
    Spec { id: "C09", run: c09, rule: "distinct (text, range) with at least two words and a separator that is not a plain space", quick: 1_000_000, ..BASE },
    Spec { id: "C10", run: c10, rule: "distinct (text, range) with at least two tokens, one of them punctuation", quick: 1_000_000, ..BASE },
  ]
}

thread_local! {
  static TOK: &'static Tokenizer = Box::leak(Box::default());
  static ABBR: Regex = Regex::new(ABBREVIATIONS).unwrap();
}
/// The known abbreviations, kept here so that a change to the library's list is seen.
const ABBREVIATIONS: &str = r"^(?:C(?:[ft]|o(?:n[jn]|lo?|rp)?|a(?:l(?:if)?|pt)|mdr|p?l|res)|M(?:[dst]|a(?:[jnry]|ss)|i(?:ch|nn|ss)|o(?:nt)?|ex?|rs?)|A(?:r(?:[ck]|iz)|l(?:t?a)?|ttys?|ssn|dm|pr|ug|ve)|c(?:o(?:rp|l)?|(?:ap)?t|mdr|p?l|res|f)|S(?:e(?:ns?|pt?|c)|(?:up|g)?t|ask|r)|s(?:e(?:ns?|pt?|c)|(?:up|g)?t|r)|a(?:ttys?|ssn|dm|pr|rc|ug|ve|l)|P(?:enna?|-a.s|de?|lz?|rof|a)|D(?:e(?:[cfl]|p?t)|ist|ak|r)|I(?:[as]|n[cd]|da?|.e|ll)|F(?:e[bd]|w?y|ig|la|t)|O(?:k(?:la)?|[cn]t|re)|d(?:e(?:p?t|c)|ist|r)|E(?:xpy?|.g|sp|tc|qs?)|R(?:e(?:ps?|sp|v)|d)|T(?:e(?:nn|x)|ce|hm)|e(?:xpy?|.g|sp|tc|qs?)|m(?:[st]|a[jry]|rs?)|r(?:e(?:ps?|sp|v)|d)|N(?:e(?:br?|v)|ov?)|W(?:isc?|ash|yo?)|f(?:w?y|eb|ig|t)|p(?:de?|lz?|rof)|J(?:u[ln]|an|r)|U(?:SAFA|niv|t)|j(?:u[ln]|an|r)|K(?:ans?|en|y)|B(?:lv?d|ros)|b(?:lv?d|ros)|G(?:en|ov|a)|L(?:td?|a)|g(?:en|ov)|i(?:.e|nc)|l(?:td?|a)|[Hh]wa?y|V[ast]|Que|nov?|univ|Yuk|oct|tce|vs)\s?$";

const CAP: &[&str] = &["Banach", "Foo", "Radon", "Émile", "Łódź", "McX", "Zorn", "Äpfel", "Δelta", "X", "Q", "I", "É", "Abcdefghijklmnopqrstuvwxyz"];
const STOPCAP: &[&str] = &["The", "We", "It", "Since", "However", "A", "And", "Let", "THE", "This", "iF", "In"];
const LOW: &[&str] = &["space", "the", "holds", "bounded", "x", "n", "é", "function", "eBook", "iPhone", "straße", "we", "is", "mapping", "a"];
const ABBR_WORDS: &[&str] = &["Fig", "etc", "vs", "resp", "Dr", "Prof", "eq", "Eq", "cf", "Sec", "al", "Thm", "Mr", "dept", "univ", "Jan", "nov", "ie", "eg", "Def", "Ill", "figs", "Figs", "vss"];
const NUM: &[&str] = &["3", "12", "3.14", "2.5.1", "٣", "(iii)", "1."];
const STOPS: &[&str] = &[". ", ".", ".\n", ": ", ":", "? ", "! ", "?", "!", ".'", ". ''", "..", "...", ". (", ".\"", ". *", ".\u{a0}", ":\n", ".)", "?)", "(?)", "[!]", "\"?\"", "'!'", "{?}", "(!]", ". mathformula", ".\n\n", ". [", "?!"];
const BREAKS: &[&str] = &["\n\n", "\n\n\n", "\n", " \n", "\n \n", "\n\n  ", "\n\n\u{2003}", "\nmathformula\n", "\n\nmathformula\n\n", " mathformula ", "\n\n(", "\n\n3", "\n\n."];

/// Text aimed at the sentence rules.
pub fn sentence_text(cx: &mut Cx, max: usize) -> String {
  let r = &mut cx.rng;
  let mut s = String::new();
  for _ in 0..r.range(1, max) {
    match r.below(15) {
      14 => {
        // words between full stops only: what the window to the left holds after each decision
        for _ in 0..r.range(2, 5) {
          let list = r.pick(&[LOW, CAP, STOPCAP, ABBR_WORDS, STOPCAP, ABBR_WORDS]);
          s.push_str(*r.pick(list));
          s.push_str(*r.pick(&[". ", ". ", ".\n", ": ", ".", "? "]));
        }
      },
      0..=2 => s.push_str(*r.pick(LOW)),
      3..=4 => s.push_str(*r.pick(CAP)),
      5 => s.push_str(*r.pick(STOPCAP)),
      6 => s.push_str(*r.pick(ABBR_WORDS)),
      7 => s.push_str(r.pick(&["mathformula", "CitationElement", "REF", "mathformulas", "Mathformula", "xmathformula"])),
      8 => s.push_str(*r.pick(NUM)),
      9 => s.push_str(*r.pick(gen::WORDS)),
      10 => s.push_str(*r.pick(STOPS)),
      11 => s.push_str(*r.pick(BREAKS)),
      12 => s.push_str(*r.pick(gen::SEPS)),
      _ => s.push_str(*r.pick(STOPS)),
    }
    match r.below(8) {
      0..=3 => s.push(' '),
      4 => s.push_str(*r.pick(STOPS)),
      5 => s.push_str(*r.pick(BREAKS)),
      _ => {},
    }
  }
  s
}

fn raw_dnm(cx: &mut Cx, k: u64) -> Option<(libxml::tree::Document, DNM, String)> {
  let real = gen::real_docs();
  if (k as usize) < real.len() {
    if let Some(d) = gen::real_doc(real[k as usize]) {
      let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::llamapun_normalization());
      return Some((d, dnm, real[k as usize].to_string()));
    }
  }
  let t = match cx.rng.below(3) {
    _ if k % 8000 == 77 => gen::long_text(&mut cx.rng),
    0 => gen::text(&mut cx.rng, 30),
    _ => sentence_text(cx, 24),
  };
  cx.doing = format!("{t:?}");
  let p = match cx.rng.below(6) {
    0 => DNMParameters { normalize_unicode: true, ..raw_params() },
    1 => DNMParameters { convert_to_lowercase: true, ..raw_params() },
    2 => DNMParameters::default(),
    _ => raw_params(),
  };
  match DNM::from_str(&t, Some(p)) {
    Ok((d, dnm)) => {
      let t = dnm.plaintext.clone();
      Some((d, dnm, t))
    },
    Err(e) => {
      cx.fail("from-str", format!("{e} for {t:?}"));
      None
    },
  }
}

fn c07(cx: &mut Cx, k: u64) {
  let Some((_d, dnm, label)) = raw_dnm(cx, k) else { return };
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  let n = chars.len();
  let got: Vec<(usize, usize)> = TOK.with(|t| t.sentences(&dnm).iter().map(|r| (r.start, r.end)).collect());
  cx.seen("sentences", got.len() as u64);
  cx.seen("characters", n as u64);
  let s = |a: usize, b: usize| chars[a..b].iter().collect::<String>();
  cx.eval(label.as_str(), got.len() >= 2 || !dnm.plaintext.is_ascii());
  cx.sample(|| format!("{:?} => {:?}", clip(&dnm.plaintext, 200), clip(&format!("{got:?}"), 100)));
  let src = || format!("text {:?}\nsentences {:?}", clip(&dnm.plaintext, 600), clip(&format!("{got:?}"), 300));
  let mut last = 0;
  for (a, b) in &got {
    if *b > n || a >= b {
      cx.fail("bounds", format!("sentence [{a},{b}) of {n} characters\n{}", src()));
      return;
    }
    if *a < last {
      cx.fail("order", format!("sentence [{a},{b}) starts before {last}\n{}", src()));
      return;
    }
    if chars[*a].is_whitespace() || chars[*b - 1].is_whitespace() {
      cx.fail("trimmed", format!("sentence {:?} is not trimmed\n{}", s(*a, *b), src()));
      return;
    }
    let gap = s(last, *a);
    if !gap.trim().is_empty() {
      cx.fail("gap", format!("text {gap:?} before [{a},{b}) belongs to no sentence\n{}", src()));
      return;
    }
    last = *b;
  }
  let tail = s(last, n);
  cx.seen("letter-free tails", (!tail.trim().is_empty()) as u64);
  cx.check(!tail.contains(char::is_alphabetic), "tail", || format!("the tail {tail:?} has letters but belongs to no sentence\n{}", src()));
}

/* ------------------------------------------------------------------ the break rules */

struct Rules<'a> {
  stop: &'a HashSet<&'static str>,
  abbr: &'a Regex,
  fired: Vec<&'static str>,
}

struct Window(Vec<char>);
impl Window {
  /// at most 11 characters to the left count
  fn push(&mut self, c: char) {
    self.0.push(c);
    if self.0.len() > 11 {
      self.0.remove(0);
    }
  }
  fn word(&mut self, w: &[char]) { w.iter().for_each(|c| self.push(*c)) }
  /// is the last word an abbreviation or a single letter other than I?
  fn abbreviated(&self, abbr: &Regex) -> bool {
    let s: String = self.0.iter().collect();
    let t = s.trim();
    let w: String = match t.rfind(|c: char| !c.is_alphabetic()) {
      Some(i) => t[i..].chars().skip(1).collect(),
      None => t.to_string(),
    };
    (w.chars().count() == 1 && w != "I") || abbr.is_match(&w)
  }
}

static CUSTOM: std::sync::LazyLock<Vec<Tokenizer>> = std::sync::LazyLock::new(|| (0..40).map(|i| custom_tokenizer(&mut Rng::new(i)).0).collect());
/// A tokenizer with other stopwords and abbreviations, and its description.
pub fn custom_tokenizer(r: &mut Rng) -> (Tokenizer, String) {
  let mut t = Tokenizer::default();
  let words: &[&'static str] = &["the", "banach", "zorn", "x", "foo", "émile", "mathformula", "this", "holds", "we"];
  match r.below(4) {
    0 => t.stopwords.clear(),
    1 => t.stopwords.retain(|w| w.len() % 2 == 0),
    2 => t.stopwords = words.iter().copied().filter(|_| r.chance(1, 2)).collect(),
    _ => {},
  }
  let re = *r.pick(&["", "^(?:Fig|Banach|the|space|é)$", "^[A-Z]", "[^a-z]", "^.?$", "^never$"]);
  if r.chance(2, 3) {
    t.abbreviations = Regex::new(re).unwrap();
  }
  let mut stop: Vec<_> = t.stopwords.iter().collect();
  stop.sort();
  let label = format!("{} stopwords {:?}, abbreviations {:?}", stop.len(), stop.iter().take(10).collect::<Vec<_>>(), clip(t.abbreviations.as_str(), 40));
  (t, label)
}

/// The rules of the statement, on characters. Returns the positions where sentences start.
fn breaks(ch: &[char], r: &mut Rules) -> Vec<usize> {
  let n = ch.len();
  let mut cuts = Vec::new();
  let mut w = Window(vec![]);
  let mut i = 0;
  let word_at = |i: usize| -> &[char] {
    let len = ch[i..].iter().take(20).take_while(|c| c.is_alphabetic()).count();
    &ch[i..i + len]
  };
  let math = |x: &[char]| x.iter().collect::<String>();
  while i < n {
    let c = ch[i];
    i += 1;
    match c {
      '.' | ':' => {
        while i < n && (ch[i].is_whitespace() || ch[i] == '\'') {
          i += 1;
        }
        if i == n {
          break;
        }
        let run = ch[i..].iter().take_while(|c| c.is_alphabetic());
        if run.clone().any(|c| c.is_uppercase()) {
          let word = word_at(i);
          if r.stop.contains(math(word).to_lowercase().as_str()) {
            r.fired.push("stopword break");
            w.0.clear();
            cuts.push(i);
          } else {
            if w.abbreviated(r.abbr) {
              r.fired.push("abbreviation keeps");
              w.push('.');
            } else {
              r.fired.push("uppercase break");
              w.0.clear();
              cuts.push(i);
            }
            w.word(word);
          }
          i += word.len();
        } else if matches!(ch[i], '*' | '"' | '(') {
          r.fired.push("opening character break");
          w.0.clear();
          cuts.push(i);
        } else if c == '.' && ch[i].is_alphabetic() {
          let word = word_at(i);
          if math(word).to_lowercase().starts_with("mathformula") && !w.abbreviated(r.abbr) {
            r.fired.push("mathformula break");
            w.0.clear();
            cuts.push(i);
          } else {
            r.fired.push("lowercase keeps");
            w.push('.');
          }
          w.word(word);
          i += word.len();
        } else {
          r.fired.push("other keeps");
          w.push('.');
        }
      },
      '?' | '!' => {
        let pair = (w.0.last().copied(), ch.get(i).copied());
        let bounded = matches!(
          pair,
          (Some('['), Some(']')) | (Some('('), Some(')')) | (Some('{'), Some('}')) | (Some('\''), Some('\'')) | (Some('"'), Some('"'))
        );
        if bounded {
          r.fired.push("enclosed keeps");
        } else {
          r.fired.push("question/exclamation break");
          w.0.clear();
          cuts.push(i);
        }
      },
      '\n' if i < n && ch[i] == '\n' => {
        while i < n && ch[i].is_whitespace() {
          i += 1;
        }
        if i == n {
          break;
        }
        let word = word_at(i);
        if word.is_empty() || math(word).starts_with("mathformula") || word[0].is_lowercase() {
          r.fired.push("blank line keeps");
          w.word(word);
        } else {
          r.fired.push("blank line break");
          w.0.clear();
          cuts.push(i);
        }
        i += word.len();
      },
      '\n' => {},
      c => {
        if c.is_uppercase() && w.0.iter().collect::<String>() == "mathformula" {
          r.fired.push("capital after formula break");
          w.0.clear();
          cuts.push(i - 1);
        }
        w.push(c);
      },
    }
  }
  cuts
}

fn c08(cx: &mut Cx, k: u64) {
  let Some((_d, dnm, label)) = raw_dnm(cx, k) else { return };
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  // the word lists of a tokenizer are settings, the rules hold for any
  let custom = cx.rng.chance(1, 8).then(|| &CUSTOM[cx.rng.below(CUSTOM.len())]);
  cx.seen("texts with a tokenizer of other word lists", custom.is_some() as u64);
  let own = ABBR.with(|a| a.clone());
  TOK.with(|t| {
    let (t, abbr): (&Tokenizer, &Regex) = match &custom {
      Some(c) => (c, &c.abbreviations),
      None => (t, &own),
    };
    let got: Vec<(usize, usize)> = t.sentences(&dnm).iter().map(|r| (r.start, r.end)).collect();
    let mut rules = Rules { stop: &t.stopwords, abbr, fired: vec![] };
    let mut cuts = vec![0];
    cuts.extend(breaks(&chars, &mut rules));
    cuts.push(chars.len());
    let mut want = Vec::new();
    for (j, x) in cuts.windows(2).enumerate() {
      let (mut a, mut b) = (x[0], x[1]);
      if j + 2 == cuts.len() && !chars[a..b].iter().any(|c| c.is_alphabetic()) {
        continue;
      }
      while a < b && chars[a].is_whitespace() {
        a += 1;
      }
      while a < b && chars[b - 1].is_whitespace() {
        b -= 1;
      }
      if a < b {
        want.push((a, b));
      }
    }
    cx.eval(label.as_str(), !rules.fired.is_empty());
    for f in &rules.fired {
      cx.seen(f, 1);
    }
    cx.sample(|| format!("{:?} => {:?}", clip(&dnm.plaintext, 200), clip(&format!("{want:?}"), 100)));
    let s = |v: &[(usize, usize)]| v.iter().map(|(a, b)| chars[*a.min(&chars.len())..*b.min(&chars.len())].iter().collect::<String>()).collect::<Vec<_>>();
    cx.check(got == want, "breaks", || {
      let j = got.iter().zip(&want).take_while(|(x, y)| x == y).count();
      format!(
        "sentences differ from number {j} on: got {:?}, the rules give {:?}\ntext {:?}",
        s(&got[j.min(got.len())..(j + 2).min(got.len())]),
        s(&want[j.min(want.len())..(j + 2).min(want.len())]),
        clip(&dnm.plaintext, 800)
      )
    });
  });
}

/* ------------------------------------------------------------------ words */

fn some_range<'a>(cx: &mut Cx, dnm: &'a DNM) -> DNMRange<'a> {
  let n = dnm.byte_offsets.len() - 1;
  if cx.rng.chance(1, 3) {
    return DNMRange { start: 0, end: n, dnm };
  }
  let a = cx.rng.range(0, n);
  DNMRange { start: a, end: cx.rng.range(a, n), dnm }
}

fn word_case(cx: &mut Cx, k: u64) -> Option<(libxml::tree::Document, DNM)> {
  if k >= 4 && k % 8000 != 77 && cx.rng.chance(1, 2) {
    let r = &mut cx.rng;
    let mut t = String::new();
    for _ in 0..r.range(1, 14) {
      t.push_str(*r.pick(&["a", "ab", "é", "1", "x²", "don", "Ω", "日本", "s", "t", "un", "th", "ll", "d", "ve", "il", "re", "m", "ss", "sx", "ts"]));
      t.push_str(*r.pick(&["'", "’", "''", "'’", " ", "-", ".", "' ", " '", "\u{a0}", "", "‘", "ʼ", "\"", "_", "—"]));
    }
    cx.doing = format!("{t:?}");
    return DNM::from_str(&t, Some(raw_params())).ok();
  }
  raw_dnm(cx, k).map(|(d, dnm, _)| (d, dnm))
}

fn c09(cx: &mut Cx, k: u64) {
  let Some((_d, dnm)) = word_case(cx, k) else { return };
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  for _ in 0..3 {
    let range = some_range(cx, &dnm);
    let (a, b) = (range.start, range.end);
    let got: Vec<(usize, usize)> = TOK.with(|t| t.words(&range).iter().map(|r| (r.start, r.end)).collect());
    let want = words_in(&chars, a, b);
    let inword = |i: usize| want.iter().any(|w| w.0 <= i && i < w.1);
    let nt = want.len() >= 2 && (a..b.min(a + 500)).any(|i| !inword(i) && chars[i] != ' ');
    cx.eval(&(dnm.plaintext.as_str(), a, b), nt);
    cx.seen("words", got.len() as u64);
    let s = |v: &[(usize, usize)]| v.iter().map(|(a, b)| chars.get(*a..*b).map(|c| c.iter().collect::<String>())).collect::<Vec<_>>();
    cx.sample(|| format!("[{a},{b}) of {:?}", clip(&dnm.plaintext, 150)));
    cx.check(got == want, "words", || {
      let j = got.iter().zip(&want).take_while(|(x, y)| x == y).count();
      format!("words of [{a},{b}) differ from number {j} on: got {:?} {:?}, expected {:?} {:?}\ntext {:?}", &got[j.min(got.len())..(j + 3).min(got.len())], s(&got[j.min(got.len())..(j + 3).min(got.len())]), &want[j.min(want.len())..(j + 3).min(want.len())], s(&want[j.min(want.len())..(j + 3).min(want.len())]), clip(&dnm.plaintext, 500))
    });
  }
}

const JOINED: &[&str] = &["t", "s", "un", "th", "ll", "d", "ve", "il", "re", "m"];

fn c10(cx: &mut Cx, k: u64) {
  let Some((_d, dnm)) = word_case(cx, k) else { return };
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  for _ in 0..3 {
    let range = some_range(cx, &dnm);
    let (a, b) = (range.start, range.end);
    cx.doing = format!("[{a},{b}) of {:?}", clip(&dnm.plaintext, 500));
    let got: Vec<(usize, usize)> = TOK.with(|t| t.words_and_punct(&range).iter().map(|r| (r.start, r.end)).collect());
    let (want, punct, joined) = tokens_in(&chars, a, b);
    cx.eval(&(dnm.plaintext.as_str(), a, b), want.len() >= 2 && punct > 0);
    cx.seen("tokens", got.len() as u64);
    cx.seen("punctuation", punct);
    cx.seen("apostrophe kept together", joined);
    cx.sample(|| format!("[{a},{b}) of {:?}", clip(&dnm.plaintext, 150)));
    cx.check(got == want, "tokens", || {
      let j = got.iter().zip(&want).take_while(|(x, y)| x == y).count();
      format!("tokens of [{a},{b}) differ from number {j} on: got {:?}, expected {:?}\ntext {:?}", &got[j.min(got.len())..(j + 3).min(got.len())], &want[j.min(want.len())..(j + 3).min(want.len())], clip(&dnm.plaintext, 500))
    });
  }
}

/// The alphanumeric runs of [a,b), apostrophes before s included.
pub fn words_in(chars: &[char], a: usize, b: usize) -> Vec<(usize, usize)> {
  let inword = |i: usize| chars[i].is_alphanumeric() || (matches!(chars[i], '\'' | '’') && i + 1 < b && chars[i + 1] == 's');
  let mut want = Vec::new();
  let mut i = a;
  while i < b {
    if inword(i) {
      let st = i;
      while i < b && inword(i) {
        i += 1;
      }
      want.push((st, i));
    } else {
      i += 1;
    }
  }
  want
}
/// Words and punctuation of [a,b): the tokens, how many are punctuation, how many apostrophes are
/// kept with the letters after them.
pub fn tokens_in(chars: &[char], a: usize, b: usize) -> (Vec<(usize, usize)>, u64, u64) {
  let mut want: Vec<(usize, usize)> = Vec::new();
  let mut i = a;
  let (mut punct, mut joined) = (0, 0);
  while i < b {
    if chars[i].is_whitespace() {
      i += 1;
    } else if chars[i].is_alphanumeric() {
      let st = i;
      while i < b && chars[i].is_alphanumeric() {
        i += 1;
      }
      let w: String = chars[st..i].iter().collect();
      match want.last_mut() {
        Some(p) if p.1 == st && matches!(chars[st - 1], '\'' | '’') && JOINED.contains(&w.as_str()) => {
          p.1 = i;
          joined += 1;
        },
        _ => want.push((st, i)),
      }
    } else {
      want.push((i, i + 1));
      punct += 1;
      i += 1;
    }
  }
  (want, punct, joined)
}
