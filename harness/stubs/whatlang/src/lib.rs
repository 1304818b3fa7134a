//! Offline stand-in for `whatlang`: `detect` is a recording test double. The monitor scripts the
//! answer (per thread) and reads back the text it was asked about.
use std::cell::RefCell;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Lang { Epo, Eng, Rus, Cmn, Spa, Por, Ita, Ben, Fra, Deu, Ukr, Kat, Ara, Hin, Jpn, Heb, Yid, Pol, Amh, Jav, Kor, Nob, Dan, Swe, Fin, Tur, Nld, Hun, Ces, Ell, Bul, Bel, Mar, Kan, Ron, Slv, Hrv, Srp, Mkd, Lit, Lav, Est, Tam, Vie, Urd, Tha, Guj, Uzb, Pan, Aze, Ind, Tel, Pes, Mal, Ori, Mya, Nep, Sin, Khm, Tuk, Aka, Zul, Sna, Afr, Lat, Slk, Cat, Tgl, Hye }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Script { Arabic, Armenian, Bengali, Cyrillic, Devanagari, Ethiopic, Georgian, Greek, Gujarati, Gurmukhi, Hangul, Hebrew, Hiragana, Kannada, Katakana, Khmer, Latin, Malayalam, Mandarin, Myanmar, Oriya, Sinhala, Tamil, Telugu, Thai }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Info { script: Script, lang: Lang, confidence: f64 }
impl Lang {
  /// the ISO 639-3 code
  pub fn code(&self) -> &'static str {
    match self {
      Lang::Epo => "epo",
      Lang::Eng => "eng",
      Lang::Rus => "rus",
      Lang::Cmn => "cmn",
      Lang::Spa => "spa",
      Lang::Por => "por",
      Lang::Ita => "ita",
      Lang::Ben => "ben",
      Lang::Fra => "fra",
      Lang::Deu => "deu",
      Lang::Ukr => "ukr",
      Lang::Kat => "kat",
      Lang::Ara => "ara",
      Lang::Hin => "hin",
      Lang::Jpn => "jpn",
      Lang::Heb => "heb",
      Lang::Yid => "yid",
      Lang::Pol => "pol",
      Lang::Amh => "amh",
      Lang::Jav => "jav",
      Lang::Kor => "kor",
      Lang::Nob => "nob",
      Lang::Dan => "dan",
      Lang::Swe => "swe",
      Lang::Fin => "fin",
      Lang::Tur => "tur",
      Lang::Nld => "nld",
      Lang::Hun => "hun",
      Lang::Ces => "ces",
      Lang::Ell => "ell",
      Lang::Bul => "bul",
      Lang::Bel => "bel",
      Lang::Mar => "mar",
      Lang::Kan => "kan",
      Lang::Ron => "ron",
      Lang::Slv => "slv",
      Lang::Hrv => "hrv",
      Lang::Srp => "srp",
      Lang::Mkd => "mkd",
      Lang::Lit => "lit",
      Lang::Lav => "lav",
      Lang::Est => "est",
      Lang::Tam => "tam",
      Lang::Vie => "vie",
      Lang::Urd => "urd",
      Lang::Tha => "tha",
      Lang::Guj => "guj",
      Lang::Uzb => "uzb",
      Lang::Pan => "pan",
      Lang::Aze => "aze",
      Lang::Ind => "ind",
      Lang::Tel => "tel",
      Lang::Pes => "pes",
      Lang::Mal => "mal",
      Lang::Ori => "ori",
      Lang::Mya => "mya",
      Lang::Nep => "nep",
      Lang::Sin => "sin",
      Lang::Khm => "khm",
      Lang::Tuk => "tuk",
      Lang::Aka => "aka",
      Lang::Zul => "zul",
      Lang::Sna => "sna",
      Lang::Afr => "afr",
      Lang::Lat => "lat",
      Lang::Slk => "slk",
      Lang::Cat => "cat",
      Lang::Tgl => "tgl",
      Lang::Hye => "hye",
    }
  }
}
impl std::fmt::Display for Lang {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.code()) }
}
impl std::fmt::Display for Script {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") }
}
impl Info {
  pub fn new(script: Script, lang: Lang, confidence: f64) -> Info { Info { script, lang, confidence } }
  pub fn script(&self) -> Script { self.script }
  pub fn lang(&self) -> Lang { self.lang }
  pub fn confidence(&self) -> f64 { self.confidence }
  pub fn is_reliable(&self) -> bool { self.confidence > 0.9 }
}
thread_local! {
  static ANSWER: RefCell<Option<Info>> = const { RefCell::new(None) };
  static ASKED: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
pub fn script_answer(info: Option<Info>) { ANSWER.with(|a| *a.borrow_mut() = info); }
pub fn take_asked() -> Vec<String> { ASKED.with(|a| std::mem::take(&mut *a.borrow_mut())) }
pub fn detect(text: &str) -> Option<Info> {
  if let Some(seed) = seed() {
    return detect_by_hash(text, seed);
  }
  ASKED.with(|a| a.borrow_mut().push(text.to_string()));
  ANSWER.with(|a| *a.borrow())
}
/// In a process of its own the answers are a function of the text and a seed.
fn seed() -> Option<u64> {
  static SEED: std::sync::OnceLock<Option<u64>> = std::sync::OnceLock::new();
  *SEED.get_or_init(|| std::env::var("WHATLANG_STANDIN_SEED").ok().and_then(|s| s.parse().ok()))
}
pub fn detect_by_hash(text: &str, seed: u64) -> Option<Info> {
  let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
  let mut words = 0;
  for b in text.split_whitespace().flat_map(|w| w.bytes().chain([b' '])) {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    words += 1;
  }
  h ^= h >> 29;
  if words == 0 {
    return None;
  }
  match h % 8 {
    0 => Some(Info::new(Script::Latin, Lang::Deu, 0.95)),
    1 => Some(Info::new(Script::Latin, Lang::Fra, 0.5)),
    2 => Some(Info::new(Script::Greek, Lang::Ell, 0.2)),
    3 => None,
    _ => Some(Info::new(Script::Latin, Lang::Eng, 1.0)),
  }
}
pub fn detect_lang(text: &str) -> Option<Lang> { detect(text).map(|i| i.lang()) }
pub fn detect_script(text: &str) -> Option<Script> { detect(text).map(|i| i.script()) }
