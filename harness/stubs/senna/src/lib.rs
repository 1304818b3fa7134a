//! Offline stand-in for `rust-senna`: the data types llamapun consumes, publicly constructible so
//! that a monitor can present any sentence analysis, and a trivial `Senna::parse` (whitespace and
//! punctuation tokens with **byte** offsets, as in senna).
macro_rules! str_enum {
  ($name:ident, $gen:ident, $($variant:ident => $text:expr),+ $(,)?) => {
    #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum $name { $($variant),+, NOT_SET }
    impl $name {
      pub const ALL: &'static [($name, &'static str)] = &[$(($name::$variant, $text)),+];
      pub fn $gen() -> std::collections::HashMap<&'static str, $name> {
        Self::ALL.iter().map(|(v, s)| (*s, *v)).collect()
      }
      pub fn to_str(&self) -> &'static str {
        Self::ALL.iter().find(|(v, _)| v == self).map(|(_, s)| *s).unwrap_or("")
      }
    }
  };
}
pub mod pos {
  str_enum!(POS, generate_str_to_pos_map,
    CC => "CC", CD => "CD", DT => "DT", EX => "EX", FW => "FW", IN => "IN", JJ => "JJ",
    JJR => "JJR", JJS => "JJS", LS => "LS", MD => "MD", NN => "NN", NNS => "NNS", NNP => "NNP",
    NNPS => "NNPS", PDT => "PDT", POSS => "POS", PRP => "PRP", PRP_ => "PRP$", RB => "RB",
    RBR => "RBR", RBS => "RBS", RP => "RP", SYM => "SYM", TO => "TO", UH => "UH", VB => "VB",
    VBD => "VBD", VBG => "VBG", VBN => "VBN", VBP => "VBP", VBZ => "VBZ", WDT => "WDT",
    WP => "WP", WP_ => "WP$", WRB => "WRB", COMMA => ",", PERIOD => ".", COLON => ":");
}
pub mod phrase {
  str_enum!(Phrase, generate_str_to_phrase_map,
    S => "S", SBAR => "SBAR", SBARQ => "SBARQ", SINV => "SINV", SQ => "SQ", ADJP => "ADJP",
    ADVP => "ADVP", CONJP => "CONJP", FRAG => "FRAG", INTJ => "INTJ", LST => "LST", NAC => "NAC",
    NP => "NP", NX => "NX", PP => "PP", PRN => "PRN", PRT => "PRT", QP => "QP", RRC => "RRC",
    UCP => "UCP", VP => "VP", WHADJP => "WHADJP", WHAVP => "WHAVP", WHNP => "WHNP",
    WHPP => "WHPP", X => "X");
}
pub mod sennapath {
  pub static SENNA_PATH: &str = "/nonexistent/senna";
}
pub mod sentence {
  use super::phrase::Phrase;
  use super::pos::POS;
  #[derive(Clone, Debug)]
  pub struct Word<'t> {
    pub string: &'t str,
    pub offset_start: usize,
    pub offset_end: usize,
    pub pos: POS,
    pub index: u32,
  }
  impl<'t> Word<'t> {
    pub fn get_string(&self) -> &'t str { self.string }
    pub fn get_pos(&self) -> POS { self.pos }
    pub fn get_offset_start(&self) -> usize { self.offset_start }
    pub fn get_offset_end(&self) -> usize { self.offset_end }
    pub fn get_index(&self) -> u32 { self.index }
  }
  #[derive(Clone, Debug)]
  pub struct PSGParentContent {
    pub label: Phrase,
    pub children: Vec<PSGNode>,
  }
  impl PSGParentContent {
    pub fn get_label(&self) -> Phrase { self.label }
    pub fn get_children(&self) -> &[PSGNode] { &self.children }
  }
  #[derive(Clone, Debug)]
  pub enum PSGNode {
    Leaf(usize),
    Parent(PSGParentContent),
  }
  #[derive(Clone, Debug)]
  pub struct Sentence<'t> {
    pub string: &'t str,
    pub words: Vec<Word<'t>>,
    pub psgroot: Option<PSGNode>,
  }
  impl<'t> Sentence<'t> {
    pub fn get_string(&self) -> &'t str { self.string }
    pub fn get_words(&self) -> &Vec<Word<'t>> { &self.words }
    pub fn get_psgroot(&self) -> Option<&PSGNode> { self.psgroot.as_ref() }
  }
}
pub mod senna {
  use super::phrase::Phrase;
  use super::pos::POS;
  use super::sentence::*;
  #[derive(Clone, Copy, Debug, Default)]
  pub struct SennaParseOptions {
    pub pos: bool,
    pub psg: bool,
  }
  pub struct Senna {
    path: String,
  }
  impl Senna {
    pub fn new(path: String) -> Senna { Senna { path } }
    pub fn get_path(&self) -> &str { &self.path }
    pub fn parse<'t>(&mut self, text: &'t str, options: SennaParseOptions) -> Sentence<'t> {
      let mut words: Vec<Word<'t>> = Vec::new();
      let mut start: Option<usize> = None;
      let mut spans: Vec<(usize, usize)> = Vec::new();
      for (i, c) in text.char_indices() {
        if c.is_alphanumeric() {
          if start.is_none() {
            start = Some(i);
          }
        } else {
          if let Some(s) = start.take() {
            spans.push((s, i));
          }
          if !c.is_whitespace() {
            spans.push((i, i + c.len_utf8()));
          }
        }
      }
      if let Some(s) = start {
        spans.push((s, text.len()));
      }
      for (index, (s, e)) in spans.into_iter().enumerate() {
        let string = &text[s..e];
        let pos = if !options.pos {
          POS::NOT_SET
        } else if string == "." {
          POS::PERIOD
        } else if string.chars().all(|c| c.is_numeric()) {
          POS::CD
        } else {
          POS::NN
        };
        words.push(Word { string, offset_start: s, offset_end: e, pos, index: index as u32 });
      }
      let psgroot = if options.psg {
        Some(PSGNode::Parent(PSGParentContent {
          label: Phrase::S,
          children: (0..words.len()).map(PSGNode::Leaf).collect(),
        }))
      } else {
        None
      };
      Sentence { string: text, words, psgroot }
    }
  }
}
