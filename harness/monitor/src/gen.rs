//! Generators of hostile documents, and the reference model of a document: a snapshot of the DOM
//! taken through the XML library, and the flattening of that snapshot written from the
//! documentation of the DNM parameters.
use crate::cx::Rng;
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::{Document, NodeType};
#[cfg(feature = "full")]
use llamapun::dnm::{DNMParameters, SpecialTagsOption};
use std::collections::HashMap;
#[cfg(feature = "full")]
use std::sync::Arc;

/* ------------------------------------------------------------------ text */

pub const WORDS: &[&str] = &[
  "let", "the", "theorem", "proof", "We", "space", "Since", "holds", "Banach", "x", "n", "I", "A",
  "function", "e", "etc", "Fig", "vs", "resp", "eq", "Prof", "cf", "It", "follows", "that", "is",
  "don't", "ain't", "Lagrange's", "mathformula", "CitationElement", "REF", "continuous", "iPhone",
  "bounded", "there", "exists", "such", "And", "However", "a", "in", "Ω", "naïve", "Café", "Über",
  "École", "Å", "é", "ﬁnite", "ﬀ", "straße", "İstanbul", "Δ", "ΟΔΟΣ", "日本", "語", "Привет", "мир",
  "ℝ", "𝔄bc", "x²", "½", "٣", "rock’n’roll", "we’ll", "o'clock", "'til", "’tis", "12", "3.14", "1,000",
  "p.m", "i.e", "e.g", "U.S", "No", "Th", "Dr", "counterexample", "Radon-Nikodym", "under_score",
  "abcdefghijklmnopqrstuvwxyzabcdef", "Supercalifragilisticexpialidocious", "ÄÖÜäöüßÄÖÜäöüßÄÖÜäöüß",
  "s", "S", "t", "ve", "m", "ll", "running", "cats", "studies", "McDonald", "eBook", "zzZ",
];
pub const SEPS: &[&str] = &[
  " ", " ", " ", " ", " ", "  ", "\n", "\n\n", " \n ", "\t", ", ", ". ", ". ", ".", ".\n", ": ", ":",
  "? ", "! ", "?", "!", "; ", " (", ") ", "[", "]", "\"", "'", "’", "‘", "“", "”", "-", "—", "…", "...",
  "\u{a0}", "\u{2003}", "\u{3000}", "*", "(?)", "[!]", "'?'", "\"!\"", "{?}", ". '", ".''", "\n \n",
  "\n\n\n", ".\u{a0}", "/", "%", "€", "\u{200b}", "\u{301}", "_", "=", "+", "<", "&", ">", ",", ". \"", ". (", ". *",
];
const ODD: &[char] = &[
  'a', 'Z', 'é', 'É', 'ß', 'ﬁ', 'ﬃ', 'İ', 'ŉ', 'ǆ', '€', '—', '’', '\'', '.', ':', '?', '!', ' ', '\n', '\u{a0}', '\u{2028}',
  '\u{3000}', '日', '😀', '𝔸', 'Ⅷ', '½', '²', '٣', '7', '0', '_', '-', '"', '(', ')', '[', ']', '{', '}', '*', '\u{301}', '\u{1680}', 's', 't', 'm', 'I', '\t', 'ς', 'Σ', 'ΐ',
];

/// Words with a meaning to some rule, which the general words leave out.
pub const RULE_WORDS: &[&str] = &[
  "Sec", "Thm", "Eqs", "eqs", "Ref", "Refs", "Inc", "Jan", "jr", "Mr", "Mrs", "St", "al", "Ph", "QED", "Tech", "univ", "oct", "Calif", "conj", "Wis", "P-a.s", "Hwy",
  "an", "but", "of", "THE", "These", "mATHFORMULA", "MathFormula", "mathformulas", "premathformula", "citationelement", "CITATIONELEMENT", "ref", "Ref", "NUM", "NUM1",
  "a1", "2a", "3k", "4l", "-5", "1e5", "1.5e-7", "7.", ".7", "12b", "x_1", "A_B_C", "_", "__", "un", "th", "d", "il", "re", "T", "Un", "LL", "'s", "’s", "'S", "n't",
];
/// Any character XML can carry, with all of ASCII and the scripts that have special cases likely.
pub fn any_char(r: &mut Rng) -> char {
  loop {
    let (lo, hi) = match r.below(20) {
      0..=7 => (0x20, 0x7e),
      8..=15 => *r.pick(&[
        (0x80, 0xff), (0x100, 0x24f), (0x250, 0x36f), (0x370, 0x3ff), (0x400, 0x5ff), (0x600, 0x6ff), (0x900, 0x97f), (0x10a0, 0x10ff), (0x1e00, 0x1fff), (0x2000, 0x206f),
        (0x2070, 0x218f), (0x2190, 0x2bff), (0x2c00, 0x2dff), (0x3000, 0x30ff), (0x4e00, 0x4fff), (0xab70, 0xabbf), (0xac00, 0xacff), (0xe000, 0xe0ff), (0xfb00, 0xfb4f),
        (0xfe00, 0xfffd), (0x10400, 0x1044f), (0x1d400, 0x1d7ff), (0x1f100, 0x1f6ff), (0x20000, 0x200ff), (0xe0000, 0xe007f),
      ]),
      16..=17 => *r.pick(&[(9, 10), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200f), (0x2028, 0x202f), (0x205f, 0x2060), (0x3000, 0x3000), (0xfeff, 0xfeff), (0xad, 0xad)]),
      18 => (0x20, 0x10ffff),
      _ => ('a' as u32, 'z' as u32),
    };
    if let Some(c) = char::from_u32(lo + r.below((hi - lo + 1) as usize) as u32) {
      if c != '\u{fffe}' && c != '\u{ffff}' {
        return c;
      }
    }
  }
}

/// Text made of the above, containing only characters XML can carry (no CR: parsers normalize it).
pub fn text(r: &mut Rng, max: usize) -> String {
  let mut s = String::new();
  let n = r.range(0, max);
  let style = r.below(12);
  for _ in 0..n {
    match style {
      10 => s.push(any_char(r)),
      11 => match r.below(6) {
        0 | 1 => s.push_str(*r.pick(SEPS)),
        2 => s.push(any_char(r)),
        3 => s.push_str(*r.pick(WORDS)),
        _ => {
          s.push_str(*r.pick(RULE_WORDS));
          s.push_str(*r.pick(&[" ", " ", ". ", ".", "", ": ", "\n"]));
        },
      },
      0 => s.push(*r.pick(ODD)),
      1 => {
        s.push_str(*r.pick(WORDS));
        s.push(' ');
      },
      2..=3 => {
        if r.chance(1, 3) {
          s.push(*r.pick(ODD))
        } else if r.chance(1, 2) {
          s.push_str(*r.pick(SEPS))
        } else {
          s.push_str(*r.pick(WORDS))
        }
      },
      _ => {
        s.push_str(*r.pick(WORDS));
        s.push_str(*r.pick(SEPS));
      },
    }
  }
  s
}
/// Text longer than any plausible limit or counter: one unit repeated, a monster word, or a mixture.
pub fn long_text(r: &mut Rng) -> String {
  let n = *r.pick(&[300, 1_100, 4_200, 9_000, 33_000, 66_000, 70_000]);
  let mut s = String::new();
  let unit = match r.below(5) {
    0 => r.pick(WORDS).to_string(),
    1 => format!("{}{}", r.pick(WORDS), r.pick(SEPS)),
    2 => format!("{} {} {}. ", r.pick(WORDS), r.pick(WORDS), r.pick(WORDS)),
    3 => r.pick(ODD).to_string(),
    _ => String::new(),
  };
  let mut len = 0;
  let front = text(r, 6);
  s.push_str(&front);
  while len < n {
    let t = if unit.is_empty() { text(r, 40) + " " } else { unit.clone() };
    len += t.chars().count();
    s.push_str(&t);
  }
  s.push_str(&text(r, 6));
  s
}
/// English-looking prose, ASCII unless `wide`.
pub fn prose(r: &mut Rng, words: usize, wide: bool) -> String {
  let mut s = String::new();
  for _ in 0..words {
    let w = loop {
      let w = *r.pick(WORDS);
      if wide || w.is_ascii() {
        break w;
      }
    };
    s.push_str(w);
    s.push_str(*r.pick(&[" ", " ", " ", " ", ", ", ". ", ".\n", ": ", " "]));
  }
  s
}

pub fn escape(s: &str) -> String {
  s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

/* ------------------------------------------------------------------ trees */

pub const NAMES: &[&str] = &["div", "p", "span", "em", "math", "mi", "cite", "a", "text", "img", "table", "tr", "b", "section"];
pub const CLASSES: &[&str] = &[
  "ltx_para", "ltx_p", "ltx_ref", "ltx_equation", "ltx_note_mark", "c1", "c2", "c3", "ltx_title", "ltx_tag", "ltx_theorem",
];

pub struct TreeOpts<'a> {
  pub names: &'a [&'a str],
  pub classes: &'a [&'a str],
  pub ids: bool,
  pub namespaces: bool,
  pub comments: bool,
  pub depth: usize,
  pub width: usize,
  pub text: usize,
  pub blank: bool,
}
impl<'a> TreeOpts<'a> {
  pub fn basic() -> TreeOpts<'static> {
    TreeOpts { names: NAMES, classes: CLASSES, ids: true, namespaces: false, comments: true, depth: 5, width: 5, text: 5, blank: true }
  }
}

pub fn attrs(r: &mut Rng, o: &TreeOpts, ids: &mut usize) -> String {
  let mut s = String::new();
  if r.chance(2, 5) && !o.classes.is_empty() {
    let n = r.range(0, 3);
    let mut c: Vec<&str> = (0..n).map(|_| *r.pick(o.classes)).collect();
    if r.chance(1, 8) {
      c.push("zzz_unknown");
    }
    let sep = if r.chance(1, 8) { *r.pick(&["  ", "&#9;", "&#10;", " &#10; "]) } else { " " };
    s.push_str(&format!(" class=\"{}\"", c.join(sep)));
  }
  if o.ids && r.chance(1, 4) {
    *ids += 1;
    let x = r.below(3);
    match r.below(24) {
      // ids may hold anything
      0 => s.push_str(&format!(" id=\"{}{ids}\"", r.pick(&["a,b", "a),b", "a],b", "it's ", "xéé", "日本", "&quot;q&quot;", "f(", "é#", "1. ", "@id=", "],string-index(/x,1)"]))),
      // not the id attribute
      1 if o.namespaces => s.push_str(&format!(" xml:id=\"x{x}.p{ids}\"")),
      _ => s.push_str(&format!(" id=\"S{x}.p{ids}\"")),
    }
  }
  if r.chance(1, 8) {
    s.push_str(&format!(" title=\"{}\"", escape(&text(r, 2)).replace('\n', " ")));
  }
  s
}

/// One element with children. Adjacent text pieces merge, as in any parsed document.
pub fn element(r: &mut Rng, o: &TreeOpts, name: &str, depth: usize, ids: &mut usize, out: &mut String) {
  let (open, close) = if o.namespaces && r.chance(1, 3) {
    match r.below(3) {
      0 => (format!("m:{name}"), format!("m:{name}")),
      1 => (format!("k:{name}"), format!("k:{name}")),
      _ => (format!("{name} xmlns=\"urn:{}\"", r.pick(&["d", "m"])), name.to_string()),
    }
  } else {
    (name.to_string(), name.to_string())
  };
  out.push_str(&format!("<{}{}", open, attrs(r, o, ids)));
  let n = if depth == 0 { r.below(2) } else { r.range(0, o.width) };
  if n == 0 && r.chance(1, 2) {
    out.push_str("/>");
    return;
  }
  out.push('>');
  for _ in 0..n {
    children_piece(r, o, depth, ids, out);
  }
  out.push_str(&format!("</{close}>"));
}
fn children_piece(r: &mut Rng, o: &TreeOpts, depth: usize, ids: &mut usize, out: &mut String) {
  match r.below(12) {
    0..=4 => {
      let t = text(r, o.text);
      out.push_str(&escape(&t));
    },
    5 if o.comments => match r.below(4) {
      3 => out.push_str(r.pick(&["<![CDATA[raw <text> here]]>", "<![CDATA[ ]]>"])),
      0 => out.push_str("<!-- a comment. With Text -->"),
      1 => out.push_str("<?proc ins truction?>"),
      _ => out.push_str("<!---->"),
    },
    6 if o.blank => out.push_str(r.pick(&[" ", "\n", "\n  ", "&#160;", "\t"])),
    _ => {
      if depth > 0 {
        let name = *r.pick(o.names);
        element(r, o, name, depth - 1, ids, out)
      } else {
        out.push_str(&escape(*r.pick(WORDS)));
      }
    },
  }
}

pub const NS_DECL: &str = " xmlns:m=\"urn:m\" xmlns:k=\"urn:k\"";

/// references to entities after some of the tags below the body
fn refer(r: &mut Rng, s: &str) -> String {
  let at = s.find("<body>").expect("body");
  let mut out = String::new();
  for (i, c) in s.char_indices() {
    out.push(c);
    if i > at && c == '>' && i + 16 < s.len() && !s[..=i].ends_with("-->") && !s[..=i].ends_with("?>") && !s[..=i].ends_with("]]>") && r.chance(1, 4) {
      let n = r.range(1, 2);
      for _ in 0..n {
        out.push_str(r.pick(&["&eps;", "&eps;", "&bl;", "&mk;", "&last;", "&undeclared;"]));
      }
    }
  }
  out
}

/// A document whose root is `html` with one `body` (and sometimes a `head` before it), no text
/// directly below the root.
pub fn document(r: &mut Rng, o: &TreeOpts) -> String {
  let mut s = String::new();
  let mut entities = false;
  if r.chance(1, 4) {
    s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
  }
  if r.chance(1, 6) {
    s.push_str(r.pick(&["<!-- generated by a converter -->\n", "<?style sheet?>", "<!DOCTYPE html>\n", "<!DOCTYPE html SYSTEM \"about:legacy-compat\" [<!ENTITY eps \"e\">]>"]));
  } else if o.comments && r.chance(1, 12) {
    // entities declared in the document itself
    entities = true;
    s.push_str("<!DOCTYPE html [<!ENTITY eps \"ε E\"><!ENTITY bl \" \n \"><!ENTITY mk \"<b class='c1'>İx</b> &eps;\"><!ENTITY last \"end.\">]>");
  }
  let mut ids = 0;
  s.push_str(&format!("<html{}>", if o.namespaces { NS_DECL } else { "" }));
  if r.chance(1, 3) {
    s.push_str("<head><title>Some title</title></head>");
  }
  s.push_str("<body>");
  let n = r.range(0, o.width + 2);
  for _ in 0..n {
    children_piece(r, o, o.depth, &mut ids, &mut s);
  }
  s.push_str("</body></html>");
  if entities {
    s = refer(r, &s);
  }
  if r.chance(1, 6) {
    s.push_str(r.pick(&["\n", "<!-- the end -->", "\n<!-- a --> <?p i?>\n<!---->"]));
  }
  s
}

/// A document that is large in one respect: text, depth, siblings, replaced elements, classes or
/// attributes.
pub fn large_document(r: &mut Rng, o: &TreeOpts) -> String {
  let mut s = format!("<html{}><body>", if o.namespaces { NS_DECL } else { "" });
  let mut ids = 0;
  let name = *r.pick(o.names);
  let class = if o.classes.is_empty() || r.chance(1, 2) { String::new() } else { format!(" class=\"{}\"", r.pick(o.classes)) };
  let few = *r.pick(&[130, 260, 300, 700, 1_100]);
  element(r, o, "div", 2, &mut ids, &mut s);
  match r.below(6) {
    0 | 1 => s.push_str(&format!("<{name}{class}>{}</{name}>", escape(&long_text(r)))),
    2 => {
      let depth = few.min(240);
      let t = [escape(&text(r, 4)), escape(&text(r, 4)), escape(&text(r, 2))];
      let plain = *r.pick(&["em", "b", "i", "span", "div"]);
      s.push_str(&format!("{}{}{}{}", format!("<{plain}>{}", t[2]).repeat(depth), t[0], format!("</{plain}>").repeat(depth), t[1]));
    },
    3 => {
      for i in 0..few {
        match i % 3 {
          0 => s.push_str(&format!("<{name}{class}>x{i}</{name}>")),
          1 => s.push_str(&format!("<p>{}</p>", escape(&text(r, 2)))),
          _ => s.push_str("<!-- c --> t "),
        }
      }
    },
    4 => {
      for _ in 0..few {
        s.push_str("of <math><mi>x</mi></math><cite>y</cite>, ");
      }
    },
    _ => {
      let mut c: Vec<String> = (0..few).map(|i| format!("q{i}")).collect();
      if !o.classes.is_empty() {
        c.push(r.pick(o.classes).to_string());
      }
      s.push_str(&format!("<{name} class=\"{}\" title=\"{}\">{}</{name}>", c.join(" "), "t".repeat(few * 9), escape(&text(r, 5))));
    },
  }
  element(r, o, "section", 2, &mut ids, &mut s);
  s.push_str("</body></html>");
  s
}

/// An article that is large in one respect: length, paragraphs, sentences, depth or references.
pub fn large_article(r: &mut Rng) -> String {
  let mut s = String::from("<html><body><div class=\"ltx_page_content\">");
  para(r, 1, &mut s);
  let few = *r.pick(&[70, 130, 300, 700, 1_100]);
  let par = |t: String| format!("<div class=\"ltx_para\"><p class=\"ltx_p\">{t}</p></div>\n");
  match r.below(6) {
    0 => {
      for _ in 0..few {
        let t = escape(&prose(r, 6, false));
        s.push_str(&par(t));
      }
    },
    1 => {
      // one long paragraph of short sentences
      let t = escape(&prose(r, few * 10, false));
      s.push_str(&par(t));
    },
    2 => s.push_str(&par(escape(&long_text(r)))),
    3 => {
      let depth = few.min(200);
      let inner = par(escape(&prose(r, 20, false)));
      s.push_str(&format!("{}{inner}{}", "<div>".repeat(depth), "</div>".repeat(depth)));
    },
    4 => {
      let unit = format!("see <cite>k</cite>, <a class=\"ltx_ref\">3</a> of {} and ", annotated_math(r));
      s.push_str(&par(unit.repeat(few)));
    },
    _ => {
      for i in 0..few {
        heading(r, i % 6 + 1, &mut s);
        if i % 3 == 0 {
          s.push_str("<div class=\"ltx_keywords\">a, b</div><figure><figcaption class=\"ltx_caption\">We see it.</figcaption></figure>");
        }
      }
    },
  }
  para(r, 1, &mut s);
  s.push_str("</div></body></html>\n");
  unique_ids(&s)
}

/// More than 64 KiB of words, in paragraphs without overlong words.
pub fn many_paragraphs(r: &mut Rng) -> String {
  let mut s = String::from("<html><body>");
  for _ in 0..700 {
    s.push_str("<div class=\"ltx_para\"><p class=\"ltx_p\">");
    for _ in 0..25 {
      let w = loop {
        let w = *r.pick(WORDS);
        if w.is_ascii() && w.len() < 12 {
          break w;
        }
      };
      s.push_str(&escape(w));
      s.push_str(*r.pick(&[" ", " ", " ", ". We see "]));
    }
    s.push_str("</p></div>\n");
  }
  s.push_str("</body></html>\n");
  s
}

pub fn parse(xml: &str) -> Document { Parser::default().parse_string(xml).expect("generated XML parses") }

pub fn real_docs() -> Vec<&'static str> {
  vec![
    "/repo/tests/resources/0903.1000.html",
    "/repo/tests/resources/1307.8133.html",
    "/repo/tests/resources/1311.0066.xhtml",
    "/repo/tests/resources/astro-ph9710163.html",
  ]
}
pub fn real_doc(path: &str) -> Option<Document> {
  if path.ends_with(".xhtml") || path.ends_with(".xml") {
    Parser::default().parse_file(path).ok()
  } else {
    Parser::default_html().parse_file(path).ok()
  }
}

/* ------------------------------------------------------------------ parameters */

#[cfg(feature = "full")]
fn f_name(n: RoNode) -> String { format!("<{}>", n.get_name()) }
#[cfg(feature = "full")]
fn f_fixed(_: RoNode) -> String { "ﬁx—ed tok".into() }
#[cfg(feature = "full")]
fn f_title(n: RoNode) -> String { n.get_property("title").unwrap_or_default() }
#[cfg(feature = "full")]
fn f_len(n: RoNode) -> String { format!("len{}", n.get_content().len()) }

#[cfg(feature = "full")]
pub fn option(r: &mut Rng) -> SpecialTagsOption {
  match r.below(8) {
    0 | 1 => SpecialTagsOption::Enter,
    2 | 3 => SpecialTagsOption::Skip,
    4 | 5 => SpecialTagsOption::Normalize(r.pick(&["", "tok", "Mathé", "\nmathformula\n", "a  b", " x", "ÀÉ"]).to_string()),
    6 => SpecialTagsOption::FunctionNormalize(Arc::new(f_name as fn(RoNode) -> String)),
    _ => SpecialTagsOption::FunctionNormalize(Arc::new(*r.pick(&[
      f_fixed as fn(RoNode) -> String,
      f_len as fn(RoNode) -> String,
      f_title as fn(RoNode) -> String,
    ]))),
  }
}

#[cfg(feature = "full")]
pub fn params(r: &mut Rng, back: Option<bool>) -> DNMParameters {
  if r.chance(1, 6) {
    let mut p = DNMParameters::llamapun_normalization();
    if let Some(b) = back {
      p.support_back_mapping = b;
    }
    return p;
  }
  let mut names = HashMap::new();
  let mut classes = HashMap::new();
  for _ in 0..r.below(5) {
    let o = option(r);
    names.insert(r.pick(NAMES).to_string(), o);
  }
  for _ in 0..r.below(5) {
    let o = option(r);
    classes.insert(r.pick(CLASSES).to_string(), o);
  }
  let back = back.unwrap_or_else(|| r.chance(2, 3));
  let stem = if back { 0 } else { r.below(6) };
  DNMParameters {
    special_tag_name_options: names,
    special_tag_class_options: classes,
    normalize_white_spaces: r.chance(1, 2),
    wrap_tokens: r.chance(1, 2),
    normalize_unicode: r.chance(1, 2),
    stem_words_once: stem == 1,
    stem_words_full: stem == 2,
    convert_to_lowercase: r.chance(1, 3),
    support_back_mapping: back,
  }
}
#[cfg(feature = "full")]
pub fn describe(p: &DNMParameters) -> String {
  format!(
    "ws={} wrap={} uni={} stem={}/{} lower={} back={} names={:?} classes={:?}",
    p.normalize_white_spaces,
    p.wrap_tokens,
    p.normalize_unicode,
    p.stem_words_once,
    p.stem_words_full,
    p.convert_to_lowercase,
    p.support_back_mapping,
    p.special_tag_name_options,
    p.special_tag_class_options
  )
}

/* ------------------------------------------------------------------ snapshot */

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
  Text,
  Element,
  Other,
}
pub struct SNode {
  pub ro: RoNode,
  pub kind: Kind,
  pub name: String,
  /// prefix and href
  pub ns: Option<(String, String)>,
  pub class: Vec<String>,
  pub id: Option<String>,
  pub content: String,
  pub children: Vec<usize>,
  pub parent: Option<usize>,
}
pub struct Snap {
  pub nodes: Vec<SNode>,
  pub of: HashMap<usize, usize>,
}
impl Snap {
  /// nodes in document order, index 0 being `root`
  pub fn new(root: RoNode) -> Snap {
    let mut s = Snap { nodes: Vec::new(), of: HashMap::new() };
    // explicit stack: documents may be deep
    let mut stack = vec![(root, None)];
    while let Some((n, parent)) = stack.pop() {
      let kind = match n.get_type() {
        // the replacement text of an entity reference; its children are declarations
        Some(NodeType::TextNode) | Some(NodeType::EntityRefNode) => Kind::Text,
        Some(NodeType::ElementNode) => Kind::Element,
        _ => Kind::Other,
      };
      let el = kind == Kind::Element;
      let me = s.nodes.len();
      s.nodes.push(SNode {
        ro: n,
        kind,
        name: n.get_name(),
        ns: if el { n.get_namespace().map(|x| (x.get_prefix(), x.get_href())) } else { None },
        class: if el {
          n.get_property("class").unwrap_or_default().split_whitespace().map(str::to_string).collect()
        } else {
          vec![]
        },
        id: if el { n.get_property_no_ns("id") } else { None },
        content: if kind == Kind::Text { n.get_content() } else { String::new() },
        children: vec![],
        parent,
      });
      s.of.insert(n.to_hashable(), me);
      if let Some(p) = parent {
        let p: usize = p;
        s.nodes[p].children.push(me);
      }
      if kind != Kind::Text {
        let mut kids = Vec::new();
        let mut c = n.get_first_child();
        while let Some(k) = c {
          kids.push(k);
          c = k.get_next_sibling();
        }
        for k in kids.into_iter().rev() {
          stack.push((k, Some(me)));
        }
      }
    }
    s
  }
  pub fn idx(&self, n: RoNode) -> Option<usize> { self.of.get(&n.to_hashable()).copied() }
  /// strict ancestors, nearest first
  pub fn ancestors(&self, mut i: usize) -> Vec<usize> {
    let mut v = Vec::new();
    while let Some(p) = self.nodes[i].parent {
      v.push(p);
      i = p;
    }
    v
  }
  pub fn is_ancestor_or_self(&self, a: usize, mut i: usize) -> bool {
    loop {
      if a == i {
        return true;
      }
      match self.nodes[i].parent {
        Some(p) => i = p,
        None => return false,
      }
    }
  }
  /// number of nodes in the subtree of i (they are i..i+size)
  pub fn subtree_end(&self, i: usize) -> usize {
    let mut j = i + 1;
    while j < self.nodes.len() && self.is_ancestor_or_self(i, j) {
      j += 1;
    }
    j
  }
  pub fn has_class(&self, i: usize, c: &str) -> bool { self.nodes[i].class.iter().any(|x| x == c) }
  /// concatenated text of the subtree
  pub fn all_text(&self, i: usize) -> String {
    (i..self.subtree_end(i)).map(|j| self.nodes[j].content.as_str()).collect()
  }
}

/* ------------------------------------------------------------------ reference flattening */

/// (character, source node, offset in the source's characters or -1 for tokens)
pub struct Flat {
  pub chars: Vec<(char, usize, i32)>,
  /// start and end for every visited node
  pub ranges: HashMap<usize, (usize, usize)>,
  pub tokens: usize,
  pub collapsed: usize,
  pub expanded: usize,
}
impl Flat {
  pub fn text(&self) -> String { self.chars.iter().map(|c| c.0).collect() }
}

pub enum Rule {
  Enter,
  Skip,
  Token(String),
}
#[cfg(feature = "full")]
pub fn rule_for(snap: &Snap, i: usize, p: &DNMParameters) -> Rule {
  let n = &snap.nodes[i];
  let applicable = n
    .class
    .iter()
    .filter_map(|c| p.special_tag_class_options.get(c))
    .chain(p.special_tag_name_options.get(&n.name))
    .next();
  match applicable {
    None | Some(SpecialTagsOption::Enter) => Rule::Enter,
    Some(SpecialTagsOption::Skip) => Rule::Skip,
    Some(SpecialTagsOption::Normalize(t)) => Rule::Token(t.clone()),
    Some(SpecialTagsOption::FunctionNormalize(f)) => Rule::Token(f(n.ro)),
  }
}

#[cfg(feature = "full")]
fn expand(s: &str, f: impl Fn(char) -> String) -> Vec<(char, i32)> {
  s.chars().enumerate().flat_map(|(i, c)| f(c).chars().map(move |d| (d, i as i32)).collect::<Vec<_>>()).collect()
}

/// Text of one text node before whitespace collapsing, with source offsets.
#[cfg(feature = "full")]
fn cook(content: &str, p: &DNMParameters) -> Vec<(char, i32)> {
  let mut v: Vec<(char, i32)> = if p.normalize_unicode {
    expand(content, |c| unidecode::unidecode_char(c).to_string())
  } else {
    expand(content, |c| c.to_string())
  };
  if p.stem_words_full || p.stem_words_once {
    let s: String = v.iter().map(|x| x.0).collect();
    let t = if p.stem_words_full { rustmorpha::full_stem(&s) } else { rustmorpha::stem(&s) };
    // stemming has no offsets
    v = t.chars().map(|c| (c, 0)).collect();
  }
  if p.convert_to_lowercase {
    let s: String = v.iter().map(|x| x.0).collect();
    let lower: Vec<char> = s.to_lowercase().chars().collect();
    let mut w = Vec::new();
    let mut k = 0;
    for (c, o) in v {
      for _ in c.to_lowercase() {
        w.push((lower[k], o));
        k += 1;
      }
    }
    v = w;
  }
  v
}

#[cfg(feature = "full")]
pub fn flatten(snap: &Snap, p: &DNMParameters) -> Flat {
  let mut f = Flat { chars: vec![], ranges: HashMap::new(), tokens: 0, collapsed: 0, expanded: 0 };
  let mut space = true;
  enum Step {
    In(usize),
    Out(usize, usize),
  }
  let mut stack = vec![Step::In(0)];
  while let Some(step) = stack.pop() {
    match step {
      Step::Out(i, start) => {
        f.ranges.insert(i, (start, f.chars.len()));
      },
      Step::In(i) => {
        let start = f.chars.len();
        if snap.nodes[i].kind == Kind::Text {
          let cooked = cook(&snap.nodes[i].content, p);
          let mut last = -1;
          for (c, o) in cooked {
            if o == last {
              f.expanded += 1;
            }
            last = o;
            if !p.normalize_white_spaces {
              f.chars.push((c, i, o));
            } else if !c.is_whitespace() {
              f.chars.push((c, i, o));
              space = false;
            } else if !space {
              f.chars.push((' ', i, o));
              space = true;
            } else {
              f.collapsed += 1;
            }
          }
          f.ranges.insert(i, (start, f.chars.len()));
          continue;
        }
        match rule_for(snap, i, p) {
          Rule::Skip => {
            f.ranges.insert(i, (start, start));
          },
          Rule::Token(t) => {
            f.tokens += 1;
            if p.wrap_tokens && !(space && p.normalize_white_spaces) {
              f.chars.push((' ', i, -1));
            }
            f.chars.extend(t.chars().map(|c| (c, i, -1)));
            // "unless collapsing is on and one is already there": the token itself is never a space
            if p.wrap_tokens {
              f.chars.push((' ', i, -1));
            }
            space = p.wrap_tokens;
            f.ranges.insert(i, (start, f.chars.len()));
          },
          Rule::Enter => {
            stack.push(Step::Out(i, start));
            for c in snap.nodes[i].children.iter().rev() {
              stack.push(Step::In(*c));
            }
          },
        }
      },
    }
  }
  f
}

/* ------------------------------------------------------------------ LaTeXML-like documents */

/// A formula with an annotation of lexemes (none glued), as LaTeXML with the llamapun binding emits.
pub fn annotated_math(r: &mut Rng) -> String {
  let id = if r.chance(1, 3) { format!(" id=\"S{}.p1.m{}\" alttext=\"x=3\"", r.below(2), r.below(3)) } else { String::new() };
  let mut s = format!("<math{id}><semantics><mrow><mi>x</mi><mo>=</mo><mn>3</mn></mrow>");
  for _ in 0..r.range(0, 2) {
    if r.chance(1, 5) {
      s.push_str("<annotation encoding=\"application/x-tex\">x=3 \\alpha</annotation>");
      continue;
    }
    s.push_str("<annotation encoding=\"application/x-llamapun\">");
    for i in 0..r.range(0, 5) {
      if i > 0 {
        s.push(' ');
      }
      s.push_str(r.pick(&["italic-x", "RELOP:equals", "NUMBER:3", "ID:Greek-α", "ADDOP:plus", "FUNCTION:f", "ATOM:q", "ARRAY:matrix"]));
    }
    s.push_str("</annotation>");
  }
  s.push_str("</semantics></math>");
  s
}
/// The lexemes of an annotation; structural markers are lexemes of their own even when LaTeXML
/// forgot the space around them.
pub const GLUED: &[&str] = &["OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP", "ARROW", "BIGOP", "BINOP", "ID", "OVERACCENT", "UNDERACCENT"];
pub fn unglued(text: &str) -> Vec<String> {
  let mut v = Vec::new();
  for t in text.split_whitespace() {
    let mut cur = String::new();
    let mut rest = t;
    while !rest.is_empty() {
      let marker = GLUED.iter().find(|g| rest.strip_prefix(**g).is_some_and(|x| x.starts_with(":end")));
      if let Some(g) = marker {
        v.push(std::mem::take(&mut cur));
        v.push(format!("{g}:end"));
        rest = &rest[g.len() + 4..];
        continue;
      }
      let cut = [":end", ":start"].iter().find(|m| rest.starts_with(**m));
      if let Some(m) = cut {
        cur.push_str(m);
        v.push(std::mem::take(&mut cur));
        rest = &rest[m.len()..];
        continue;
      }
      let c = rest.chars().next().unwrap();
      cur.push(c);
      rest = &rest[c.len_utf8()..];
    }
    v.push(cur);
  }
  v.retain(|x| !x.is_empty());
  v
}


pub fn lexemes_below(snap: &Snap, i: usize) -> String {
  let mut v: Vec<String> = Vec::new();
  for j in i..snap.subtree_end(i) {
    let n = &snap.nodes[j];
    if n.kind == Kind::Element && n.name == "annotation" && n.ro.get_property("encoding").as_deref() == Some("application/x-llamapun") {
      for t in unglued(&n.ro.get_content()) {
        v.push(match ["NUM", "ARRAY", "ATOM", "SUPERSCRIPTOP"].iter().find(|k| t.starts_with(**k)) {
          Some(kind) => kind.to_string(),
          None => t.replace([':', '-'], "_"),
        });
      }
    }
  }
  if v.is_empty() { "mathformula".into() } else { v.join(" ") }
}

fn inline(r: &mut Rng, n: usize, out: &mut String) {
  for _ in 0..n {
    match r.below(16) {
      0 | 1 => out.push_str(&annotated_math(r)),
      2 => out.push_str("<cite class=\"ltx_cite\">[<a class=\"ltx_ref\" href=\"#b1\">1</a>]</cite>"),
      3 => out.push_str(&format!("<a class=\"{}\" href=\"#x\">2</a>", r.pick(&["ltx_ref", "ltx_ref ltx_href", "c1 ltx_ref", "ltx_refs", "x"]))),
      4 => out.push_str(&format!("<span class=\"{}\">3</span>", r.pick(&["ltx_ref", "ltx_ref ltx_x", "ltx_text"]))),
      5 => out.push_str(&format!("<em class=\"ltx_emph\">{}</em>", escape(&text(r, 3)))),
      6 => out.push_str(r.pick(&["12 ", "3.5 ", "4a ", "-7 ", "1.5e-3 ", "12x ", "(a) ", "1,000 ", "CitationElements ", "xcitationelement", "mathformulas "])),
      7 if r.chance(1, 6) => out.push_str("overlongwordthatgoesonandonandon "),
      8 if r.chance(1, 3) => out.push_str("<span class=\"ltx_note\"><sup class=\"ltx_note_mark\">1</sup><span class=\"ltx_note_outer\">note text</span></span>"),
      9 => out.push_str(&escape(&text(r, 4))),
      _ => {
        let wide = r.chance(1, 4);
        out.push_str(&escape(&prose(r, 4, wide)))
      },
    }
    out.push_str(r.pick(&[" ", " ", "\n", ""]));
  }
}

fn error(r: &mut Rng, den: usize, out: &mut String) {
  if r.chance(1, den) {
    out.push_str(r.pick(&["<span class=\"ltx_ERROR undefined\">\\foo</span>", "<span class=\"ltx_ERROR\"></span>", "<div class=\"x ltx_ERROR\">e</div>"]));
  }
}

fn para(r: &mut Rng, depth: usize, out: &mut String) {
  out.push_str(&format!("<div class=\"{}\">", r.pick(&["ltx_para", "ltx_para", "ltx_para ltx_noindent", "c1 ltx_para"])));
  for _ in 0..r.range(0, 2) {
    out.push_str("<p class=\"ltx_p\">");
    let n = r.range(0, 7);
    inline(r, n, out);
    error(r, 25, out);
    out.push_str("</p>\n");
    if r.chance(1, 6) {
      out.push_str(&format!(
        "<table class=\"{}\"><tr><td>{}</td></tr></table>",
        r.pick(&["ltx_equation", "ltx_equationgroup ltx_eqn_align", "ltx_tabular"]),
        annotated_math(r) + *r.pick(&["", "", "<span class=\"ltx_eqn_eqno\">(7)</span>", " where x holds"])
      ));
    }
  }
  if depth > 0 && r.chance(1, 8) {
    para(r, depth - 1, out);
  }
  out.push_str("</div>\n");
}

fn heading(r: &mut Rng, level: usize, out: &mut String) {
  let t = *r.pick(&["Introduction", "1 Main results", "Definition 2.1", "Proof of Theorem 3", "A remark", "Section IV Data sets", "Overview of methods"]);
  let class = *r.pick(&["ltx_title ltx_title_section", "ltx_title", "ltx_title ltx_runin", "ltx_title ltx_title_document", "other"]);
  out.push_str(&format!("<h{level} class=\"{class}\">{t} "));
  if r.chance(1, 3) {
    inline(r, 2, out);
  }
  error(r, 12, out);
  out.push_str(&format!("</h{level}>\n"));
}

/// Ids are unique within a document (but recur in other documents).
fn unique_ids(s: &str) -> String {
  let mut seen: HashMap<&str, usize> = HashMap::new();
  let mut parts = s.split("<math id=\"");
  let mut out = parts.next().unwrap_or("").to_string();
  for p in parts {
    let Some((id, rest)) = p.split_once('"') else { continue };
    let n = seen.entry(id).or_insert(0);
    *n += 1;
    let id = if *n == 1 { id.to_string() } else { format!("{id}.{n}") };
    out.push_str(&format!("<math id=\"{id}\"{rest}"));
  }
  out
}
/// A whole article, well-formed XML that HTML parsers read as well.
/// A document in some encoding, most often UTF-8.
pub fn encoded(r: &mut Rng, s: String) -> Vec<u8> {
  let utf16 = |le: bool, s: &str| -> Vec<u8> {
    let s = s.replace("encoding=\"UTF-8\"", "encoding=\"UTF-16\"").replace("charset=UTF-8", "charset=UTF-16");
    std::iter::once(0xfeff).chain(s.encode_utf16()).flat_map(|u| if le { u.to_le_bytes() } else { u.to_be_bytes() }).collect()
  };
  match r.below(16) {
    0 => {
      let mut s = s.replace("encoding=\"UTF-8\"", "encoding=\"ISO-8859-1\"").replace("charset=UTF-8", "charset=ISO-8859-1");
      if !s.starts_with("<?xml") {
        s.insert_str(0, "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>");
      }
      let mut out = Vec::new();
      for c in s.chars() {
        if (c as u32) < 256 { out.push(c as u32 as u8) } else { out.extend(format!("&#{};", c as u32).bytes()) }
      }
      out
    },
    1 => utf16(r.chance(1, 2), &s),
    2 => ["\u{feff}", &s].concat().into_bytes(),
    _ => s.into_bytes(),
  }
}
pub fn latexml(r: &mut Rng, size: usize) -> String { unique_ids(&article(r, size)) }
fn article(r: &mut Rng, size: usize) -> String {
  let mut s = String::new();
  if r.chance(1, 2) {
    s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
  }
  s.push_str(if r.chance(1, 2) { "<html xmlns=\"http://www.w3.org/1999/xhtml\">" } else { "<html>" });
  s.push_str("<head><title>T</title><meta http-equiv=\"Content-Type\" content=\"text/html; charset=UTF-8\"/></head>\n<body><div class=\"ltx_page_content\"><article class=\"ltx_document\">\n");
  s.push_str("<h1 class=\"ltx_title ltx_title_document\">Title</h1><div class=\"ltx_authors\">Some One</div>\n");
  for _ in 0..r.below(3) {
    let c = *r.pick(&["ltx_abstract", "ltx_abstract x"]);
    s.push_str(&format!("<div class=\"{c}\"><h6 class=\"ltx_title ltx_title_abstract\">Abstract</h6>"));
    for _ in 0..r.range(0, 2) {
      s.push_str(&format!("<p class=\"{}\">", r.pick(&["ltx_p", "ltx_p", "q"])));
      inline(r, 3, &mut s);
      s.push_str("</p>");
    }
    error(r, 4, &mut s);
    s.push_str("</div>\n");
  }
  for _ in 0..r.below(3) {
    s.push_str("<div class=\"ltx_keywords\">");
    inline(r, 2, &mut s);
    error(r, 4, &mut s);
    s.push_str("</div>\n");
  }
  for _ in 0..r.range(0, size) {
    s.push_str("<section class=\"ltx_section\">\n");
    let l = r.range(1, 6);
    heading(r, l, &mut s);
    for _ in 0..r.range(0, 4) {
      match r.below(10) {
        0..=5 => para(r, 1, &mut s),
        6 => {
          s.push_str(&format!("<div class=\"{}\">\n", r.pick(&["ltx_theorem ltx_theorem_lemma", "ltx_theorem", "ltx_proof", "ltx_theorem ltx_theorem_defn"])));
          heading(r, 6, &mut s);
          para(r, 0, &mut s);
          s.push_str("</div>\n");
        },
        7 => {
          s.push_str(&format!("<figure class=\"ltx_figure\"><img src=\"x.png\"/><figcaption class=\"{}\"><span class=\"ltx_tag ltx_tag_figure\">Figure 1: </span>", r.pick(&["ltx_caption", "ltx_caption x", "cap"])));
          inline(r, 3, &mut s);
          error(r, 6, &mut s);
          s.push_str("</figcaption></figure>\n");
        },
        8 => error(r, 3, &mut s),
        _ => s.push_str("<!-- a comment -->\n"),
      }
    }
    s.push_str("</section>\n");
  }
  for _ in 0..r.below(3) {
    s.push_str("<div class=\"ltx_acknowledgement\">We thank ");
    inline(r, 2, &mut s);
    error(r, 4, &mut s);
    s.push_str("</div>\n");
  }
  s.push_str("<section class=\"ltx_bibliography\"><div class=\"ltx_para\">bib</div></section></article></div></body></html>\n");
  s
}
