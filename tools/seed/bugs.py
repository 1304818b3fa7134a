LL = "\n    let p = DNMParameters::llamapun_normalization();\n"
CORPUS = '''
fn tiny(body: &str) -> String { format!("<html><body><div class=\\"ltx_para\\"><p>{}</p></div></body></html>", body) }
'''
PAT = '''
use llamapun::patterns::*;
use senna::phrase::Phrase;
use senna::pos::POS;
use senna::sentence::{PSGNode, PSGParentContent, Sentence, Word};
fn load(rules: &str) -> Result<PatternFile, String> {
  let d = Dir::new();
  let f = d.put("p.xml", &format!("<pattern_file>{}</pattern_file>", rules));
  PatternFile::load(&f)
}
/// words separated by single spaces
fn words(text: &str) -> Vec<Word<'_>> {
  let mut v = Vec::new(); let mut at = 0;
  for (i, w) in text.split(' ').enumerate() {
    v.push(Word { string: w, offset_start: at, offset_end: at + w.len(), pos: POS::NN, index: i as u32 });
    at += w.len() + 1;
  }
  v
}
fn node(label: Phrase, children: Vec<PSGNode>) -> PSGNode { PSGNode::Parent(PSGParentContent { label, children }) }
fn names(ms: &[Match]) -> Vec<String> {
  let mut v = Vec::new();
  for m in ms { for k in m.get_marker_list() { v.push(match k {
    MarkerEnum::Text(t) => format!("{}:{}", t.marker.name, t.range.get_plaintext()),
    MarkerEnum::Math(t) => format!("{}:<{}>", t.marker.name, t.node.get_name()) }); } }
  v
}
'''
BUGS = [
dict(id="s01-translit-offsets", property="C03",
  edits=[("src/dnm/mod.rs", """        new_string.push(c);
        self.runtime.had_whitespace = false;
        if self.parameters.support_back_mapping {
          new_offsets.push(offsets[i]);""", """        new_string.push(c);
        self.runtime.had_whitespace = false;
        if self.parameters.support_back_mapping {
          new_offsets.push(i as i32);""")],
  needs="unicode transliteration (one character becoming several) combined with whitespace collapsing",
  breaks="characters after an expanding one map to a wrong source offset",
  demo='''
  let d = xml("<p>\\u{df}a b</p>");
  let p = DNMParameters { normalize_unicode: true, ..Default::default() };
  let dnm = DNM::new(d.get_root_readonly().unwrap(), p);
  assert_eq!(dnm.get_plaintext(), "ssa b");
  let v: Vec<i32> = dnm.back_map.iter().map(|x| x.1).collect();
  assert_eq!(v, vec![0, 0, 1, 2, 3]);
'''),
dict(id="s02-class-enter-falls-through", property="C02",
  edits=[("src/dnm/mod.rs", "          Some(&SpecialTagsOption::Enter) => break,", "          Some(&SpecialTagsOption::Enter) => continue,")],
  needs="an Enter rule for a class of an element whose tag name has another rule",
  breaks="an Enter rule of a class no longer takes precedence over the rule of the element name",
  demo='''
  let d = xml("<p>x<math class=\\"keep\\">y</math></p>");
  let mut p = DNMParameters::default();
  p.special_tag_class_options.insert("keep".to_string(), SpecialTagsOption::Enter);
  p.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Skip);
  let dnm = DNM::new(d.get_root_readonly().unwrap(), p);
  assert_eq!(dnm.get_plaintext(), "xy");
'''),
dict(id="s03-function-token-whitespace", property="C02",
  edits=[("src/dnm/mod.rs", """    $dnm.runtime.had_whitespace = false;

    if $dnm.parameters.wrap_tokens {
      push_whitespace!($dnm, $node, -1);
    }
  }
  )
);""", """    if !$dnm.parameters.wrap_tokens {
      $dnm.runtime.had_whitespace = false;
    }

    if $dnm.parameters.wrap_tokens {
      push_whitespace!($dnm, $node, -1);
    }
  }
  )
);""")],
  needs="wrapped tokens together with whitespace collapsing",
  breaks="the space after a wrapped token is lost, so the token fuses with the next word",
  demo='''
  let d = xml("<p>x<math>y</math>z</p>");
  let mut p = DNMParameters { wrap_tokens: true, ..Default::default() };
  p.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Normalize("M".to_string()));
  let dnm = DNM::new(d.get_root_readonly().unwrap(), p);
  assert_eq!(dnm.get_plaintext(), "x M z");
'''),
dict(id="s04-hash-lock-released", property="C12",
  edits=[("src/dnm/c14n.rs", """    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.reset();
    hasher.input_str(&self.node_c14n_basic(node));
    hasher.result_str()""", """    let canonical = self.node_c14n_basic(node);
    MD5_HASHER.lock().unwrap().reset();
    MD5_HASHER.lock().unwrap().input_str(&canonical);
    let digest = MD5_HASHER.lock().unwrap().result_str();
    digest""")],
  needs="two threads hashing at the same time, interleaved between reset, input and result",
  breaks="hashes computed concurrently mix the inputs of several threads",
  demo='''
  let texts: Vec<String> = (0..8).map(|i| format!("<p>{}</p>", format!("{} ", i).repeat(3000))).collect();
  let expected: Vec<String> = texts.iter().map(|t| { let d = xml(t); DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default()).to_hash_basic() }).collect();
  let bad = std::sync::atomic::AtomicUsize::new(0);
  std::thread::scope(|s| { for (t, e) in texts.iter().zip(&expected) { let bad = &bad; s.spawn(move || {
    let d = xml(t);
    let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default());
    for _ in 0..2000 { if &dnm.to_hash_basic() != e { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } }
  }); } });
  assert_eq!(bad.into_inner(), 0);
'''),
dict(id="s05-classes-by-length", property="C11",
  edits=[("src/dnm/c14n.rs", "            classes_split.sort_unstable();", "            classes_split.sort_by_key(|class| class.len());")],
  needs="two classes of the same length in different orders",
  breaks="the canonical form depends on the order of equally long classes",
  demo='''
  let f = |c: &str| { let d = xml(&format!("<p class=\\"{}\\">x</p>", c)); DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default()).to_c14n_basic() };
  assert_eq!(f("ab cd"), f("cd ab"));
'''),
dict(id="s06-window-too-small", property="C08",
  edits=[("src/tokenizer.rs", "    let window_size = 12; // size of max string + 1", "    let window_size = 11; // size of max string")],
  needs="a formula directly followed by a capital letter, without punctuation",
  breaks="the left window can no longer hold mathformula, so the break after it disappears",
  demo='''
  assert_eq!(sentences("we have mathformula\\nThis holds"), vec!["we have mathformula", "This holds"]);
'''),
dict(id="s07-apostrophe-joins", property="C09",
  edits=[("src/tokenizer.rs", "            if peeked == &'s' {", "            if peeked.is_ascii_lowercase() {")],
  needs="an apostrophe between a word and a letter other than s",
  breaks="an apostrophe before any lowercase letter joins its neighbours",
  demo='''
  let (_d, dnm) = plain("l'hopital can't x's");
  let t = Tokenizer::default();
  let v: Vec<String> = t.words(&dnm.get_range().unwrap()).iter().map(|r| r.get_plaintext().to_string()).collect();
  assert_eq!(v, vec!["l", "hopital", "can", "t", "x's"]);
'''),
dict(id="s08-punct-flag-kept", property="C10",
  edits=[("src/tokenizer.rs", """          apostrophe_flag = false;
          start = end;
        }
      };""", """          start = end;
        }
        if range_text.is_ascii() {
          apostrophe_flag = false;
        }
      };""")],
  needs="an apostrophe and a later word in a text with non-ASCII characters",
  breaks="after an apostrophe, the first letter of later words is split off",
  demo='''
  let (_d, dnm) = plain("caf\\u{e9} isn't good");
  let t = Tokenizer::default();
  let v: Vec<String> = t.words_and_punct(&dnm.get_range().unwrap()).iter().map(|r| r.get_plaintext().to_string()).collect();
  assert_eq!(v, vec!["caf\\u{e9}", "isn", "'t", "good"]);
'''),
dict(id="s09-dictionary-renumbers", property="C16",
  edits=[("src/ngrams.rs", "    if *word_index > self.index {", "    if *word_index >= self.index {")],
  needs="inserting the most recently added word again",
  breaks="re-inserting the latest word leaves a gap in the numbering and overcounts",
  demo='''
  let mut d = llamapun::ngrams::Dictionary::new();
  for w in ["a", "a", "b"] { d.insert(w.to_string()); }
  assert_eq!(d.count(), 2);
  assert_eq!(d.map["b"], 2);
'''),
dict(id="s10-second-catalog-max", property="C17",
  edits=[("src/parallel_data/corpus.rs", """          let entry = map12.entry(k).or_insert(0);
          *entry += v;""", """          let entry = map12.entry(k).or_insert(0);
          *entry = v.max(*entry + u64::from(v > 0));""")],
  needs="the two-catalog walk with values above one in the second catalog of several documents",
  breaks="values of the second catalog are not summed",
  extra=CORPUS, demo='''
  let d = Dir::new();
  for i in 0..20 { d.put(&format!("c/{}.html", i), &tiny("x")); }
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let (a, b) = c.catalogs_with_parallel_walk(|_| { let mut m = HashMap::new(); m.insert("n".to_string(), 1u64); let mut k = HashMap::new(); k.insert("n".to_string(), 5u64); (m, k) });
  assert_eq!((a["n"], b["n"]), (20, 100));
'''),
dict(id="s11-thousandth-skipped", property="C17", count=1,
  edits=[("src/parallel_data/corpus.rs", """            1 + index
          );
        }
        Some(closure(document))
      })
      .reduce(HashMap::new,""", """            1 + index
          );
          return None;
        }
        Some(closure(document))
      })
      .reduce(HashMap::new,""")],
  needs="a corpus of more than one thousand documents",
  breaks="every thousandth document is announced but never processed",
  extra=CORPUS, demo='''
  let d = Dir::new();
  for i in 0..1100 { d.put(&format!("c/{}/{}.html", i % 7, i), &tiny("x")); }
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let a = c.catalog_with_parallel_walk(|_| { let mut m = HashMap::new(); m.insert("n".to_string(), 1u64); m });
  assert_eq!(a["n"], 1100);
'''),
dict(id="s12-token-model-paragraphwise", property="C27",
  edits=[("src/util/token_model.rs", """        thread_buffer.push_str(&paragraph_buffer);
      }
    }
""", """        thread_buffer.push_str(&paragraph_buffer);
        if thread_buffer.len() > 4096 {
          // keep the memory use of long documents low
          let full_buffer = std::mem::take(&mut thread_buffer);
          token_writer
            .lock()
            .unwrap()
            .write_all(full_buffer.as_bytes())
            .expect("thread writing to token model buffer should always succeed.");
        }
      }
    }
""")],
  needs="documents with more than 4096 bytes of tokens, processed concurrently",
  breaks="the lines of one document are interleaved with those of others",
  extra=CORPUS, demo='''
  let d = Dir::new();
  for i in 0..24 {
    let mut s = String::from("<html><body>");
    for _ in 0..400 { s += &format!("<div class=\\"ltx_para\\"><p>word{} {}</p></div>", i, "lorem ipsum ".repeat(20)); }
    s += "</body></html>";
    d.put(&format!("c/{}.html", i), &s);
  }
  let out = d.0.join("model.txt");
  for _ in 0..4 {
    llamapun::util::token_model::extract(d.0.join("c").to_str().unwrap().to_string(), out.to_str().unwrap().to_string(), false).unwrap();
    let model = std::fs::read_to_string(&out).unwrap();
    let mut seen = std::collections::HashSet::new(); let mut last = String::new();
    for l in model.lines().filter(|l| !l.is_empty()) {
      let w = l.split(' ').next().unwrap().to_string();
      if w != last { assert!(seen.insert(w.clone()), "{} is not contiguous", w); last = w; }
    }
  }
'''),
dict(id="s13-overlong-drops-rest", property="C28",
  edits=[("src/util/path_helpers.rs", """  for mut paragraph in document.paragraph_iter() {
    let mut invalid_paragraph = false;
""", """  let mut invalid_paragraph = false;
  for mut paragraph in document.paragraph_iter() {
""")],
  needs="a paragraph with an overlong word followed by a valid paragraph",
  breaks="all paragraphs after an overlong one are omitted as well",
  demo='''
  let d = Dir::new();
  let f = d.put("a.html", &format!("<html><body><div class=\\"ltx_para\\"><p>one</p></div><div class=\\"ltx_para\\"><p>{}</p></div><div class=\\"ltx_para\\"><p>two</p></div></body></html>", "x".repeat(40)));
  assert_eq!(llamapun::util::path_helpers::path_to_words(f), "one \\ntwo \\n");
'''),
dict(id="s14-hash-of-last", property="C12",
  edits=[("src/dnm/c14n.rs", "    hasher.input_str(&self.node_c14n_basic(node));", "    for line in self.node_c14n_basic(node).lines() {\n      hasher.input_str(line);\n    }")],
  needs="text with line breaks kept in the plaintext",
  breaks="line breaks are left out of the hashed string",
  demo='''
  let (_d, dnm) = plain("a\\nb");
  let (_e, dnn) = plain("ab");
  assert_ne!(dnm.to_hash_basic(), dnn.to_hash_basic());
'''),
dict(id="s15-phrase-end-needs-two", property="C21",
  edits=[("src/patterns/matching.rs", "          for end_start_pos in pos..*end_pos {", "          for end_start_pos in (pos + 1)..*end_pos {")],
  needs="a phrase of one word with an end condition",
  breaks="a phrase consisting of exactly the words of its end condition is not found",
  extra=PAT, demo='''
  let pf = load("<seq_rule name=\\"r\\"><seq_marker name=\\"m\\"><phrase tag=\\"NP\\"><ends_with_seq><seq_word><word>b</word></seq_word></ends_with_seq></phrase></seq_marker></seq_rule>").unwrap();
  let (_d, dnm) = plain("a b c");
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let s = Sentence { string: text, words: words(text), psgroot: Some(node(Phrase::S, vec![PSGNode::Leaf(0), node(Phrase::NP, vec![PSGNode::Leaf(1)]), PSGNode::Leaf(2)])) };
  assert_eq!(names(&match_sentence(&pf, &s, &range, "r").unwrap()), vec!["m:b"]);
'''),
dict(id="s16-arbitrary-stops-early", property="C22",
  edits=[("src/patterns/matching.rs", "          if c_nodes.len() < child_rules.len() + start_pos {", "          if c_nodes.len() <= child_rules.len() + start_pos {")],
  needs="an arbitrary children pattern that only matches at the last possible position",
  breaks="the last position is never tried",
  extra=PAT, demo='''
  let pf = load("<seq_rule name=\\"r\\"><seq_word><word_math><math_node name=\\"mrow\\"><math_children match_type=\\"arbitrary\\"><math_marker name=\\"k\\"><math_node name=\\"mo\\"/></math_marker></math_children></math_node></word_math></seq_word></seq_rule>").unwrap();
  let d = xml("<p>see <math><mrow><mi>a</mi><mn>1</mn><mo>+</mo></mrow></math></p>");
  let mut p = DNMParameters { normalize_white_spaces: false, ..Default::default() };
  p.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Normalize("mathformula".to_string()));
  let dnm = DNM::new(d.get_root_readonly().unwrap(), p);
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let s = Sentence { string: text, words: words(text), psgroot: Some(node(Phrase::S, vec![PSGNode::Leaf(0), PSGNode::Leaf(1)])) };
  assert_eq!(names(&match_sentence(&pf, &s, &range, "r").unwrap()), vec!["k:<mo>"]);
'''),
dict(id="s17-markers-breadth-first", property="C23",
  edits=[("src/patterns/matching.rs", """    let mut markers = vec![self.marker.clone()];
    for m in &self.sub_matches {
      markers.extend_from_slice(&m.get_marker_list()[..]);
    }
    markers""", """    let mut markers = Vec::new();
    let mut level = vec![self];
    while !level.is_empty() {
      markers.extend(level.iter().map(|m| m.marker.clone()));
      level = level.iter().flat_map(|m| m.sub_matches.iter()).collect();
    }
    markers""")],
  needs="markers nested three deep with siblings",
  breaks="the marker list is no longer the pre-order of the match tree",
  extra=PAT, demo='''
  let pf = load("<seq_rule name=\\"r\\"><seq_marker name=\\"o\\"><seq_seq><seq_marker name=\\"p\\"><seq_word><word_marker name=\\"q\\"><word>a</word></word_marker></seq_word></seq_marker><seq_word><word_marker name=\\"t\\"><word>b</word></word_marker></seq_word></seq_seq></seq_marker></seq_rule>").unwrap();
  let (_d, dnm) = plain("a b");
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let s = Sentence { string: text, words: words(text), psgroot: Some(node(Phrase::S, vec![PSGNode::Leaf(0), PSGNode::Leaf(1)])) };
  assert_eq!(names(&match_sentence(&pf, &s, &range, "r").unwrap()), vec!["o:a b", "p:a", "q:a", "t:b"]);
'''),
dict(id="s18-undefined-mtext", property="C20",
  edits=[("src/patterns/rules.rs", """    for (name, pos) in &self.mtext_name_map {
      if self.mtext_rules[*pos].is_none() {""", """    for (name, pos) in &self.mtext_name_map {
      if self.math_rules.is_empty() && self.mtext_rules[*pos].is_none() {""")],
  needs="a math rule referring to an undefined symbol text rule",
  breaks="a dangling mtext reference is not reported: loading panics instead of giving an error",
  extra=PAT, demo='''
  assert!(load("<math_rule name=\\"m\\"><math_node><mtext_ref ref=\\"nowhere\\"/></math_node></math_rule>").is_err());
'''),
dict(id="s19-two-start-conditions", property="C20",
  edits=[("src/patterns/rules.rs", """              if start.is_some() {
                return Err(""", """              if start.is_some() && end.is_some() {
                return Err(""")],
  needs="a phrase with two starts_with_seq children and no end condition before them",
  breaks="the second start condition silently replaces the first one",
  extra=PAT, demo='''
  let c = "<starts_with_seq><seq_word><word_any/></seq_word></starts_with_seq>";
  assert!(load(&format!("<seq_rule name=\\"r\\"><phrase tag=\\"NP\\">{}</phrase></seq_rule>", c)).is_ok());
  assert!(load(&format!("<seq_rule name=\\"r\\"><phrase tag=\\"NP\\">{}{}</phrase></seq_rule>", c, c)).is_err());
'''),
dict(id="s20-last-theorem-name", property="C25",
  edits=[("src/ams.rs", "    let env = match AMS_ENV.captures(class) {", "    let env = match AMS_ENV.captures_iter(class).last() {")],
  needs="a class attribute with two ltx_theorem_<name> classes",
  breaks="the last theorem name decides instead of the first",
  demo='''
  use llamapun::ams::*;
  assert_eq!(class_to_env("ltx_theorem ltx_theorem_lemma ltx_theorem_proof").map(|e| e.to_string()), Some("lemma".to_string()));
'''),
dict(id="s21-offset-search-exact", property="C05",
  edits=[("src/dnm/range.rs", "          while pos < range.end && dnm.back_map[pos].1 < offset {", "          while pos < range.end && dnm.back_map[pos].1 != offset {")],
  needs="deserializing in a DNM in which the character of that offset produced nothing",
  breaks="the position runs to the end of the text node instead of the next produced character",
  demo='''
  let d = xml("<p>a  b c</p>");
  let root = d.get_root_readonly().unwrap();
  let raw = DNM::new(root, DNMParameters { normalize_white_spaces: false, ..Default::default() });
  let collapsed = DNM::new(root, DNMParameters::default());
  let r = DNMRange { start: 2, end: 4, dnm: &raw };
  let ctx = libxml::xpath::Context::new(&d).unwrap();
  let q = DNMRange::deserialize(&r.serialize(), &collapsed, &ctx);
  assert_eq!((q.start, q.end), (2, 3));
'''),
dict(id="s22-bisection-boundary", property="C04",
  edits=[("src/dnm/range.rs", "    if self.dnm.byte_offsets[middle_char] > target_byte {", "    if self.dnm.byte_offsets[middle_char] >= target_byte && target_byte % 64 == 0 {")],
  needs="a byte offset that is a multiple of 64 and exactly a bisection midpoint, in a long text",
  breaks="a byte-offset subrange starts one character early",
  demo='''
  let text: String = "abcdefgh".repeat(40);
  let (_d, dnm) = plain(&text);
  let r = dnm.get_range().unwrap();
  for s in 0..320 { for e in s + 1..320 {
    let q = r.get_subrange_from_byte_offsets(s, e);
    assert_eq!((q.start, q.end), (s, e));
  } }
'''),
dict(id="s23-lead-phrase-midword", property="C24",
  edits=[("src/util/data_helpers.rs", r"""static ref TRAILING_FIXED_WORD: Regex = Regex::new(r"\s(see|of|for|of the paper)$").unwrap();""", r"""static ref TRAILING_FIXED_WORD: Regex = Regex::new(r"\s?(see|of|for|of the paper)$").unwrap();""")],
  needs="a heading ending in a word that itself ends in a filler",
  breaks="the end of an ordinary word is cut off",
  demo='''
  assert_eq!(llamapun::util::data_helpers::normalize_heading_title("stable therefor"), "stable therefor");
'''),
dict(id="s24-ref-placeholder-kept", property="C30",
  edits=[("src/util/data_helpers.rs", """    .replace("mathformula", " ")
    .replace("CitationElement", " ")""", """    .replace("CitationElement", " ")
    .replace(" mathformula ", " ")""")],
  needs="formulas directly next to each other or at a line break",
  breaks="formula placeholders reach the language detection",
  demo='''
  let (_d, dnm) = plain("Wir sehen mathformula mathformula und\\nmathformula\\nhier");
  whatlang::take_asked();
  llamapun::util::data_helpers::invalid_for_english_latin(&dnm);
  for t in whatlang::take_asked() { assert!(!t.contains("mathformula"), "{}", t); }
'''),
dict(id="s25-cstring-freed", property="C33",
  edits=[("src/extern_use.rs", "  CString::new(tokenized).unwrap().into_raw()", """  // reclaim the previous result, so that callers cannot leak it
  static PREVIOUS: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
  let mut previous = PREVIOUS.lock().unwrap();
  if *previous != 0 {
    drop(CString::from_raw(*previous as *mut c_char));
  }
  let result = CString::new(tokenized).unwrap().into_raw();
  *previous = result as usize;
  result""")],
  needs="a caller that still holds (or has freed) the previous result when calling again",
  breaks="the string handed out by one call is freed by the next one",
  demo='''
  use std::ffi::{CStr, CString};
  let d = Dir::new();
  let f = d.put("a.html", &format!("<html><body><div class=\\"ltx_para\\"><p>{}</p></div></body></html>", "one two ".repeat(40)));
  let g = d.put("b.html", &format!("<html><body><div class=\\"ltx_para\\"><p>{}</p></div></body></html>", "six ten ".repeat(40)));
  let (cf, cg) = (CString::new(f).unwrap(), CString::new(g).unwrap());
  unsafe {
    let a = llamapun::extern_use::word_tokenize_for_vec2doc(cf.as_ptr());
    let first = CStr::from_ptr(a).to_bytes().to_vec();
    let b = llamapun::extern_use::word_tokenize_for_vec2doc(cg.as_ptr());
    let fill: Vec<Vec<u8>> = (0..64).map(|i| vec![b'#'; first.len() + 1 + i % 2]).collect();
    assert_eq!(CStr::from_ptr(a).to_bytes().to_vec(), first);
    assert_ne!(a, b);
    drop(fill);
  }
'''),
dict(id="s26-context-of-parent", property="C18",
  edits=[("src/parallel_data/document.rs", """    if filter(&node) {
      found.push(node);
    }""", """    if filter(&node) {
      return vec![node];
    }""")],
  needs="matching nodes nested in matching nodes",
  breaks="the filter selection leaves out matching nodes inside of matching nodes",
  demo='''
  let d = Dir::new();
  d.put("a.html", "<html><body><div id='x'>a<div id='y'>b</div></div></body></html>");
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let doc = llamapun::parallel_data::Document::new(d.0.join("a.html").to_str().unwrap().to_string(), &c).unwrap();
  assert_eq!(doc.filter_iter(&|n| n.get_name() == "div").count(), 2);
'''),
dict(id="s27-trailing-slash-extension", property="C19",
  edits=[("src/data.rs", """        let selected = if let Some(ref extension) = self.corpus.extension {
          file_name.ends_with(extension)""", """        let selected = if let Some(ref extension) = self.corpus.extension {
          entry.path().extension().map_or(false, |e| extension.ends_with(e.to_str().unwrap_or("")))""")],
  needs="a custom extension of more than one part, or files whose extension is a suffix of it",
  breaks="the sequential corpus visits files whose name does not end in the selected extension",
  extra=CORPUS, demo='''
  let d = Dir::new();
  for f in ["a.tex.html", "b.html", "c.tex"] { d.put(f, &tiny("x")); }
  let mut c = llamapun::data::Corpus::new(d.path());
  c.extension = Some(".tex.html".to_string());
  let v: Vec<String> = c.iter().map(|d| d.path.rsplit('/').next().unwrap().to_string()).collect();
  assert_eq!(v, vec!["a.tex.html"]);
'''),
dict(id="s28-lexeme-markers", property="C14",
  edits=[("src/dnm/node.rs", """        .replace_all(&annotation_string, " $1 ")""", """        .replace(&annotation_string, " $1 ")""")],
  needs="two or more glued closing markers in one annotation",
  breaks="only the first glued marker is separated from its neighbour",
  demo='''
  let d = xml("<math><annotation encoding=\\"application/x-llamapun\\">x:aID:endOPEN:end y:bADDOP:end</annotation></math>");
  let mut ctx = libxml::xpath::Context::new(&d).unwrap();
  assert_eq!(llamapun::dnm::node::lexematize_math(d.get_root_readonly().unwrap(), &mut ctx), "x_a ID_end OPEN_end y_b ADDOP_end");
'''),
dict(id="s29-titlecase-panics", property="C13",
  edits=[("src/dnm/c14n.rs", """  if let Some(r) = s.get_mut(0..1) {
    r.make_ascii_uppercase();
  }""", """  if !s.is_empty() {
    s[0..1].make_ascii_uppercase();
  }""")],
  needs="a line starting with a multi-byte character",
  breaks="rebuilding such a paragraph panics",
  demo='''
  let (_d, dnm) = DNM::from_ams_paragraph_str("\\u{e9}t\\u{e9} is\\nnice", None).unwrap();
  assert_eq!(dnm.get_plaintext(), "\\u{e9}t\\u{e9} is . Nice");
'''),
dict(id="s30-length-in-chars", property="C26",
  edits=[("src/util/data_helpers.rs", "  if word_string.len() > MAX_WORD_LENGTH {", "  if word_string.chars().count() > MAX_WORD_LENGTH {")],
  needs="a word of at most 25 characters but more than 25 bytes",
  breaks="overlong non-ASCII words are accepted",
  demo='''
  let text = "\\u{3b1}".repeat(20);
  let (d, dnm) = plain(&text);
  let mut ctx = libxml::xpath::Context::new(&d).unwrap();
  assert!(llamapun::util::data_helpers::ams_normalize_word_range(&dnm.get_range().unwrap(), &mut ctx, Default::default()).is_err());
'''),
dict(id="s31-exact-length-lost", property="C16",
  edits=[("src/ngrams.rs", "    if words.len() < self.n {", "    if words.len() <= self.n && self.n > 1 {")],
  needs="recording a list of exactly n words, n above 1",
  breaks="the single n-gram of an exactly n word long list is lost",
  demo='''
  let mut n = llamapun::ngrams::Ngrams { n: 2, ..Default::default() };
  n.record_words(vec!["a", "b"]);
  assert_eq!(n.get("a b"), 1);
'''),
dict(id="s32-skipped-unrecorded", property="C01",
  edits=[("src/dnm/mod.rs", """          Some(&SpecialTagsOption::Skip) => {
            record_node_map!(self, node, offset_start);
            return;""", """          Some(&SpecialTagsOption::Skip) => {
            if offset_start > 0 {
              record_node_map!(self, node, offset_start);
            }
            return;""")],
  needs="a skipped element at the very start of the document",
  breaks="a skipped node before any text has no range",
  demo='''
  let d = xml("<p><i>x</i>y<i>z</i></p>");
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("i".to_string(), SpecialTagsOption::Skip);
  let root = d.get_root_readonly().unwrap();
  let dnm = DNM::new(root, p);
  for c in root.get_child_nodes() { assert!(dnm.get_range_of_node(c).is_ok()); }
'''),
dict(id="s33-equationgroup-newline", property="C06",
  edits=[("src/dnm/parameters.rs", """      "ltx_equationgroup".to_string(),
      SpecialTagsOption::Normalize("\\nmathformula\\n".to_string()),""", """      "ltx_equationgroup".to_string(),
      SpecialTagsOption::Normalize("\\nmathformula".to_string()),""")],
  needs="an equation group followed by text in the same paragraph",
  breaks="an equation group no longer stands on its own line",
  demo='''
  let d = xml("<p>a<table class=\\"ltx_equationgroup\\"><tr/></table>b</p>");
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::llamapun_normalization());
  assert!(dnm.get_plaintext().lines().any(|l| l.trim() == "mathformula"), "{:?}", dnm.get_plaintext());
'''),
dict(id="s34-stopword-case", property="C29",
  edits=[("src/stopwords.rs", '    "ourselves",\n', '    "Ourselves",\n')],
  needs="testing that one stopword by lowercasing",
  breaks="a stopword is not lowercase, so it is not recognised by lowercasing",
  demo='''
  assert!(llamapun::stopwords::load().contains("ourselves"));
'''),
dict(id="s35-blank-ascii-only", property="C32",
  edits=[("src/patterns/utils.rs", "      if !cur_.get_content().trim().is_empty() {", "      if !cur_.get_content().chars().all(|c| c.is_ascii_whitespace()) {")],
  needs="a text node of non-ASCII white space only, such as a no-break space",
  breaks="blank text is reported as misuse",
  demo='''
  let d = xml("<p>\\u{a0}<i/></p>");
  assert_eq!(utils::get_non_text_children(d.get_root_readonly().unwrap()).map(|v| v.len()), Ok(1));
''', extra='''
#[allow(dead_code)]
#[path = "/repo/src/patterns/utils.rs"]
mod utils;
'''),
dict(id="s36-hidden-resource", property="C31",
  edits=[("src/util/test.rs", """      if entry.file_type().is_dir() {
        true""", """      if entry.file_type().is_dir() {
        entry.depth() < 3""")],
  needs="resources nested three directories deep",
  breaks="documents in deeply nested directories are not listed",
  demo='''
  let d = Dir::new();
  d.put("tests/resources/a/b/c/deep.html", "<p/>");
  d.put("tests/resources/top.xhtml", "<p/>");
  std::env::set_current_dir(&d.0).unwrap();
  let mut v: Vec<String> = llamapun::util::test::RESOURCE_DOCUMENTS.clone(); v.sort();
  assert_eq!(v, vec!["deep", "top"]);
'''),
dict(id="s37-stopword-cased", property="C07",
  edits=[("src/tokenizer.rs", """              // Sentence-break found:
              left_window = VecDeque::with_capacity(window_size);
              sentences.push(DNMRange { start, end, dnm }.trim());
              start = end;
            }

            // We consumed the next word, so make sure we reflect that in either case:
            end += next_word_length;""", """              // Sentence-break found:
              left_window = VecDeque::with_capacity(window_size);
              sentences.push(DNMRange { start, end, dnm }.trim());
              start = end + next_word_length / 20;
            }

            // We consumed the next word, so make sure we reflect that in either case:
            end += next_word_length;""")],
  needs="a blank line followed by a capitalised word of at least 20 letters",
  breaks="the first letter of the sentence is lost",
  demo='''
  assert_eq!(sentences("one two\\n\\nCounterrevolutionaries won"), vec!["one two", "Counterrevolutionaries won"]);
'''),
dict(id="s38-anchor-window-right", property="C15",
  edits=[("src/ngrams.rs", "      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())", "      .filter(|&w| w.chars().any(|c| c.is_alphanumeric()))")],
  needs="a token that starts with punctuation but contains letters",
  breaks="tokens starting with punctuation count as words",
  demo='''
  let mut n = llamapun::ngrams::Ngrams { anchor: Some("a".to_string()), window_size: 1, n: 2, counts: HashMap::new() };
  n.add_content("(x a b");
  assert_eq!(n.distinct_count(), 1);
  assert_eq!(n.get("a b"), 1);
'''),
dict(id="s39-keywords-first-only", property="C18",
  edits=[("src/parallel_data/document.rs", "//*[local-name()='figcaption' and contains(@class,'ltx_caption') and not(descendant::*[contains(@class,'ltx_ERROR')])]", "//*[local-name()='figcaption' and contains(@class,'ltx_caption') and not(*[contains(@class,'ltx_ERROR')])]")],
  needs="error markup nested below the first level of a caption",
  breaks="captions with deeply nested error markup are selected",
  demo='''
  let d = Dir::new();
  d.put("a.html", "<html><body><figure><figcaption class='ltx_caption'>x <b><i class='ltx_ERROR'>e</i></b></figcaption></figure></body></html>");
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let doc = llamapun::parallel_data::Document::new(d.0.join("a.html").to_str().unwrap().to_string(), &c).unwrap();
  assert_eq!(doc.extended_paragraph_iter().count(), 0);
'''),
dict(id="s40-plot-drops-singletons", property="C31",
  edits=[("src/util/plot.rs", "  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());", "  let log_values = map.iter().map(|entry| (entry.1 as f64).log2().max(f64::MIN_POSITIVE));")],
  needs="an entry with count one or zero",
  breaks="the logarithm of a count of one is no longer exactly zero",
  demo='''
  let d = Dir::new();
  let bin = d.0.join("bin"); std::fs::create_dir_all(&bin).unwrap();
  let log = d.0.join("log");
  std::fs::write(bin.join("gnuplot"), format!("#!/bin/sh\\nexec /bin/cat > {}\\n", log.display())).unwrap();
  use std::os::unix::fs::PermissionsExt;
  std::fs::set_permissions(bin.join("gnuplot"), std::fs::Permissions::from_mode(0o755)).unwrap();
  std::env::set_var("PATH", format!("{}:/usr/bin:/bin", bin.display()));
  llamapun::util::plot::plot_simple(&[(3u32, 1usize), (4, 8)], "x", "y", "t", d.0.join("o.png").to_str().unwrap());
  let mut bytes = Vec::new();
  for _ in 0..100 { bytes = std::fs::read(&log).unwrap_or_default(); if !bytes.is_empty() { break; } std::thread::sleep(std::time::Duration::from_millis(20)); }
  std::thread::sleep(std::time::Duration::from_millis(200));
  bytes = std::fs::read(&log).unwrap_or(bytes);
  let mut want = Vec::new();
  for v in [3.0f64, 0.0, 4.0, 3.0] { want.extend_from_slice(&v.to_le_bytes()); }
  let txt = String::from_utf8_lossy(&bytes).to_string();
  assert!(bytes.windows(want.len()).any(|w| w == &want[..]), "{}", txt);
'''),
dict(id="s41-lexemes-by-id", property="C35",
  edits=[("src/dnm/node.rs", '''  let annotations = context''', '''  // the same formula is often asked for again
  if let Some(id) = node.get_property("id") {
    if let Some(known) = KNOWN_LEXEMES.lock().unwrap().get(&id) {
      return known.clone();
    }
    let lexemes = lexematize_afresh(node, context);
    KNOWN_LEXEMES.lock().unwrap().insert(id, lexemes.clone());
    return lexemes;
  }
  lexematize_afresh(node, context)
}

fn lexematize_afresh(node: RoNode, context: &mut Context) -> String {
  let annotations = context'''),
  ("src/dnm/node.rs", '''lazy_static! {
''', '''lazy_static! {
  static ref KNOWN_LEXEMES: std::sync::Mutex<std::collections::HashMap<String, String>> =
    std::sync::Mutex::new(std::collections::HashMap::new());
''')],
  needs="two documents whose formulas carry the same id, one processed after the other",
  breaks="a formula gets the lexemes of an earlier document's formula with the same id",
  demo='''
  let m = |l: &str| xml(&format!("<math id='S1.m1'><semantics><mi>x</mi><annotation encoding='application/x-llamapun'>{}</annotation></semantics></math>", l));
  let (a, b) = (m("ID:x"), m("ID:y"));
  let lex = |d: &libxml::tree::Document| { let mut c = libxml::xpath::Context::new(d).unwrap(); node::lexematize_math(d.get_root_readonly().unwrap(), &mut c) };
  assert_eq!(lex(&a), "ID_x");
  assert_eq!(lex(&b), "ID_y");
'''),
dict(id="s42-empty-heading", property="C34",
  edits=[("src/util/data_helpers.rs", '''  Some(heading_text)
}''', '''  // no space at the end
  heading_text.truncate(heading_text.len() - 1);
  heading_text.push(' ');
  Some(heading_text)
}''')],
  needs="a heading without any word, such as a bare number",
  breaks="asking for the text of a heading without words panics",
  demo='''
  let d = xml("<h2> 3 </h2>");
  let mut c = libxml::xpath::Context::new(&d).unwrap();
  let h = llamapun::util::data_helpers::heading_from_node_aux(d.get_root_readonly().unwrap(), &Tokenizer::default(), &mut c);
  assert_eq!(h.unwrap_or_default().trim(), "");
'''),
dict(id="s43-class-sliced", property="C34",
  edits=[("src/ams.rs", '''    if class == "ltx_proof" {
      Some(AmsEnv::Proof)''', '''    if class.len() >= 9 && &class[..9] == "ltx_proof" && class.len() == 9 {
      Some(AmsEnv::Proof)''')],
  needs="a class attribute with a multi-byte character across its ninth byte",
  breaks="environment lookup panics on some non-ASCII class attributes",
  demo='''
  assert!(llamapun::ams::class_to_env("ltx_proof").is_some());
  assert!(llamapun::ams::class_to_env("figures_\\u{e9}t\\u{e9}").is_none());
  assert!(llamapun::ams::class_to_env("ltx_prooX\\u{20ac}").is_none());
'''),
dict(id="s44-language-remembered", property="C30",
  edits=[("src/util/data_helpers.rs", '''  let detectable = detectable_with_spaces.trim();
  if let Some(info) = detect(detectable) {
    info''', '''  let detectable = detectable_with_spaces.trim();
  // the beginning of a text decides already
  let mut sample_end = detectable.len().min(4096);
  while !detectable.is_char_boundary(sample_end) {
    sample_end -= 1;
  }
  if let Some(info) = detect(&detectable[..sample_end]) {
    info''')],
  needs="a text of more than 4096 bytes",
  breaks="the language is decided on the beginning of the text only",
  demo='''
  let long = format!("{}{}", "word ".repeat(1000), "tail");
  let (_d, dnm) = plain(&long);
  whatlang::take_asked();
  llamapun::util::data_helpers::invalid_for_english_latin(&dnm);
  assert_eq!(whatlang::take_asked(), vec![dnm.get_plaintext().trim().to_string()]);
'''),
dict(id="s45-window-of-sixteen", property="C16",
  edits=[("src/ngrams.rs", "    let mut gram_window = CircularQueue::with_capacity(self.n);", "    let mut gram_window = CircularQueue::with_capacity(self.n.min(12));")],
  needs="n-grams of more than twelve words",
  breaks="long n-grams are not recorded",
  demo='''
  let mut n = llamapun::ngrams::Ngrams { n: 13, ..Default::default() };
  n.record_words(vec!["a"; 13]);
  assert_eq!(n.distinct_count(), 1);
'''),
dict(id="s46-narrow-counts", property="C16",
  edits=[("src/ngrams.rs", '''  pub fn sorted(&self) -> Vec<(&String, usize)> {
    let mut as_vec = self.counts.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    as_vec.sort_by(|a, b| b.1.cmp(&a.1));''', '''  pub fn sorted(&self) -> Vec<(&String, usize)> {
    let mut as_vec = self.counts.iter().map(|(x, y)| (x, *y)).collect::<Vec<_>>();
    as_vec.sort_by_key(|entry| std::cmp::Reverse(entry.1 as u16));''')],
  needs="a phrase counted more than 65535 times",
  breaks="very frequent phrases sink in the report",
  demo='''
  let mut n = llamapun::ngrams::Ngrams::default();
  for _ in 0..65_537 { n.insert("often".to_string()); }
  n.insert("rare".to_string()); n.insert("rare".to_string());
  assert_eq!(n.sorted()[0].0, "often");
'''),
dict(id="s47-linked-directory", property="C31",
  edits=[("src/util/test.rs", '''      if entry.file_type().is_dir() {
        true
      } else if''', '''      if entry.path().is_dir() {
        true
      } else if''')],
  needs="a symbolic link to a directory among the resources",
  breaks="links to directories are listed as documents",
  demo='''
  let d = Dir::new();
  d.put("tests/resources/top.html", "<p/>");
  std::os::unix::fs::symlink(".", d.0.join("tests/resources/link")).unwrap();
  std::env::set_current_dir(&d.0).unwrap();
  assert_eq!(*llamapun::util::test::RESOURCE_DOCUMENTS, vec!["top"]);
'''),
dict(id="s48-text-after-last", property="C32",
  edits=[("src/patterns/utils.rs", '''      if !cur_.get_content().trim().is_empty() {
        return Err''', '''      if !cur_.get_content().trim().is_empty()
        && (children.is_empty() || cur_.get_next_sibling().is_some())
      {
        return Err''')],
  needs="stray text after the last child element",
  breaks="misplaced text at the end of an element is not reported",
  demo='''
  let d = xml("<p><i/>stray</p>");
  assert!(utils::get_non_text_children(d.get_root_readonly().unwrap()).is_err());
''', extra='''
#[allow(dead_code)]
#[path = "/repo/src/patterns/utils.rs"]
mod utils;
'''),
dict(id="s49-glued-accent", property="C14",
  edits=[("src/dnm/node.rs", "OVERACCENT|UNDERACCENT):end", "OVERACCENT):end")],
  needs="an UNDERACCENT:end marker glued to the preceding lexeme",
  breaks="a glued closing marker of an under-accent is not separated",
  demo='''
  let d = xml("<math><annotation encoding='application/x-llamapun'>POSTFIX:endUNDERACCENT:end ID:xUNDERACCENT:end</annotation></math>");
  let mut c = libxml::xpath::Context::new(&d).unwrap();
  assert_eq!(node::lexematize_math(d.get_root_readonly().unwrap(), &mut c), "POSTFIX_end UNDERACCENT_end ID_x UNDERACCENT_end");
'''),
dict(id="s50-preposition-lost", property="C29",
  edits=[("src/stopwords.rs", '''    "amid",
    "amidst",
''', '''    "amid",
''')],
  needs="the preposition amidst",
  breaks="a function word is no longer a stopword",
  demo='''
  assert!(llamapun::stopwords::load().contains("amidst"));
'''),
dict(id="s51-depth-limit", property="C02",
  edits=[("src/dnm/mod.rs", '''    if let Some(child) = node.get_first_child() {
      self.recurse_node_create(child);
      let mut child_node = child;''', '''    // guard the stack
    let mut depth = 0;
    let mut ancestor = node.get_parent();
    while let Some(above) = ancestor {
      depth += 1;
      ancestor = above.get_parent();
    }
    if depth > 200 {
      record_node_map!(self, node, offset_start);
      return;
    }
    if let Some(child) = node.get_first_child() {
      self.recurse_node_create(child);
      let mut child_node = child;''')],
  needs="elements nested more than 200 deep",
  breaks="text in deeply nested elements is lost",
  demo='''
  let d = xml(&format!("<p>a{}b{}</p>", "<i>".repeat(210), "</i>".repeat(210)));
  assert_eq!(DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default()).get_plaintext(), "ab");
'''),
dict(id="s52-short-offsets", property="C03",
  edits=[("src/dnm/mod.rs", "      (0i32..(string.chars().count() as i32)).collect()", "      (0..string.chars().count()).map(|i| i32::from(i as u16)).collect()")],
  needs="a text node of more than 65536 characters",
  breaks="source offsets wrap around in very long text nodes",
  demo='''
  let d = xml(&format!("<p>{}</p>", "x".repeat(65_600)));
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters { support_back_mapping: true, ..Default::default() });
  assert_eq!(dnm.back_map[65_590].1, 65_590);
'''),
dict(id="s53-shallow-walk", property="C19",
  edits=[("src/data.rs", "WalkDir::new(self.path.clone()).into_iter()", "WalkDir::new(self.path.clone()).max_depth(6).into_iter()")],
  needs="a document nested more than five directories deep",
  breaks="deeply nested documents are missed by sequential iteration",
  demo='''
  let d = Dir::new();
  d.put("a/b/c/d/e/f/deep.html", "<html><body>x</body></html>");
  assert_eq!(llamapun::data::Corpus::new(d.path()).iter().count(), 1);
'''),
dict(id="s54-output-limit", property="C28",
  edits=[("src/util/path_helpers.rs", '''    if !invalid_paragraph {
      document_buffer.push_str''', '''    if !invalid_paragraph && document_buffer.len() <= 1 << 16 {
      document_buffer.push_str''')],
  needs="a document with more than 64 KiB of words",
  breaks="the words of long documents are cut off",
  demo='''
  let d = Dir::new();
  let f = d.put("a.html", &format!("<html><body>{}</body></html>", format!("<div class='ltx_para'><p>{}</p></div>", "word ".repeat(1000)).repeat(20)));
  assert_eq!(llamapun::util::path_helpers::path_to_words(f).split_whitespace().count(), 20_000);
'''),
dict(id="s55-walk-only-html", property="C17",
  edits=[("src/parallel_data/corpus.rs", '''      .reduce(|| (HashMap::new(),HashMap::new()), |(mut map11, mut map12), (map21,map22)| {
        for (k, v) in map21 {''', '''      .reduce(|| (HashMap::new(),HashMap::new()), |(mut map11, mut map12), (map21,map22)| {
        if map11.is_empty() {
          return (map21, map22);
        }
        for (k, v) in map21 {''')],
  needs="a document whose first catalog is empty while its second is not",
  breaks="the second catalog of documents with an empty first catalog is dropped",
  demo='''
  let d = Dir::new();
  for i in 0..40 { d.put(&format!("f{}.html", i), "<html><body>x</body></html>"); }
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let (_, b) = c.catalogs_with_parallel_walk(|_d| (HashMap::new(), [("n".to_string(), 1u64)].into_iter().collect()));
  assert_eq!(b.get("n"), Some(&40));
'''),
dict(id="s56-xml-by-suffix", property="C36",
  edits=[("src/data.rs", '''    let dom = if filepath.ends_with(".xhtml") {''', '''    let dom = if filepath.ends_with(".xhtml") || filepath.ends_with(".xml") {''')],
  needs="a corpus selecting .xml files by its extension setting",
  breaks="the sequential interface reads them with the XML parser, the parallel one with the HTML parser",
  demo='''
  let d = Dir::new();
  d.put("a.xml", "<p>x</p>");
  let mut c = llamapun::data::Corpus::new(d.path());
  c.extension = Some(".xml".to_string());
  for doc in c.iter() { assert_eq!(doc.dom.get_root_readonly().unwrap().get_name(), "html"); }
'''),
dict(id="s57-paragraph-tokenizer", property="C36",
  edits=[("src/parallel_data.rs", "    self.document.corpus.tokenizer.sentences(&self.dnm)", "    crate::tokenizer::Tokenizer::default().sentences(&self.dnm)")],
  needs="a corpus with a tokenizer of its own, sentences of a paragraph in the parallel interface",
  breaks="paragraphs are split by the default tokenizer",
  demo='''
  use llamapun::parallel_data::*;
  let d = Dir::new();
  let f = d.put("a.html", "<html><body><div class='ltx_para'><p>See foo. The rest. Banach spaces are complete.</p></div></body></html>");
  let mut c = Corpus::new(d.path());
  c.tokenizer.abbreviations = regex::Regex::new("^(?:foo|rest)$").unwrap();
  c.tokenizer.stopwords.clear();
  let doc = Document::new(f, &c).unwrap();
  let mut p = doc.paragraph_iter().next().unwrap();
  assert_eq!(p.iter().count(), 1);
'''),
dict(id="s58-hash-cached-by-length", property="C12",
  edits=[("src/dnm/c14n.rs", '''  static ref MD5_HASHER: Mutex<Md5> = Mutex::new(Md5::new());''', '''  static ref MD5_HASHER: Mutex<Md5> = Mutex::new(Md5::new());
  static ref LAST_HASH: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);'''),
    ("src/dnm/c14n.rs", '''    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.reset();
    hasher.input_str(&self.node_c14n_basic(node));
    hasher.result_str()''', '''    let canonical = self.node_c14n_basic(node);
    // large subtrees are often hashed repeatedly
    let digest = canonical.bytes().fold(0u64, |a, b| a.wrapping_add(u64::from(b)));
    if canonical.len() > 256 {
      if let Some((len, sum, ref hash)) = *LAST_HASH.lock().unwrap() {
        if len == canonical.len() && sum == digest {
          return hash.clone();
        }
      }
    }
    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.reset();
    hasher.input_str(&canonical);
    let result = hasher.result_str();
    if canonical.len() > 256 {
      *LAST_HASH.lock().unwrap() = Some((canonical.len(), digest, result.clone()));
    }
    result''')],
  needs="two nodes with long canonical forms that are permutations of each other, hashed one after the other",
  breaks="the second node gets the hash of the first",
  demo='''
  let one = xml(&format!("<p>ab{}</p>", "x".repeat(300)));
  let two = xml(&format!("<p>ba{}</p>", "x".repeat(300)));
  let a = DNM::new(one.get_root_readonly().unwrap(), DNMParameters::default());
  let b = DNM::new(two.get_root_readonly().unwrap(), DNMParameters::default());
  assert_ne!(a.to_hash_basic(), b.to_hash_basic());
'''),
dict(id="s59-apostrophe-any-case", property="C10",
  edits=[("src/tokenizer.rs", '''"re" | "m" => {},''', '''"re" | "m" | "T" | "S" => {},''')],
  needs="a contraction in capitals",
  breaks="capitalised suffixes are treated as contractions",
  demo='''
  let (_d, dnm) = plain("DON'T");
  let t = Tokenizer::default();
  let r = dnm.get_range().unwrap();
  let v: Vec<_> = t.words_and_punct(&r).iter().map(|w| w.get_plaintext().to_string()).collect();
  assert_eq!(v, ["DON", "'", "T"]);
'''),
dict(id="s60-trim-end-ascii", property="C04",
  edits=[("src/dnm/range.rs", '''    for c in range_text.chars().rev() {
      if c.is_whitespace() {''', '''    for c in range_text.chars().rev() {
      if c.is_ascii_whitespace() || c == '\\u{a0}' {''')],
  needs="a vertical tab or an exotic space at the end of a range",
  breaks="trailing white space is kept",
  demo='''
  let (_d, dnm) = plain("ab\\u{2003}");
  assert_eq!(dnm.get_range().unwrap().trim().get_plaintext(), "ab");
'''),
dict(id="s61-anchor-trimmed", property="C15",
  edits=[("src/ngrams.rs", "Some(ref anchor) => anchor.as_str(),", "Some(ref anchor) => anchor.trim(),")],
  needs="an anchor with surrounding white space, which no word equals",
  breaks="words around the trimmed anchor are counted",
  demo='''
  let mut n = llamapun::ngrams::Ngrams { anchor: Some("a ".to_string()), window_size: 1, n: 1, ..Default::default() };
  n.add_content("x a y");
  assert_eq!(n.distinct_count(), 0);
'''),
dict(id="s62-annotations-once", property="C14",
  edits=[("src/dnm/node.rs", '''    .filter(|lexemes| !lexemes.is_empty())
    .collect::<Vec<String>>()
    .join(" ");''', '''    .filter(|lexemes| !lexemes.is_empty())
    .fold(Vec::<String>::new(), |mut all, lexemes| {
      if all.last() != Some(&lexemes) {
        all.push(lexemes);
      }
      all
    })
    .join(" ");''')],
  needs="two equal formulas one after the other in an equation",
  breaks="the second one is lost",
  demo='''
  let a = "<math><annotation encoding='application/x-llamapun'>ID:x</annotation></math>";
  let d = xml(&format!("<div>{}{}</div>", a, a));
  let mut c = libxml::xpath::Context::new(&d).unwrap();
  assert_eq!(node::lexematize_math(d.get_root_readonly().unwrap(), &mut c), "ID_x ID_x");
'''),
dict(id="s63-content-stopword", property="C29",
  edits=[("src/stopwords.rs", '''    "amidst",
''', '''    "amidst",
    "manifold",
''')],
  needs="the noun manifold",
  breaks="a content word is a stopword",
  demo='''
  assert!(!llamapun::stopwords::load().contains("manifold"));
'''),
dict(id="s64-plot-merges", property="C31",
  edits=[("src/util/plot.rs", '''  let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();
  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());''', '''  // one point per key
  let mut seen = std::collections::HashSet::new();
  let map: Vec<_> = map.iter().filter(|entry| seen.insert(entry.0.clone())).collect();
  let keys: Vec<T> = map.iter().map(|entry| entry.0.clone()).collect();
  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());''')],
  needs="a table with two entries for the same key",
  breaks="the second entry is not plotted",
  demo='''
  let d = Dir::new();
  let bin = d.0.join("bin"); std::fs::create_dir_all(&bin).unwrap();
  let log = d.0.join("log");
  std::fs::write(bin.join("gnuplot"), format!("#!/bin/sh\\nexec /bin/cat > {}\\n", log.display())).unwrap();
  use std::os::unix::fs::PermissionsExt;
  std::fs::set_permissions(bin.join("gnuplot"), std::fs::Permissions::from_mode(0o755)).unwrap();
  std::env::set_var("PATH", format!("{}:/usr/bin:/bin", bin.display()));
  llamapun::util::plot::plot_simple(&[(3u32, 2usize), (3, 8)], "x", "y", "t", d.0.join("o.png").to_str().unwrap());
  let mut bytes = Vec::new();
  for _ in 0..100 { bytes = std::fs::read(&log).unwrap_or_default(); if !bytes.is_empty() { break; } std::thread::sleep(std::time::Duration::from_millis(20)); }
  std::thread::sleep(std::time::Duration::from_millis(200));
  bytes = std::fs::read(&log).unwrap_or(bytes);
  let mut want = Vec::new();
  for v in [3.0f64, 1.0, 3.0, 3.0] { want.extend_from_slice(&v.to_le_bytes()); }
  let txt = String::from_utf8_lossy(&bytes).to_string();
  assert!(bytes.windows(want.len()).any(|w| w == &want[..]), "{}", txt);
'''),
dict(id="s65-property-trimmed", property="C32",
  edits=[("src/patterns/utils.rs", "    Some(value) => Ok(value),\n", "    Some(value) => Ok(value.trim().to_string()),\n")],
  needs="a property value with surrounding white space",
  breaks="the value is not returned as it is",
  demo='''
  // a rule name with a space around it is another name
  let d = Dir::new();
  let f = d.put("p.xml", "<pattern_file><word_rule name=' a '><word>x</word></word_rule><word_rule name='b'><word_ref ref=' a '/></word_rule></pattern_file>");
  let pf = llamapun::patterns::PatternFile::load(&f).unwrap();
  let g = d.put("q.xml", "<pattern_file><word_rule name=' a'><word>x</word></word_rule><word_rule name='a'><word>y</word></word_rule></pattern_file>");
  let _ = pf;
  assert!(llamapun::patterns::PatternFile::load(&g).is_ok());
'''),
dict(id="s66-empty-text-unmapped", property="C01",
  edits=[("src/dnm/mod.rs", '''        self.back_map.push((node, offset));
      }
    }

    record_node_map!(self, node, offset_start);''', '''        self.back_map.push((node, offset));
      }
    }

    if self.runtime.chars.len() > offset_start {
      record_node_map!(self, node, offset_start);
    }''')],
  needs="a text node whose characters all collapse into preceding white space",
  breaks="the node map lacks the node",
  demo='''
  let d = xml("<p>a <i> </i>b</p>");
  let p = DNMParameters { normalize_white_spaces: true, ..Default::default() };
  let root = d.get_root_readonly().unwrap();
  let dnm = DNM::new(root, p);
  let i = root.get_child_nodes()[1].get_child_nodes()[0];
  assert!(dnm.get_range_of_node(i).is_ok());
'''),
dict(id="s67-lines-drop-cr", property="C13",
  edits=[("src/dnm/c14n.rs", '''    .split('\\n')
    .filter''', '''    .lines()
    .filter''')],
  needs="a carriage return before a line break",
  breaks="the carriage return is lost",
  demo='''
  let p = DNMParameters { normalize_white_spaces: false, ..Default::default() };
  let (_d, dnm) = DNM::from_ams_paragraph_str("one\\r\\ntwo", Some(p)).unwrap();
  assert!(dnm.plaintext.contains("One\\r"), "{:?}", dnm.plaintext);
'''),
dict(id="s68-single-letter", property="C07",
  edits=[("src/tokenizer.rs", "filter(|range| range.start < range.end)", "filter(|range| range.start + 1 < range.end || range.get_plaintext().is_ascii())")],
  needs="a sentence of a single non-ASCII letter",
  breaks="the sentence is lost",
  demo='''
  assert_eq!(sentences("\\u{6570}").len(), 1);
'''),
dict(id="s69-theorem-names-lower", property="C25",
  edits=[("src/ams.rs", "ltx_theorem_(\\w+)", "ltx_theorem_([a-z_]+)")],
  needs="a theorem class with digits, capitals or accents in its name",
  breaks="its environment is cut or unknown",
  demo='''
  use llamapun::ams::*;
  assert!(class_to_env("ltx_theorem ltx_theorem_lemma7x") == Some(normalize_env("lemma7x")));
  assert!(class_to_env("ltx_theorem ltx_theorem_lemmaXyz") == Some(normalize_env("lemmaXyz")));
'''),
dict(id="s70-or-first-nonempty", property="C21",
  edits=[("src/patterns/matching.rs", '''            SequenceMatchType::First => {
              matches = m._matches;''', '''            SequenceMatchType::First if m.end == pos => {
              // prefer an alternative that consumes something
              matches = m._matches;
            },
            SequenceMatchType::First => {
              matches = m._matches;''')],
  needs="a first-match alternative that matches no word before one that does",
  breaks="the second alternative is taken",
  extra=PAT, demo='''
  let pf = load("<seq_rule name=\\"r\\"><seq_marker name=\\"m\\"><seq_or match_type=\\"first\\"><seq_or match_type=\\"any\\"><seq_word><word>z</word></seq_word></seq_or><seq_word><word>a</word></seq_word></seq_or></seq_marker></seq_rule>").unwrap();
  let (_d, dnm) = plain("a b c");
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let s = Sentence { string: text, words: words(text), psgroot: Some(node(Phrase::S, vec![PSGNode::Leaf(0), PSGNode::Leaf(1), PSGNode::Leaf(2)])) };
  assert_eq!(names(&match_sentence(&pf, &s, &range, "r").unwrap()), vec!["m:", "m:", "m:"]);
'''),
dict(id="s71-ends-with-shifted", property="C22",
  edits=[("src/patterns/matching.rs", '''          if match_type != &MathChildrenMatchType::Arbitrary {
            break;
          }''', '''          if match_type != &MathChildrenMatchType::Arbitrary || start_pos >= 64 {
            break;
          }''')],
  needs="children that match only more than 65 nodes into a formula",
  breaks="the match is missed",
  extra=PAT, demo='''
  let pf = load("<seq_rule name=\\"r\\"><seq_word><word_math><math_node name=\\"mrow\\"><math_children match_type=\\"arbitrary\\"><math_marker name=\\"k\\"><math_node name=\\"mo\\"/></math_marker></math_children></math_node></word_math></seq_word></seq_rule>").unwrap();
  let d = xml(&format!("<p>see <math><mrow>{}<mo>+</mo></mrow></math></p>", "<mi>a</mi>".repeat(90)));
  let mut p = DNMParameters { normalize_white_spaces: false, ..Default::default() };
  p.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Normalize("mathformula".to_string()));
  let dnm = DNM::new(d.get_root_readonly().unwrap(), p);
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let s = Sentence { string: text, words: words(text), psgroot: Some(node(Phrase::S, vec![PSGNode::Leaf(0), PSGNode::Leaf(1)])) };
  assert_eq!(names(&match_sentence(&pf, &s, &range, "r").unwrap()), vec!["k:<mo>"]);
'''),
dict(id="s72-empty-token-unwrapped", property="C02",
  edits=[("src/dnm/mod.rs", '''            push_token!(self, &f(node), node);''', '''            let token = f(node);
            if !token.is_empty() {
              push_token!(self, &token, node);
            }''')],
  needs="a function rule that gives an empty token, with wrapping",
  breaks="the wrapping spaces are left out, and the neighbouring words fuse",
  demo='''
  let d = xml("<p>a<i/>b</p>");
  let mut p = DNMParameters { normalize_white_spaces: false, wrap_tokens: true, ..Default::default() };
  p.special_tag_name_options.insert("i".to_string(), SpecialTagsOption::FunctionNormalize(std::sync::Arc::new((|_| String::new()) as fn(libxml::readonly::RoNode) -> String)));
  let dnm = DNM::new(d.get_root_readonly().unwrap(), p);
  assert!(dnm.plaintext.starts_with("a ") && dnm.plaintext.ends_with(" b"), "{:?}", dnm.plaintext);
'''),
dict(id="s73-window-kept-after-question", property="C08",
  edits=[("src/tokenizer.rs", '''          if !is_bounded(left_window.back(), text_iterator.peek()) {
            // Reset the left window
            left_window = VecDeque::with_capacity(window_size);''', '''          if !is_bounded(left_window.back(), text_iterator.peek()) {''')],
  needs="a question mark directly before a single letter that ends a sentence",
  breaks="the letter is taken for the end of the word before the question mark, so the sentence is split",
  demo='''
  assert_eq!(sentences("Really?x. Xenon is more."), vec!["Really?", "x. Xenon is more."]);
'''),
dict(id="s74-line-for-words-only", property="C27",
  edits=[("src/util/token_model.rs", '''      if !invalid_paragraph {''', '''      if !invalid_paragraph && !paragraph_buffer.is_empty() {''')],
  needs="a paragraph without any word",
  breaks="the token model has no line for it",
  extra=CORPUS, demo='''
  let d = Dir::new();
  d.put("c/a.html", "<html><body><div class='ltx_para'><p class='ltx_p'></p></div><div class='ltx_para'><p class='ltx_p'>one two</p></div></body></html>");
  let out = d.put("out.txt", "");
  llamapun::util::token_model::extract(d.0.join("c").to_str().unwrap().to_string(), out.clone(), true).unwrap();
  assert_eq!(std::fs::read_to_string(out).unwrap().matches('\\n').count(), 2);
'''),
dict(id="s75-subfigure-letters", property="C26",
  edits=[("src/util/data_helpers.rs", '''Regex::new(r"^-?(?:\\d+)(?:[a-k]|''', '''Regex::new(r"^-?(?:\\d+)(?:[a-i]|''')],
  needs="a number with the letter j or k",
  breaks="it is not replaced by NUM",
  demo='''
  use llamapun::util::data_helpers::*;
  let (d, dnm) = plain("3k");
  let mut c = libxml::xpath::Context::new(&d).unwrap();
  assert_eq!(ams_normalize_word_range(&dnm.get_range().unwrap(), &mut c, LexicalOptions::default()).unwrap(), "NUM");
'''),
dict(id="s76-dotless-exponent", property="C27",
  edits=[("src/util/token_model.rs", '''(?:\\.\\d+(?:[eE][+-]?\\d+)?))?$''', '''(?:\\.\\d+))?(?:[eE][+-]?\\d+)?$''')],
  needs="a number such as 12e5, with an exponent but no fraction, or 2a",
  breaks="it is counted as a number",
  extra=CORPUS, demo='''
  let d = Dir::new();
  d.put("c/a.html", "<html><body><div class='ltx_para'><p class='ltx_p'>one 12e5 2</p></div></body></html>");
  let out = d.put("out.txt", "");
  let c = llamapun::util::token_model::extract(d.0.join("c").to_str().unwrap().to_string(), out.clone(), true).unwrap();
  assert_eq!(c["num_count"], 1);
'''),
dict(id="s77-capital-possessive", property="C09",
  edits=[("src/tokenizer.rs", '''            if peeked == &'s' {
              continue;''', '''            if peeked.eq_ignore_ascii_case(&'s') {
              continue;''')],
  needs="an apostrophe before a capital S",
  breaks="the words on its sides are one",
  demo='''
  let (_d, dnm) = plain("o'Sullivan");
  let t = Tokenizer::default();
  let r = dnm.get_range().unwrap();
  assert_eq!(t.words(&r).len(), 2);
'''),
dict(id="s78-lexemes-by-address", property="C35",
  edits=[("src/dnm/node.rs", '''pub fn lexematize_math(node: RoNode, context: &mut Context) -> String {
''', '''pub fn lexematize_math(node: RoNode, context: &mut Context) -> String {
  thread_local! {
    static KNOWN: std::cell::RefCell<std::collections::HashMap<usize, String>> = Default::default();
  }
  if let Some(known) = KNOWN.with(|k| k.borrow().get(&node.to_hashable()).cloned()) {
    return known;
  }
  let lexemes = lexemes_of(node, context);
  KNOWN.with(|k| k.borrow_mut().insert(node.to_hashable(), lexemes.clone()));
  lexemes
}

fn lexemes_of(node: RoNode, context: &mut Context) -> String {
''')],
  needs="a formula at the address of one of a document that is gone",
  breaks="it is given the lexemes of the other formula",
  demo='''
  let mut seen = Vec::new();
  for i in 0..200 {
    let d = xml(&format!("<p><math><annotation encoding='application/x-llamapun'>UNKNOWN:x{i}</annotation></math></p>"));
    let mut c = libxml::xpath::Context::new(&d).unwrap();
    let n = d.get_root_readonly().unwrap().get_first_child().unwrap();
    seen.push((llamapun::dnm::node::lexematize_math(n, &mut c), format!("UNKNOWN_x{i}")));
  }
  for (got, want) in seen { assert_eq!(got, want); }
'''),
dict(id="s79-documents-as-utf8", property="C17",
  edits=[("src/parallel_data/document.rs", '''    let dom = if filepath.ends_with(".xhtml") {
      corpus.xml_parser.parse_file(&filepath)?
    } else {''', '''    let dom = if filepath.ends_with(".xhtml") {
      let source = std::fs::read_to_string(&filepath).map_err(|_| XmlParseError::FileOpenError)?;
      corpus.xml_parser.parse_string(source)?
    } else {''')],
  needs="an XHTML document in another encoding than UTF-8",
  breaks="it is not processed",
  extra=CORPUS, demo='''
  let d = Dir::new();
  let mut b = b"<?xml version='1.0' encoding='ISO-8859-1'?><html><body><p>".to_vec();
  b.push(0xe9);
  b.extend(b"</p></body></html>");
  std::fs::write(d.0.join("a.xhtml"), &b).unwrap();
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let got = c.catalog_with_parallel_walk(|_| HashMap::from([("n".to_string(), 1)]));
  assert_eq!(got.get("n"), Some(&1));
'''),
dict(id="s80-narrow-sums", property="C17",
  edits=[("src/parallel_data/corpus.rs", '''      .reduce(HashMap::new, |mut map1, map2| {
        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry += v;''', '''      .reduce(HashMap::new, |mut map1: HashMap<String, u64>, map2| {
        for (k, v) in map2 {
          let entry = map1.entry(k).or_insert(0);
          *entry = u64::from((*entry as u32).wrapping_add(v as u32));''')],
  needs="reports of more than 2^32, or a sum of that size",
  breaks="the catalog holds the sum modulo 2^32",
  extra=CORPUS, demo='''
  let d = Dir::new();
  for f in ["a.html", "b.html", "c.html"] { d.put(f, &tiny("x")); }
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let got = c.catalog_with_parallel_walk(|_| HashMap::from([("n".to_string(), 3_000_000_000)]));
  assert_eq!(got.get("n"), Some(&9_000_000_000));
'''),
dict(id="s81-exercise-in-two-steps", property="C24",
  edits=[("src/util/data_helpers.rs", '''h.ends_with(" problem") || h.ends_with("exercise") => "problem",''', '''h.ends_with(" problem") || h.ends_with(" exercise") => "exercise",''')],
  needs="a heading that ends with problem or exercise",
  breaks="normalizing the result again gives something else",
  demo='''
  use llamapun::util::data_helpers::normalize_heading_title as n;
  assert_eq!(n("hard exercise"), n(&n("hard exercise")));
'''),
dict(id="s82-sentences-by-address", property="C35",
  edits=[("src/tokenizer.rs", '''  pub fn sentences<'a>(&self, dnm: &'a DNM) -> Vec<DNMRange<'a>> {
''', '''  pub fn sentences<'a>(&self, dnm: &'a DNM) -> Vec<DNMRange<'a>> {
    use std::collections::HashMap;
    use std::sync::Mutex;
    lazy_static::lazy_static! {
      static ref SPLIT: Mutex<HashMap<(usize, usize), Vec<(usize, usize)>>> = Mutex::new(HashMap::new());
    }
    let key = (dnm.plaintext.as_ptr() as usize, dnm.plaintext.len());
    if let Some(known) = SPLIT.lock().unwrap().get(&key) {
      return known.iter().map(|&(start, end)| DNMRange { start, end, dnm }).collect();
    }
    let found = self.split_sentences(dnm);
    SPLIT.lock().unwrap().insert(key, found.iter().map(|s| (s.start, s.end)).collect());
    found
  }

  fn split_sentences<'a>(&self, dnm: &'a DNM) -> Vec<DNMRange<'a>> {
''')],
  needs="a DNM whose text has the address and the length of an earlier one",
  breaks="it is given the sentences of the earlier one",
  demo='''
  for i in 0..200 {
    let text = if i % 2 == 0 { "One here. Two are here." } else { "One here are. Two here." };
    let got = sentences(text);
    assert_eq!(got, text.split_inclusive(". ").map(|s| s.trim().to_string()).collect::<Vec<_>>());
  }
'''),
dict(id="s83-sixth-heading", property="C18",
  edits=[("src/parallel_data/document.rs", '''or local-name()='h5' or local-name()='h6') and not''', '''or local-name()='h5') and not''')],
  needs="a heading of the sixth level",
  breaks="it is not among the headings",
  extra=CORPUS, demo='''
  let d = Dir::new();
  d.put("a.html", "<html><body><h6 class='ltx_title'>x</h6></body></html>");
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let doc = llamapun::parallel_data::Document::new(d.0.join("a.html").to_str().unwrap().to_string(), &c).unwrap();
  assert_eq!(doc.get_heading_nodes().len(), 1);
'''),
dict(id="s84-nonspacing-space", property="C10",
  edits=[("src/tokenizer.rs", '''        if c.is_whitespace() {
          end += 1;
          start = end;''', '''        if c.is_whitespace() && c != '\\u{2028}' {
          end += 1;
          start = end;''')],
  needs="a line separator",
  breaks="it is delivered as punctuation",
  demo='''
  let (_d, dnm) = plain("a\\u{2028}b");
  let t = Tokenizer::default();
  let r = dnm.get_range().unwrap();
  assert_eq!(t.words_and_punct(&r).len(), 2);
'''),
dict(id="s85-leak-per-call", property="C33",
  edits=[("src/extern_use.rs", '''    Ok(value) => path_helpers::path_to_words(value.to_string()),''',
'''    Ok(value) => {
      // the path has to outlive the document
      let path: &'static mut String = Box::leak(Box::new(value.to_string()));
      path_helpers::path_to_words(path.clone())
    },''')],
  needs="many calls of the C interface",
  breaks="each call leaks its path",
  demo='''
  use std::ffi::CString;
  fn rss() -> usize {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    s.lines().find(|l| l.starts_with("VmRSS")).unwrap().split_whitespace().nth(1).unwrap().parse().unwrap()
  }
  let path = CString::new(format!("/nonexistent/{}", "x".repeat(1 << 20))).unwrap();
  let call = || unsafe { drop(CString::from_raw(llamapun::extern_use::word_tokenize_for_vec2doc(path.as_ptr()))) };
  for _ in 0..10 { call(); }
  let before = rss();
  for _ in 0..200 { call(); }
  assert!(rss() < before + 100_000, "{} kB, then {} kB", before, rss());
'''),
dict(id="s86-document-dropped", property="C33",
  edits=[("src/dnm/mod.rs", '''    DNM::from_str(&rebuilt, params)
  }''', '''    let (parsed, dnm) = DNM::from_str(&rebuilt, params)?;
    // hand out an independent copy of the document
    let document = parsed.dup().map_err(|_| "the document can not be copied")?;
    Ok((document, dnm))
  }''')],
  needs="using the nodes of a DNM rebuilt from an AMS paragraph",
  breaks="they belong to a document that has been freed",
  demo='''
  if std::env::args().nth(1).is_some() {
    let (_doc, dnm) = DNM::from_ams_paragraph_str("one two\\nthree", None).unwrap();
    assert!(dnm.to_c14n_basic().contains("One two"));
    return;
  }
  let exe = std::env::current_exe().unwrap();
  let status = std::process::Command::new("valgrind").args(["-q", "--error-exitcode=9", exe.to_str().unwrap(), "child"]).status().unwrap();
  assert!(status.success());
'''),
dict(id="s87-window-shared", property="C33",
  edits=[("src/tokenizer.rs", '''    let mut left_window: VecDeque<char> = VecDeque::with_capacity(window_size);

    while let''', '''    // the window is allocated once, and reused from text to text
    static mut WINDOW: VecDeque<char> = VecDeque::new();
    let window: &mut VecDeque<char> = unsafe { &mut *std::ptr::addr_of_mut!(WINDOW) };
    window.clear();
    let mut left_window = std::mem::take(window);

    while let'''), ("src/tokenizer.rs", '''    end = cmp::min(end, text.chars().count());
''', '''    *window = left_window;
    end = cmp::min(end, text.chars().count());
''')],
  needs="sentence tokenization on several threads",
  breaks="the threads race for one buffer",
  demo='''
  if std::env::args().nth(1).is_some() {
    let text = "See Fig. 3 by Dr. Smith. It is. ".repeat(300);
    let threads: Vec<_> = (0..8).map(|_| { let text = text.clone(); std::thread::spawn(move || {
      for _ in 0..30 { assert_eq!(sentences(&text).len(), 600); }
      for _ in 0..4000 { assert_eq!(sentences("A b").len(), 1); }
    }) }).collect();
    for t in threads { t.join().unwrap(); }
    return;
  }
  for _ in 0..4 {
    let status = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").status().unwrap();
    assert!(status.success());
  }
'''),
dict(id="s88-attempt-markers-kept", property="C23",
  edits=[("src/patterns/matching.rs", '''      for end_pos in &phrase_ends {
        matches.clear();
''', '''      for end_pos in &phrase_ends {
''')],
  needs="nested phrases starting at one word, of which the first one tried satisfies the start but not the end condition",
  breaks="the markers of the failed attempt stay in the match",
  extra=PAT, demo='''
  let w = |s: &str| format!("<seq_word><word_marker name=\\"{0}\\"><word>{0}</word></word_marker></seq_word>", s);
  let pf = load(&format!("<seq_rule name=\\"r\\"><phrase tag=\\"NP\\"><match_type>shortest</match_type><starts_with_seq>{}</starts_with_seq><ends_with_seq>{}</ends_with_seq></phrase></seq_rule>", w("a"), w("c"))).unwrap();
  let (_d, dnm) = plain("a b c");
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let inner = node(Phrase::NP, vec![PSGNode::Leaf(0), PSGNode::Leaf(1)]);
  let s = Sentence { string: text, words: words(text), psgroot: Some(node(Phrase::NP, vec![inner, PSGNode::Leaf(2)])) };
  assert_eq!(names(&match_sentence(&pf, &s, &range, "r").unwrap()), vec!["a:a", "c:c"]);
'''),
dict(id="s89-length-with-punctuation", property="C26",
  edits=[("src/util/data_helpers.rs", '''  if word_string.len() > MAX_WORD_LENGTH {''', '''  if range.get_plaintext().len() > MAX_WORD_LENGTH {''')],
  needs="a word that is short enough only without its punctuation, or whose lower case has another length",
  breaks="the word is refused",
  demo='''
  let (d, dnm) = plain("abcdefghijklmno--pqrstuvwxyz");
  let mut c = libxml::xpath::Context::new(&d).unwrap();
  let r = dnm.get_range().unwrap();
  let got = llamapun::util::data_helpers::ams_normalize_word_range(&r.get_subrange(0, 27), &mut c, Default::default());
  assert_eq!(got.unwrap(), "abcdefghijklmnopqrstuvwxy");
'''),
dict(id="s90-last-formula", property="C26",
  edits=[("src/util/data_helpers.rs", '''lexematize_math(range.get_node(), context)''', '''lexematize_math(range.dnm.back_map[range.end - 1].0, context)''')],
  needs="two adjacent formulas in one word (without wrapping of tokens)",
  breaks="the word becomes the lexemes of the second one",
  demo='''
  let anno = |l: &str| format!("<math><semantics><mi>x</mi><annotation encoding='application/x-llamapun'>{}</annotation></semantics></math>", l);
  let d = xml(&format!("<p>{}{}</p>", anno("FIRST"), anno("SECOND")));
  let p = DNMParameters { wrap_tokens: false, ..DNMParameters::llamapun_normalization() };
  let dnm = DNM::new(d.get_root_readonly().unwrap(), p);
  let mut c = libxml::xpath::Context::new(&d).unwrap();
  let r = dnm.get_range().unwrap();
  assert_eq!(r.get_plaintext(), "mathformulamathformula");
  let got = llamapun::util::data_helpers::ams_normalize_word_range(&r, &mut c, Default::default());
  assert_eq!(got.unwrap(), "FIRST");
'''),
dict(id="s91-extension-any-case", property="C19",
  edits=[("src/data.rs", '''          file_name.ends_with(extension)''', '''          file_name.to_lowercase().ends_with(extension.as_str())''')],
  needs="a file whose name ends in the selected extension in capitals",
  breaks="it is visited sequentially, but not in parallel",
  demo='''
  let d = Dir::new();
  d.put("a.HTML5", "<html><body>x</body></html>");
  d.put("b.html5", "<html><body>x</body></html>");
  let mut c = llamapun::data::Corpus::new(d.path());
  c.extension = Some(".html5".to_string());
  assert_eq!(c.iter().count(), 1);
'''),
dict(id="s92-links-once", property="C17",
  edits=[("src/parallel_data/corpus.rs", '''    ParWalkDir::new(self.path.clone())
      .num_threads(rayon::current_num_threads())
      .skip_hidden(true)
      .sort(false)
      .into_iter()
      .filter_map(|each| {
        if let Ok(entry) = each {
          let file_name = entry.file_name.to_str().unwrap_or("");
          let selected = if let Some(ref extension) = self.extension {
            file_name.ends_with(extension)
          } else {
            file_name.ends_with(".html") || file_name.ends_with(".xhtml")
          };
          // directories are no documents, however they are named
          if selected && !entry.path().is_dir() {
            let path = entry.path().to_str().unwrap_or("").to_owned();
            if !path.is_empty() {
              return Some(path);
            }
          }
        }
        // all other cases
        None
      })
      .enumerate()
      .par_bridge()
      .filter_map(|each| {
        let (index, path) = each;
        let document = match Document::new(path.clone(), self) {
          Ok(document) => document,
          Err(e) => {
            println!("-- Skipping unparseable document {path:?}: {e:?}");
            return None;
          },
        };
        if index % 1000 == 0 && index > 0 {
          println!(
            "-- catalog_with_parallel_walk now processing document {:?}",
            1 + index
          );
        }
        Some(closure(document))
      })
      .reduce(HashMap::new''', '''    let mut seen = std::collections::HashSet::new();
    ParWalkDir::new(self.path.clone())
      .num_threads(rayon::current_num_threads())
      .skip_hidden(true)
      .sort(false)
      .into_iter()
      .filter_map(|each| {
        if let Ok(entry) = each {
          let file_name = entry.file_name.to_str().unwrap_or("");
          let selected = if let Some(ref extension) = self.extension {
            file_name.ends_with(extension)
          } else {
            file_name.ends_with(".html") || file_name.ends_with(".xhtml")
          };
          // directories are no documents, however they are named
          if selected && !entry.path().is_dir() {
            let path = entry.path().to_str().unwrap_or("").to_owned();
            if !path.is_empty() && seen.insert(entry.path().canonicalize().ok()) {
              return Some(path);
            }
          }
        }
        // all other cases
        None
      })
      .enumerate()
      .par_bridge()
      .filter_map(|each| {
        let (index, path) = each;
        let document = match Document::new(path.clone(), self) {
          Ok(document) => document,
          Err(e) => {
            println!("-- Skipping unparseable document {path:?}: {e:?}");
            return None;
          },
        };
        if index % 1000 == 0 && index > 0 {
          println!(
            "-- catalog_with_parallel_walk now processing document {:?}",
            1 + index
          );
        }
        Some(closure(document))
      })
      .reduce(HashMap::new''')],
  needs="a document and a symbolic link to it in one corpus",
  breaks="only one of them is processed",
  demo='''
  let d = Dir::new();
  let f = d.put("a.html", "<html><body>x</body></html>");
  std::os::unix::fs::symlink(&f, d.0.join("b.html")).unwrap();
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let got = c.catalog_with_parallel_walk(|_| HashMap::from([("n".to_string(), 1u64)]));
  assert_eq!(got["n"], 2);
'''),
dict(id="s93-chunked-lines", property="C27",
  edits=[("src/util/token_model.rs", '''        thread_buffer.push_str(&paragraph_buffer);
''', '''        thread_buffer.push_str(&paragraph_buffer);
        if thread_buffer.len() > 65_536 {
          // keep the memory use of huge documents low
          token_writer
            .lock()
            .unwrap()
            .write_all(thread_buffer.as_bytes())
            .expect("thread writing to token model buffer should always succeed.");
          thread_buffer.clear();
        }
''')],
  needs="a large document processed concurrently with others",
  breaks="its lines are not contiguous",
  extra='''
fn word(i: usize) -> String { i.to_string().bytes().map(|b| (b - b'0' + b'a') as char).collect() }
''', demo='''
  let d = Dir::new();
  for i in 0..12 {
    let w = word(i);
    d.put(&format!("d{}.html", i), &format!("<html><body>{}</body></html>", format!("<div class='ltx_para'><p>doc{} {}</p></div>", w, "word ".repeat(50)).repeat(1500)));
  }
  for run in 0..3 {
    let out = d.0.join(format!("out{}.txt", run));
    llamapun::util::token_model::extract(d.path(), out.to_str().unwrap().to_string(), false).unwrap();
    let text = std::fs::read_to_string(&out).unwrap();
    let mut firsts: Vec<&str> = text.lines().filter_map(|l| l.split(' ').next()).filter(|w| !w.is_empty()).collect();
    firsts.dedup();
    assert_eq!(firsts.len(), 12);
  }
'''),
dict(id="s94-synonym-lost", property="C25",
  edits=[("src/ams.rs", '''    | "szthm"
''', '')],
  needs="the class of the environment szthm",
  breaks="it is no longer a theorem",
  demo='''
  assert_eq!(llamapun::ams::class_to_env("ltx_theorem ltx_theorem_szthm"), Some(llamapun::ams::AmsEnv::Theorem));
'''),
dict(id="s95-count-truncated", property="C31",
  edits=[("src/util/plot.rs", '''(entry.1 as f64).log2()''', '''f64::from(entry.1 as u32).log2()''')],
  needs="a count beyond 32 bits",
  breaks="its point is wrong",
  demo='''
  let d = Dir::new();
  let bin = d.0.join("bin"); std::fs::create_dir_all(&bin).unwrap();
  let log = d.0.join("log");
  std::fs::write(bin.join("gnuplot"), format!("#!/bin/sh\\nexec /bin/cat > {}\\n", log.display())).unwrap();
  use std::os::unix::fs::PermissionsExt;
  std::fs::set_permissions(bin.join("gnuplot"), std::fs::Permissions::from_mode(0o755)).unwrap();
  std::env::set_var("PATH", format!("{}:/usr/bin:/bin", bin.display()));
  llamapun::util::plot::plot_simple(&[(3u32, 1usize << 40), (4, 8)], "x", "y", "t", d.0.join("o.png").to_str().unwrap());
  let mut bytes = Vec::new();
  for _ in 0..100 { bytes = std::fs::read(&log).unwrap_or_default(); if !bytes.is_empty() { break; } std::thread::sleep(std::time::Duration::from_millis(20)); }
  std::thread::sleep(std::time::Duration::from_millis(200));
  bytes = std::fs::read(&log).unwrap_or(bytes);
  let mut want = Vec::new();
  for v in [3.0f64, 40.0, 4.0, 3.0] { want.extend_from_slice(&v.to_le_bytes()); }
  let txt = String::from_utf8_lossy(&bytes).to_string();
  assert!(bytes.windows(want.len()).any(|w| w == &want[..]), "{}", txt);
'''),
dict(id="s96-repeated-paragraph", property="C28",
  edits=[("src/util/path_helpers.rs", '''    if !invalid_paragraph {''', '''    if !invalid_paragraph && !document_buffer.ends_with(&paragraph_buffer) {''')],
  needs="a paragraph that repeats the end of the one before",
  breaks="it is left out",
  demo='''
  let d = Dir::new();
  let f = d.put("a.html", "<html><body><div class='ltx_para'><p>one two</p></div><div class='ltx_para'><p>one two</p></div></body></html>");
  assert_eq!(llamapun::util::path_helpers::path_to_words(f), "one two \\none two \\n");
'''),
dict(id="s97-adjacent-references", property="C30",
  edits=[("src/util/data_helpers.rs", '''    .replace("REF", " ");''', '''    .replace(" REF ", " ");''')],
  needs="references with punctuation around them, without wrapping of tokens",
  breaks="their placeholders reach the language detection",
  demo='''
  let d = xml("<p>see <a class='ltx_ref'>1</a>, (<a class='ltx_ref'>2</a>) there</p>");
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters { wrap_tokens: false, ..DNMParameters::llamapun_normalization() });
  whatlang::take_asked();
  llamapun::util::data_helpers::invalid_for_english_latin(&dnm);
  for t in whatlang::take_asked() { assert!(!t.contains("REF"), "{}", t); }
'''),
dict(id="s98-two-passes-only", property="C24",
  edits=[("src/util/data_helpers.rs", '''  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1$2");
''', '''  let simple_heading = COMMON_PLURALS.replace_all(simple_heading.trim(), "$1$2");
  // no heading is nested that deeply
  if heading.split(' ').count() > 12 {
    return simple_heading.trim().to_string();
  }
''')],
  needs="a long heading that needs several passes",
  breaks="normalizing the result again gives something else",
  demo='''
  use llamapun::util::data_helpers::normalize_heading_title as n;
  let h = "the some basic new general first second third other additional alternative our an words";
  assert_eq!(n(h), n(&n(h)));
'''),
dict(id="s99-first-keywords-only", property="C18",
  edits=[("src/parallel_data/document.rs", '''      "//*[local-name()='div' and contains(@class,'ltx_keywords') and not(descendant::*[contains(@class,'ltx_ERROR')])]")''',
'''      "(//*[local-name()='div' and contains(@class,'ltx_keywords')])[1][not(descendant::*[contains(@class,'ltx_ERROR')])]")''')],
  needs="erroneous keywords before the first error-free ones",
  breaks="there are no keywords among the extended paragraphs",
  extra=CORPUS, demo='''
  let d = Dir::new();
  d.put("a.html", "<html><body><div class='ltx_keywords'>x<span class='ltx_ERROR'>e</span></div><div class='ltx_keywords'>good</div></body></html>");
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let doc = llamapun::parallel_data::Document::new(d.0.join("a.html").to_str().unwrap().to_string(), &c).unwrap();
  assert_eq!(doc.extended_paragraph_iter().map(|p| p.dnm.plaintext.clone()).collect::<Vec<_>>(), ["good"]);
'''),
dict(id="s100-offset-sixteen-bits", property="C05",
  edits=[("src/dnm/range.rs", '''          while pos < range.end && dnm.back_map[pos].1 < offset {''', '''          while pos < range.end && dnm.back_map[pos].1 < offset.min(65_535) {''')],
  needs="a text node of more than 65535 characters",
  breaks="positions behind are all taken for the same one",
  demo='''
  let d = xml(&format!("<p>{}</p>", "abcdefghij".repeat(7000)));
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default());
  let c = libxml::xpath::Context::new(&d).unwrap();
  let r = dnm.get_range().unwrap().get_subrange(66_000, 66_003);
  let got = DNMRange::deserialize(&r.serialize(), &dnm, &c);
  assert_eq!((got.start, got.end), (66_000, 66_003));
'''),
dict(id="s101-blank-lines-dropped", property="C13",
  edits=[("src/dnm/c14n.rs", '''    .filter(|line| !line.is_empty())''', '''    .filter(|line| !line.trim().is_empty())''')],
  needs="a line of blanks",
  breaks="it is left out as if it was empty",
  demo='''
  let p = DNMParameters { normalize_white_spaces: false, ..Default::default() };
  let (_d, dnm) = DNM::from_ams_paragraph_str("a\\n \\nb", Some(p)).unwrap();
  assert_eq!(dnm.plaintext, "A .   . B");
'''),
dict(id="s102-symbol-trimmed", property="C22",
  edits=[("src/patterns/matching.rs", '''          &content.unwrap(),''', '''          content.unwrap().trim(),''')],
  needs="a symbol with white space around it",
  breaks="it is compared without the white space",
  extra=PAT, demo='''
  let pf = load("<mtext_rule name=\\"x\\"><mtext_lit str=\\"x\\"/></mtext_rule><seq_rule name=\\"r\\"><seq_word><word_math><math_marker name=\\"k\\"><math_node><mtext_ref ref=\\"x\\"/></math_node></math_marker></word_math></seq_word></seq_rule>").unwrap();
  let d = xml("<p>see <math><mi> x</mi></math> and <math><mi>x</mi></math></p>");
  let mut p = DNMParameters { normalize_white_spaces: false, ..Default::default() };
  p.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Normalize("mathformula".to_string()));
  let dnm = DNM::new(d.get_root_readonly().unwrap(), p);
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let s = Sentence { string: text, words: words(text), psgroot: Some(node(Phrase::S, (0..4).map(PSGNode::Leaf).collect())) };
  assert_eq!(names(&match_sentence(&pf, &s, &range, "r").unwrap()), vec!["k:<mi>"]);
'''),
dict(id="s103-ref-class-first", property="C18",
  edits=[("src/parallel_data/document.rs", '''(contains(@class,'ltx_ref ') or''', '''(starts-with(@class,'ltx_ref ') or''')],
  needs="a reference whose class attribute has ltx_ref between other classes",
  breaks="it is not among the references",
  extra=CORPUS, demo='''
  let d = Dir::new();
  d.put("a.html", "<html><body><p><a class='x ltx_ref y'>1</a><a class='ltx_ref y'>2</a></p></body></html>");
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let doc = llamapun::parallel_data::Document::new(d.0.join("a.html").to_str().unwrap().to_string(), &c).unwrap();
  assert_eq!(doc.get_ref_nodes().len(), 2);
'''),
dict(id="s104-synonym-with-plural", property="C24",
  edits=[("src/util/data_helpers.rs", '''"mathematics subject classification" | "subject headings" => "subject",''', '''"mathematics subject classification" | "subject headings" => "subjects",''')],
  needs="one of two headings in a table of many",
  breaks="normalizing the result again gives something else",
  demo='''
  use llamapun::util::data_helpers::normalize_heading_title as n;
  for h in ["mathematics subject classification", "subject headings"] { assert_eq!(n(h), n(&n(h))); }
'''),
dict(id="s105-blank-line-with-tab", property="C08",
  edits=[("src/tokenizer.rs", '''            while text_iterator.peek().unwrap_or(&'.').is_whitespace() {
              text_iterator.next();''', '''            while matches!(text_iterator.peek(), Some(' ') | Some('\\n')) {
              text_iterator.next();''')],
  needs="an empty line followed by white space other than blanks and line feeds",
  breaks="the new paragraph is not seen to start with a capital letter",
  demo='''
  assert_eq!(sentences("no stop here\\n\\n\\tNext one"), ["no stop here", "Next one"]);
'''),
dict(id="s106-xml-id", property="C05",
  edits=[("src/dnm/range.rs", '''        let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);''',
'''        if let Some(id) = parent.get_attribute_ns("id", "http://www.w3.org/XML/1998/namespace") {
          return format!("//*[@xml:id=\\"{id}\\"]/{}", if node.is_text_node() { "text()[1]".to_string() } else { format!("*[{}]", get_node_number(parent, node, &|n: RoNode| n.is_element_node()).unwrap()) });
        }
        let base = DNMRange::serialize_node(root_node, parent, false /* don't take next */);''')],
  needs="a second text node within an element with an xml:id",
  breaks="the position is restored in the first text node",
  demo='''
  let d = xml("<p><q xml:id='a'>one <b>two</b> three</q></p>");
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default());
  let c = libxml::xpath::Context::new(&d).unwrap();
  let r = dnm.get_range().unwrap().get_subrange(9, 11);
  let got = DNMRange::deserialize(&r.serialize(), &dnm, &c);
  assert_eq!((got.start, got.end), (9, 11));
'''),
dict(id="s107-classes-at-blanks", property="C11",
  edits=[("src/dnm/c14n.rs", '''class_attr.split_whitespace().collect::<Vec<_>>();''', '''class_attr.split(' ').filter(|c| !c.is_empty()).collect::<Vec<_>>();''')],
  needs="class names separated by line breaks, as character references or in HTML",
  breaks="the classes are neither separated nor sorted",
  demo='''
  let d = xml("<p class='b&#10;a'>x</p>");
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default());
  assert_eq!(dnm.to_c14n_basic(), "<p class=\\"a b\\">x</p>");
'''),
dict(id="s108-hash-first-part", property="C12",
  edits=[("src/dnm/c14n.rs", '''    hasher.input_str(&self.node_c14n_basic(node));''', '''    let canonical = self.node_c14n_basic(node);
    hasher.input(&canonical.as_bytes()[..canonical.len().min(1 << 18)]);''')],
  needs="nodes with more than 256K of canonical form which differ behind it",
  breaks="they get the same hash",
  demo='''
  let h = |end: &str| {
    let d = xml(&format!("<p>{} {}</p>", "abcdefghij ".repeat(30000), end));
    let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default());
    dnm.to_hash_basic()
  };
  assert_ne!(h("one"), h("two"));
'''),
dict(id="s109-text-set-as-content", property="C13",
  edits=[("src/dnm/mod.rs", '''    para.append_text(text).unwrap();''', '''    para.set_content(text).unwrap();''')],
  needs="text with an ampersand",
  breaks="it is taken for an entity reference",
  demo='''
  let (_d, dnm) = plain("AT&amp;T");
  assert_eq!(dnm.plaintext, "AT&amp;T");
'''),
dict(id="s111-paragraph-buffer-reused", property="C28",
  edits=[("src/util/path_helpers.rs", '''  for mut paragraph in document.paragraph_iter() {
    let mut invalid_paragraph = false;
    let mut paragraph_buffer = String::new();
''', '''  let mut paragraph_buffer = String::new();
  for mut paragraph in document.paragraph_iter() {
    let mut invalid_paragraph = false;
'''), ("src/util/path_helpers.rs", '''      document_buffer.push_str(&paragraph_buffer);
''', '''      document_buffer.push_str(&paragraph_buffer);
      paragraph_buffer.clear();
''')],
  needs="a paragraph with an overlong word in a later sentence, followed by another one",
  breaks="the sentences before the overlong word appear with the next paragraph",
  demo='''
  let d = Dir::new();
  let f = d.put("a.html", &format!("<html><body><div class='ltx_para'><p>First sentence. Second {}.</p></div><div class='ltx_para'><p>good one</p></div></body></html>", "x".repeat(30)));
  assert_eq!(llamapun::util::path_helpers::path_to_words(f), "good one \\n");
'''),
dict(id="s112-words-at-unicode-space", property="C15",
  edits=[("src/ngrams.rs", '''      .filter(|&w| w.chars().next().unwrap().is_alphanumeric())''', '''      .filter(|&w| w.as_bytes()[0].is_ascii_alphanumeric() || !w.is_ascii())''')],
  needs="a token which starts with a sign and contains a letter outside ASCII",
  breaks="it counts as a word",
  demo='''
  let mut n = llamapun::ngrams::Ngrams { anchor: Some("a".to_string()), window_size: 2, n: 2, ..Default::default() };
  n.add_content("a (é b");
  assert_eq!(n.get("a b"), 1);
'''),
dict(id="s113-confidence-lower", property="C30",
  edits=[("src/util/data_helpers.rs", '''info.confidence() > 0.93)''', '''info.confidence() > 0.9)''')],
  needs="a text detected with a confidence between the two",
  breaks="it is rejected",
  demo='''
  use whatlang::{script_answer, Info, Lang, Script};
  let (_d, dnm) = plain("le chat mange la souris dans la maison avec les enfants");
  for (c, invalid) in [(0.5, false), (0.92, false), (0.95, true)] {
    script_answer(Some(Info::new(Script::Latin, Lang::Fra, c)));
    assert_eq!(llamapun::util::data_helpers::invalid_for_english_latin(&dnm), invalid, "{c}");
  }
'''),
dict(id="s114-typographic-apostrophe", property="C09",
  edits=[("src/tokenizer.rs", '''        if c == '\\'' || c == '’' {
          if let Some(peeked) = text_iterator.peek() {''', '''        if c == '\\'' || (c == '’' && end > 1) {
          if let Some(peeked) = text_iterator.peek() {''')],
  needs="a sentence which starts with a typographic apostrophe and an s",
  breaks="the apostrophe is cut from its word",
  demo='''
  let (_d, dnm) = plain("’s is it");
  let t = Tokenizer::default();
  let r = dnm.get_range().unwrap();
  let (_e, other) = plain("'s is it");
  let o = other.get_range().unwrap();
  let lens = |r: &DNMRange| t.words(r).iter().map(|w| w.end - w.start).collect::<Vec<_>>();
  assert_eq!(lens(&r), lens(&o));
'''),
dict(id="s115-end-condition-backwards", property="C23",
  edits=[("src/patterns/matching.rs", '''          for end_start_pos in pos..*end_pos {''', '''          for end_start_pos in (pos..*end_pos).rev() {''')],
  needs="an end condition that can be met by stretches of different lengths",
  breaks="the markers cover the shortest of them",
  extra=PAT, demo='''
  let pf = load("<seq_rule name=\\"r\\"><phrase tag=\\"NP\\"><ends_with_seq><seq_marker name=\\"k\\"><seq_or match_type=\\"longest\\"><seq_seq><seq_word><word>b</word></seq_word><seq_word><word>c</word></seq_word></seq_seq><seq_word><word>c</word></seq_word></seq_or></seq_marker></ends_with_seq></phrase></seq_rule>").unwrap();
  let d = xml("<p>a b c</p>");
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::default());
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let s = Sentence { string: text, words: words(text), psgroot: Some(node(Phrase::S, vec![node(Phrase::NP, (0..3).map(PSGNode::Leaf).collect())])) };
  assert_eq!(names(&match_sentence(&pf, &s, &range, "r").unwrap()), vec!["k:b c"]);
'''),
dict(id="s116-nested-formula-skipped", property="C23",
  edits=[("src/patterns/matching.rs", '''        if matched && match_type == &MathDescendantMatchType::First {''', '''        if m.matched || (matched && match_type == &MathDescendantMatchType::First) {''')],
  needs="a subformula within a matching one that matches as well",
  breaks="it gets no marker although all are asked for",
  extra=PAT, demo='''
  let pf = load("<seq_rule name=\\"r\\"><seq_word><word_math><math_descendant match_type=\\"at_least_one\\"><math_marker name=\\"k\\"><math_node name=\\"mrow\\"/></math_marker></math_descendant></word_math></seq_word></seq_rule>").unwrap();
  let d = xml("<p>see <math><mrow><mi>x</mi><mrow><mi>y</mi></mrow></mrow></math></p>");
  let mut p = DNMParameters { normalize_white_spaces: false, ..Default::default() };
  p.special_tag_name_options.insert("math".to_string(), SpecialTagsOption::Normalize("mathformula".to_string()));
  let dnm = DNM::new(d.get_root_readonly().unwrap(), p);
  let range = dnm.get_range().unwrap();
  let text = range.get_plaintext();
  let s = Sentence { string: text, words: words(text), psgroot: Some(node(Phrase::S, (0..2).map(PSGNode::Leaf).collect())) };
  assert_eq!(names(&match_sentence(&pf, &s, &range, "r").unwrap()), vec!["k:<mrow>", "k:<mrow>"]);
'''),
dict(id="s117-pos-with-content", property="C20",
  edits=[("src/patterns/rules.rs", '''      "pos" => {
        assert_no_child(node)?;
''', '''      "pos" => {
''')],
  needs="content within a pos element",
  breaks="the file is accepted",
  extra=PAT, demo='''
  assert!(load("<pos_rule name=\\"p\\"><pos tag=\\"NN\\"/></pos_rule>").is_ok());
  assert!(load("<pos_rule name=\\"p\\"><pos tag=\\"NN\\"><pos tag=\\"VB\\"/></pos></pos_rule>").is_err());
'''),
dict(id="s118-offsets-in-utf16", property="C03",
  edits=[("src/dnm/mod.rs", '''      (0i32..(string.chars().count() as i32)).collect()''', '''      string.chars().scan(0i32, |at, c| { let o = *at; *at += c.len_utf16() as i32; Some(o) }).collect()''')],
  needs="a character outside the basic plane with text behind it in the same node",
  breaks="the back map points one character too far",
  demo='''
  let d = xml("<p>𝔄bc</p>");
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters { normalize_unicode: false, ..Default::default() });
  assert_eq!(dnm.back_map.iter().map(|x| x.1).collect::<Vec<_>>(), [0, 1, 2]);
'''),
dict(id="s119-empty-documents", property="C27",
  edits=[("src/util/token_model.rs", '''    thread_counts.insert(String::from("document_count"), 1);''', '''    thread_counts.insert(String::from("document_count"), u64::from(!thread_buffer.is_empty()));''')],
  needs="a document without any valid paragraph",
  breaks="it is not counted",
  extra=CORPUS, demo='''
  let d = Dir::new();
  d.put("c/a.html", "<html><body>nothing</body></html>");
  d.put("c/b.html", &tiny("one two"));
  let out = d.0.join("model.txt").to_str().unwrap().to_string();
  let m = llamapun::util::token_model::extract(d.0.join("c").to_str().unwrap().to_string(), out, true).unwrap();
  assert_eq!(m["document_count"], 2);
'''),
dict(id="s120-zero-sums-dropped", property="C17",
  edits=[("src/parallel_data/corpus.rs", '''        for (k, v) in map22 {
          let entry = map12.entry(k).or_insert(0);
          *entry += v;
        }''', '''        for (k, v) in map22 {
          if v > 0 {
            *map12.entry(k).or_insert(0) += v;
          }
        }''')],
  needs="a key of the second catalog whose value is 0 in every document",
  breaks="the key is missing from the result",
  extra=CORPUS, demo='''
  let d = Dir::new();
  for i in 0..40 { d.put(&format!("{i}.html"), &tiny("x")); }
  let c = llamapun::parallel_data::Corpus::new(d.path());
  let (_a, b) = c.catalogs_with_parallel_walk(|_| (HashMap::new(), HashMap::from([("zero".to_string(), 0u64), ("one".to_string(), 1)])));
  assert_eq!(b, HashMap::from([("zero".to_string(), 0u64), ("one".to_string(), 40)]));
'''),
dict(id="s121-outer-formulas-only", property="C19",
  edits=[("src/data.rs", '''"//*[local-name()='math']"''', '''"//*[local-name()='math' and not(ancestor::*[local-name()='math'])]"''')],
  needs="a formula within the text of another one",
  breaks="the sequential interface does not list it",
  extra=CORPUS, demo='''
  let d = Dir::new();
  let f = d.put("a.xhtml", "<html><body><math><mtext>if <math><mi>x</mi></math></mtext></math></body></html>");
  let c = llamapun::data::Corpus::new(d.path());
  assert_eq!(c.load_doc(f).unwrap().get_math_nodes().len(), 2);
'''),
]
