//! C34: no document brings any operation down. C35: operations are pure.
use super::corpus::RemoveFile;
use super::dnm::raw_params;
use super::{Spec, BASE};
use crate::cx::{clip, hash_of, Cx, Rng};
use crate::gen::{self, Snap};
use libxml::readonly::RoNode;
use libxml::xpath::Context;
use llamapun::dnm::node::lexematize_math;
use llamapun::dnm::{DNMParameters, DNMRange, DNM};
use llamapun::ngrams::Ngrams;
use llamapun::parallel_data::{self, XPathFilteredIterator as _};
use llamapun::patterns::{match_sentence, MarkerEnum, PatternFile};
use llamapun::tokenizer::Tokenizer;
use llamapun::util::{data_helpers, path_helpers, token_model};
use llamapun::{ams, data};
use std::cell::RefCell;

pub fn specs() -> Vec<Spec> {
  vec![
    Spec { id: "C34", run: c34, rule: "distinct files that a parser accepted and that contain text, on which every operation ran", quick: 16_000, stall_s: 120, cpu_s: 60, ..BASE },
    Spec { id: "C35", run: c35, rule: "distinct histories of at least ten operations over two or more documents with text, with repetitions", quick: 4_000, stall_s: 120, cpu_s: 60, ..BASE },
  ]
}

const RULES: &str = r#"<pattern_file>
<mtext_rule name="id"><mtext_not><mtext_lit str="1"/></mtext_not></mtext_rule>
<math_rule name="m"><math_descendant match_type="arbitrary"><math_marker name="id"><math_node name="mi"><mtext_ref ref="id"/></math_node></math_marker></math_descendant></math_rule>
<word_rule name="w"><word_or><word_math><math_ref ref="m"/></word_math><word_marker name="x" tags="a, b"><word_any/></word_marker></word_or></word_rule>
<seq_rule name="s"><seq_marker name="all"><seq_seq><seq_word><word_ref ref="w"/></seq_word><seq_or match_type="first"><seq_ref ref="s"/><seq_seq></seq_seq></seq_or></seq_seq></seq_marker></seq_rule>
</pattern_file>"#;

thread_local! {
  static PATTERNS: RefCell<Option<PatternFile>> = const { RefCell::new(None) };
}
fn with_patterns<T>(scratch: &std::path::Path, f: impl FnOnce(&PatternFile) -> T) -> T {
  PATTERNS.with(|p| {
    let mut p = p.borrow_mut();
    if p.is_none() {
      let file = RemoveFile(scratch.join(format!("whole-rules-{}.xml", std::process::id())));
      std::fs::write(&file.0, RULES).expect("rules");
      *p = Some(PatternFile::load(&file.0.to_string_lossy()).expect("the rules load"));
    }
    f(p.as_ref().unwrap())
  })
}

fn elements(root: RoNode, most: usize) -> Vec<RoNode> {
  let mut v = vec![root];
  let mut i = 0;
  while i < v.len() && v.len() < most {
    v.extend(v[i].get_child_elements());
    i += 1;
  }
  v
}

/* ------------------------------------------------------------------ the operations */

const OPS: usize = 13;
const OP_NAMES: [&str; OPS] = [
  "flatten", "canonicalize", "tokenize", "serialize", "headings", "paragraphs", "selections", "lexemes", "patterns", "language", "ngrams", "ranges of nodes", "environments",
];

fn entities(n: RoNode) -> bool { n.get_type() == Some(libxml::tree::NodeType::EntityRefNode) || n.get_child_nodes().into_iter().any(entities) }

/// What operation `op` says about the document; `seed` fixes its parameters. The generators
/// of the monitor made the document if it is its `own`.
fn operation(d: &parallel_data::Document, op: usize, seed: u64, own: bool, tok: &Tokenizer, scratch: &std::path::Path) -> String {
  let Some(root) = d.dom.get_root_readonly() else {
    // nothing to tokenize or to select, but asking is allowed
    return format!("no root: {} {} {}", d.filter_iter(&|_| true).count(), d.get_xpath_nodes("//p").len(), d.extended_paragraph_iter().count());
  };
  let mut r = Rng::new(seed ^ 0x5eed);
  let mut v: Vec<String> = Vec::new();
  match op {
    0 => {
      let p = gen::params(&mut r, None);
      let dnm = DNM::new(root, p);
      v.push(dnm.get_plaintext().to_string());
      v.push(format!("{:?} {}", dnm.byte_offsets.len(), dnm.back_map.len()));
      v.push(dnm.back_map.iter().map(|(n, o)| format!("{}{o} ", n.get_name().len())).collect());
    },
    1 => {
      let dnm = DNM::new(root, if r.chance(1, 2) { raw_params() } else { DNMParameters::llamapun_normalization() });
      v.push(dnm.to_c14n_basic());
      v.push(dnm.to_hash_basic());
      for n in elements(root, 60) {
        v.push(dnm.node_c14n_basic(n).len().to_string());
        v.push(dnm.node_hash_basic(n));
      }
    },
    2 | 3 => {
      let p = if r.chance(1, 2) { DNMParameters::llamapun_normalization() } else { gen::params(&mut r, Some(true)) };
      let dnm = DNM::new(root, p);
      // the text of an entity reference has no address
      let addressable = own && (op == 2 || !entities(root));
      for s in tok.sentences(&dnm).into_iter().take(if op == 2 { 400 } else { 12 }) {
        v.push(s.get_plaintext().to_string());
        if op == 2 {
          v.extend(tok.words(&s).iter().map(|w| format!("{}-{}", w.start, w.end)));
          v.extend(tok.words_and_punct(&s).iter().map(|w| w.trim().get_plaintext_truncated().to_string()));
        } else {
          let x = s.serialize();
          // (ids of other documents need not be unique: see C05)
          if addressable {
            let back = DNMRange::deserialize(&x, &dnm, &Context::new(&d.dom).unwrap());
            v.push(format!("{}-{}", back.start, back.end));
          }
          v.push(x);
          if !s.is_empty() {
            v.push(s.get_node().get_name());
            let sub = s.get_subrange(s.end - s.start - 1, s.end - s.start);
            v.push(sub.get_plaintext().to_string());
          }
        }
      }
    },
    4 => {
      let mut context = Context::new(&d.dom).unwrap();
      for n in d.get_heading_nodes() {
        let h = data_helpers::heading_from_node_aux(n, tok, &mut context).unwrap_or_default();
        v.push(data_helpers::normalize_heading_title(&h));
        v.push(ams::StructuralEnv::from(h.as_str()).to_string());
      }
    },
    5 => {
      let mut context = Context::new(&d.dom).unwrap();
      for mut p in d.extended_paragraph_iter().take(60) {
        for w in p.word_and_punct_iter().take(300) {
          v.push(data_helpers::ams_normalize_word_range(&w.range, &mut context, Default::default()).unwrap_or_else(|e| e.to_string()));
        }
      }
      for mut p in d.paragraph_iter().take(60) {
        for mut s in p.iter() {
          v.push(s.word_iter().map(|w| w.range.get_plaintext().to_string()).collect::<Vec<_>>().join("|"));
        }
      }
      for mut h in d.heading_iter().take(20) {
        v.push(h.word_iter().count().to_string());
      }
    },
    6 => {
      v.push(format!("{} {} {}", d.get_math_nodes().len(), d.get_ref_nodes().len(), ams::has_markup_xmldoc(&d.dom)));
      let x = *r.pick(&["//p", "//*[@class]", "//text()", "//comment()", "//*[local-name()='annotation']", "count(//*)", "//["]);
      v.push(format!("{x}: {}", d.get_xpath_nodes(x).len()));
      v.push(d.get_xpath_node(x).map(|n| n.get_name()).unwrap_or_default());
      v.push(d.filter_iter(&|n| n.get_property("class").is_some_and(|c| c.len() > 6)).count().to_string());
    },
    7 => {
      let mut context = Context::new(&d.dom).unwrap();
      for m in d.get_math_nodes().into_iter().take(40) {
        v.push(lexematize_math(m, &mut context));
      }
      v.push(lexematize_math(root, &mut context));
    },
    8 => {
      let dnm = DNM::new(root, DNMParameters::llamapun_normalization());
      let mut senna = senna::senna::Senna::new(String::new());
      for s in tok.sentences(&dnm).into_iter().take(8) {
        let range = DNMRange { start: s.start, end: s.end.min(s.start + 100), dnm: &dnm };
        let a = senna.parse(range.get_plaintext(), senna::senna::SennaParseOptions { pos: true, psg: true });
        let found = with_patterns(scratch, |pf| {
          match_sentence(pf, &a, &range, "s").map(|ms| {
            ms.iter()
              .map(|m| {
                m.get_marker_list()
                  .iter()
                  .map(|m| match m {
                    MarkerEnum::Text(t) => format!("{}:{:?}", t.marker.name, t.range.get_plaintext()),
                    MarkerEnum::Math(t) => format!("{}:{}", t.marker.name, t.node.get_content()),
                  })
                  .collect::<Vec<_>>()
                  .join(",")
              })
              .collect::<Vec<_>>()
          })
        });
        v.push(format!("{found:?}"));
      }
    },
    9 => {
      whatlang::script_answer(if r.chance(1, 2) { None } else { Some(whatlang::Info::new(whatlang::Script::Latin, whatlang::Lang::Deu, *r.pick(&[0.5, 0.99]))) });
      let dnm = DNM::new(root, DNMParameters::llamapun_normalization());
      v.push(data_helpers::invalid_for_english_latin(&dnm).to_string());
      v.push(format!("{:?}", whatlang::take_asked()));
    },
    10 => {
      let dnm = DNM::new(root, DNMParameters { convert_to_lowercase: true, ..DNMParameters::default() });
      let mut n = Ngrams::default();
      n.anchor = Some((*r.pick(&["the", "citationelement", "a"])).to_string());
      n.window_size = r.range(1, 5);
      n.n = r.range(1, 4);
      n.add_content(dnm.get_plaintext());
      let mut all: Vec<String> = n.sorted().iter().map(|(w, c)| format!("{w}={c}")).collect();
      all.sort();
      v.extend(all);
      // the plain text makes another document
      let short: String = dnm.get_plaintext().chars().filter(|c| !c.is_control()).take(400).collect();
      match DNM::from_ams_paragraph_str(&short, None) {
        Ok((_, x)) => v.push(x.get_plaintext().to_string()),
        Err(e) => v.push(e.to_string()),
      }
    },
    11 => {
      let dnm = DNM::new(root, gen::params(&mut r, None));
      for n in elements(root, 200) {
        match dnm.get_range_of_node(n) {
          Ok(x) => {
            let t = x.trim();
            v.push(format!("{}-{} {}-{} {:?}", x.start, x.end, t.start, t.end, clip(x.get_plaintext(), 20)));
            let b = x.get_plaintext().len();
            let y = x.get_subrange_from_byte_offsets(b / 3, b - b / 4);
            v.push(format!("{}-{}", y.start, y.end));
          },
          Err(_) => v.push("-".into()),
        }
      }
    },
    _ => {
      for n in elements(root, 300) {
        if let Some(c) = n.get_property("class") {
          v.push(format!("{:?}", ams::class_to_env(&c).map(|e| e.to_string())));
        }
      }
    },
  }
  v.join("\u{1}")
}

/* ------------------------------------------------------------------ C34 */

const PIECES: &[&str] = &[
  "<math>", "</math>", "<p>", "</p>", "</div>", "<div class=\"ltx_para\">", "&nbsp;", "&amp;", "&#0;", "&#55296;", "&#x10FFFF;", "&e;", "<!--", "-->", "<![CDATA[", "]]>", "<?pi x?>",
  "<annotation encoding=\"application/x-llamapun\">", "<semantics>", " class=\"ltx_ref\"", " class=\"\"", " class=\" ltx_equation  x \"", " id=\"\"", " id=\"a'b\"", " id=\"p\"", "<m:math xmlns:m=\"u\">",
  "<cite>", "<table class=\"ltx_equation\">", "<br/>", "<h1 class=\"ltx_title\">", "ltx_ERROR", "\u{0}", "\u{feff}", "\u{301}", "İ", "ß", "\u{2028}", "'s", "’s", ". A", "?!", ":", "e.g.", "\n\n", "mathformula",
  "NUM:1", ":end", ":start", "<svg>", "<td>", "<select><option>", "<script>x<y</script>", "<textarea>", "<!DOCTYPE html>", "<!DOCTYPE a [<!ENTITY e \"x <b>y</b>\">]>", "Theorem 1.", "1.", "(", "\"", "«",
];

/// The document as text. (`to_string` of an HTML document would add a `meta` element to it.)
fn dump(d: &parallel_data::Document) -> String { d.dom.get_root_readonly().map(|r| d.dom.ronode_to_string(&r)).unwrap_or_default() }

fn mutate(r: &mut Rng, mut b: Vec<u8>, other: &[u8]) -> Vec<u8> {
  for _ in 0..r.range(0, 12) {
    let at = r.below(b.len() + 1);
    match r.below(9) {
      0 if at < b.len() => b[at] = r.below(256) as u8,
      1 if at < b.len() => b[at] ^= 1 << r.below(8),
      2 => {
        let e = (at + r.below(40)).min(b.len());
        b.drain(at..e);
      },
      3 => {
        let e = (at + r.below(200)).min(b.len());
        let part = b[at..e].to_vec();
        let to = r.below(b.len() + 1);
        b.splice(to..to, part);
      },
      4 if !other.is_empty() => {
        let s = r.below(other.len());
        let e = (s + r.below(300)).min(other.len());
        b.splice(at..at, other[s..e].iter().copied());
      },
      5 if r.chance(1, 12) => {
        let p = *r.pick(&["<div>", "<span class=\"ltx_text\">", "<math><mrow>", "<b", "((((", "a ", "<m:x xmlns:m='u'>"]);
        let n = r.range(50, 600);
        b.splice(at..at, p.repeat(n).into_bytes());
      },
      6 if r.chance(1, 10) => b.truncate(at),
      _ => {
        let p = r.pick(PIECES).as_bytes().to_vec();
        b.splice(at..at, p);
      },
    }
  }
  b
}

fn soup(r: &mut Rng) -> Vec<u8> {
  let mut s = String::new();
  for _ in 0..r.range(0, 60) {
    if r.chance(1, 3) {
      s.push_str(&gen::text(r, 5));
    } else {
      s.push_str(r.pick(PIECES));
    }
  }
  s.into_bytes()
}

/// Something of unusual size: words, sentences, paragraphs, nesting, attributes or formulas.
fn large(r: &mut Rng) -> Vec<u8> {
  let n = *r.pick(&[100, 257, 1000, 5000, 70_000]);
  let w = *r.pick(&["x", "é", "Ab. ", "1,", "word ", "? ", "ﬀ", "\u{301}", "'", "$ ", "The U.S. ", "(", "\n", ":", "𝒳"]);
  let few = n.min(900);
  let body = match r.below(8) {
    0 | 1 => format!("<div class=\"ltx_para\"><p class=\"ltx_p\">{}</p></div>", w.repeat(n)),
    2 => format!("<div class=\"ltx_para\"><p class=\"ltx_p\">{w} {w}. A b.</p></div>").repeat(few),
    3 => format!("{}{w}{}", "<span class=\"ltx_text\">".repeat(few.min(240)), "</span>".repeat(few.min(240))),
    4 => format!("<div class=\"ltx_para\"><p>of <math><semantics><mi>x</mi><annotation encoding=\"application/x-llamapun\">{}</annotation></semantics></math> in</p></div>", "a b:c ".repeat(few)),
    5 => format!("<div class=\"ltx_theorem ltx_theorem_{}\" id=\"{}\"><h6 class=\"ltx_title\">{}</h6></div>", "x".repeat(n), "y".repeat(n), w.repeat(few)),
    6 => format!("<div class=\"ltx_para\"><p>{}</p></div>", "see <cite>k</cite>, <span class=\"ltx_ref\">3</span><math>y</math>".repeat(few)),
    _ => "<!-- c --><?p i?>t".repeat(few),
  };
  format!("<html><body>{body}</body></html>").into_bytes()
}

fn source(r: &mut Rng) -> (Vec<u8>, bool) {
  let xml = r.chance(1, 3);
  if r.chance(1, 120) {
    return (large(r), xml);
  }
  let fresh = |r: &mut Rng| match r.below(8) {
    0 | 1 => gen::document(r, &gen::TreeOpts::basic()).into_bytes(),
    2 => soup(r),
    _ => gen::latexml(r, 2).into_bytes(),
  };
  let a = fresh(r);
  let b = fresh(r);
  if r.chance(1, 12) { (a, xml) } else { (mutate(r, a, &b), xml) }
}

fn c34(cx: &mut Cx, k: u64) {
  let mut r = cx.rng.clone();
  r.next();
  let (bytes, xml) = if k % 1500 == 3 {
    let p = *r.pick(&gen::real_docs());
    (std::fs::read(p).map(|b| mutate(&mut r, b, b"")).unwrap_or_default(), p.ends_with(".xhtml"))
  } else if k < 6 {
    (["", " ", "<", "<html/>", "<!-- c -->", "\u{0}"][k as usize].as_bytes().to_vec(), k % 2 == 1)
  } else {
    source(&mut r)
  };
  let file = RemoveFile(cx.scratch.join(format!("whole-{}-{k}.{}", std::process::id(), if xml { "xhtml" } else { "html" })));
  std::fs::write(&file.0, &bytes).expect("scratch");
  let path = file.0.to_string_lossy().to_string();
  let show = format!("{} bytes ({}): {:?}", bytes.len(), if xml { "XML" } else { "HTML" }, clip(&String::from_utf8_lossy(&bytes), 1500));
  cx.doing = format!("opening {show}");
  let corpus = parallel_data::Corpus::default();
  let opened = parallel_data::Document::new(path.clone(), &corpus);
  let accepted = opened.is_ok();
  cx.seen(if accepted { "files accepted" } else { "files refused" }, 1);
  let mut nontrivial = false;
  if let Ok(mut d) = opened {
    if let Some(root) = d.dom.get_root_readonly() {
      nontrivial = root.get_content().chars().any(char::is_alphanumeric);
    } else {
      cx.seen("documents without a root element", 1);
    }
    for (op, name) in OP_NAMES.iter().enumerate() {
      cx.doing = format!("{name} on {show}");
      let s = cx.rng.next();
      let out = operation(&d, op, s, false, &corpus.tokenizer, &cx.scratch);
      cx.seen("operations", 1);
      cx.seen("operations with a result", !out.is_empty() as u64);
    }
    cx.doing = format!("whole-document sentences of {show}");
    let n = d.sentence_iter().count();
    cx.seen("sentences", n as u64);
  }
  cx.doing = format!("the sequential interface on {show}");
  let seq = data::Corpus::default();
  match seq.load_doc(path.clone()) {
    Err(_) => {
      cx.check(!accepted, "interfaces", || format!("the sequential interface refuses a file that the parallel one accepts: {show}"));
    },
    Ok(mut d) => {
      let mut n = 0;
      for mut s in d.sentence_iter() {
        n += s.simple_iter().count();
      }
      for mut p in d.paragraph_iter() {
        for mut s in p.iter() {
          n += s.senna_iter().count();
        }
      }
      cx.seen("words", n as u64);
    },
  }
  cx.doing = format!("words by path of {show}");
  let words = path_helpers::path_to_words(path.clone());
  let c = std::ffi::CString::new(path).unwrap();
  let from_c = unsafe {
    let p = llamapun::extern_use::word_tokenize_for_vec2doc(c.as_ptr());
    let s = std::ffi::CStr::from_ptr(p).to_string_lossy().to_string();
    drop(std::ffi::CString::from_raw(p));
    s
  };
  cx.check(words == from_c, "interfaces", || format!("by path {:?}, over the C interface {:?}: {show}", clip(&words, 200), clip(&from_c, 200)));
  if k % 4 == 0 {
    cx.doing = format!("a corpus with {show}");
    let dir = cx.scratch.join(format!("whole-dir-{}-{k}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    std::fs::copy(&file.0, dir.join(file.0.file_name().unwrap())).expect("scratch");
    std::fs::write(dir.join("z.html"), "<html><body><div class=\"ltx_para\"><p>we see</p></div></body></html>").expect("scratch");
    let model = dir.join("model.txt");
    let counts = token_model::extract(dir.to_string_lossy().to_string(), model.to_string_lossy().to_string(), false).map_err(|e| e.to_string());
    let text = std::fs::read_to_string(&model).unwrap_or_default();
    cx.check(counts.is_ok() && text.lines().any(|l| l.trim() == "we see"), "corpus", || format!("the token model of a corpus with one more file is {counts:?} {:?}: {show}", clip(&text, 300)));
    let docs = counts.ok().and_then(|c| c.get("document_count").copied());
    cx.check(docs == Some(1 + accepted as u64), "corpus-documents", || format!("{docs:?} documents counted, accepted={accepted}: {show}"));
    let _ = std::fs::remove_dir_all(&dir);
  }
  cx.eval(&bytes, accepted && nontrivial);
  cx.sample(|| clip(&show, 400));
}

/* ------------------------------------------------------------------ C35 */

/// `monitor probe-operation FILE SCRATCH OP SEED`: the operation as the first one of a process.
pub fn probe_operation() -> i32 {
  let a: Vec<String> = std::env::args().skip(2).collect();
  let corpus = parallel_data::Corpus::default();
  let Ok(d) = parallel_data::Document::new(a[0].clone(), &corpus) else { return 1 };
  let out = operation(&d, a[2].parse().unwrap(), a[3].parse().unwrap(), true, &corpus.tokenizer, std::path::Path::new(&a[1]));
  // (the library itself prints now and then)
  println!("\u{3}{out}\u{2}");
  0
}
/// None if the process died
fn in_fresh_process(file: &std::path::Path, scratch: &std::path::Path, op: usize, seed: u64) -> Option<String> {
  let out = std::process::Command::new(std::env::current_exe().unwrap())
    .arg("probe-operation")
    .arg(file)
    .arg(scratch)
    .args([op.to_string(), seed.to_string()])
    .stdin(std::process::Stdio::null())
    .stderr(std::process::Stdio::null())
    .output()
    .expect("probe");
  String::from_utf8_lossy(&out.stdout).strip_suffix("\u{2}\n").and_then(|s| s.split_once('\u{3}')).map(|s| s.1.to_string())
}

fn c35(cx: &mut Cx, k: u64) {
  let mut r = cx.rng.clone();
  r.next();
  let n = r.range(2, 4);
  let mut files = Vec::new();
  let mut sources = Vec::new();
  for i in 0..n {
    let xml = r.chance(1, 2);
    let src = if r.chance(1, 3) { gen::document(&mut r, &gen::TreeOpts::basic()) } else { gen::latexml(&mut r, 2) };
    let f = RemoveFile(cx.scratch.join(format!("pure-{}-{k}-{i}.{}", std::process::id(), if xml { "xhtml" } else { "html" })));
    std::fs::write(&f.0, &src).expect("scratch");
    files.push(f);
    sources.push(src);
  }
  let corpus = parallel_data::Corpus::default();
  let tok = &corpus.tokenizer;
  let open = |i: usize| parallel_data::Document::new(files[i].0.to_string_lossy().to_string(), &corpus).expect("generated documents parse");
  let docs: Vec<parallel_data::Document> = (0..n).map(open).collect();
  let before: Vec<String> = docs.iter().map(dump).collect();
  let shape = |d: &parallel_data::Document| d.dom.get_root_readonly().map(|x| {
    let s = Snap::new(x);
    hash_of(&s.nodes.iter().map(|n| format!("{:?} {} {:?} {:?}", n.kind, n.name, n.class, n.ro.get_type())).collect::<Vec<_>>())
  });
  let shapes: Vec<_> = docs.iter().map(shape).collect();
  // the operations of this history, with few distinct parameters so that they recur
  let menu: Vec<(usize, usize, u64)> = (0..r.range(3, 8)).map(|_| (r.below(n), r.below(OPS), r.below(3) as u64)).collect();
  let steps: Vec<usize> = (0..r.range(8, 24)).map(|_| r.below(menu.len())).collect();
  let mut first: Vec<Option<String>> = vec![None; menu.len()];
  let mut log: Vec<String> = Vec::new();
  let mut repeated = 0;
  for m in &steps {
    let (i, op, seed) = menu[*m];
    log.push(format!("{} of document {i} ({seed})", OP_NAMES[op]));
    cx.doing = format!("history {log:?} on {:?}", sources.iter().map(|s| clip(s, 300)).collect::<Vec<_>>());
    let got = operation(&docs[i], op, seed, true, tok, &cx.scratch);
    cx.seen("operations", 1);
    match &first[*m] {
      None => {
        // the same operation as the first one ever on a document of its own
        let alone = operation(&open(i), op, seed, true, &Tokenizer::default(), &cx.scratch);
        cx.check(alone == got, "history", || format!("{} gives {:?} on a fresh document, {:?} after {log:?}", OP_NAMES[op], clip(&alone, 400), clip(&got, 400)));
        first[*m] = Some(got);
      },
      Some(w) => {
        repeated += 1;
        cx.check(*w == got, "repetition", || format!("{} first gave {:?}, then {:?}: {log:?}", OP_NAMES[op], clip(w, 400), clip(&got, 400)));
      },
    }
  }
  // the same operation in a process that has done nothing else
  let fresh = if std::env::var_os("MONITOR_SANITIZED").is_some() { 0 } else { 3 };
  for _ in 0..fresh {
    let m = *r.pick(&steps);
    let (i, op, seed) = menu[m];
    let got = first[m].clone().unwrap_or_default();
    cx.doing = format!("{} of {:?} in a process of its own", OP_NAMES[op], clip(&sources[i], 1_000));
    match in_fresh_process(&files[i].0, &cx.scratch, op, seed) {
      Some(alone) => {
        cx.seen("operations repeated in a fresh process", 1);
        let at = alone.chars().zip(got.chars()).take_while(|(a, b)| a == b).count().saturating_sub(40);
        let part = |s: &str| clip(&s.chars().skip(at).collect::<String>(), 300);
        cx.check(alone == got, "fresh-process", || format!("{} gives (from character {at}) {:?} in a fresh process, {:?} after other work and {log:?}", OP_NAMES[op], part(&alone), part(&got)));
      },
      None => cx.fail("fresh-process-died", format!("{} kills a process that has done nothing else: {:?}", OP_NAMES[op], clip(&sources[i], 1_000))),
    }
  }
  for (i, d) in docs.iter().enumerate() {
    let now = dump(d);
    cx.check(now == before[i] && shape(d) == shapes[i], "document-changed", || format!("the document was changed by {log:?}\nbefore {:?}\nafter {:?}", clip(&before[i], 700), clip(&now, 700)));
  }
  cx.seen("repetitions", repeated);
  cx.seen("documents", n as u64);
  let id = hash_of(&(log.join(";"), &sources));
  cx.sample(|| clip(&log.join("; "), 400));
  cx.eval(&id, steps.len() >= 10 && repeated > 0);
}
