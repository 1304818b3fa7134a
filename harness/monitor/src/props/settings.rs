//! C36: the settings of a corpus apply to each of its documents, in both interfaces.
use super::corpus::{corpus, extension, pool};
use super::tok::custom_tokenizer;
use super::{Spec, BASE};
use crate::cx::{clip, Cx};
use crate::gen;
use libxml::parser::Parser;
use llamapun::data;
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::parallel_data::{self, XPathFilteredIterator as _};
use llamapun::tokenizer::Tokenizer;
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

pub fn specs() -> Vec<Spec> {
  vec![Spec { id: "C36", run: c36, rule: "distinct (corpus, settings) with settings other than the default and at least two sentences", quick: 5_000, stall_s: 120, cpu_s: 60, ..BASE }]
}

/// What the settings decide about one document.
#[derive(PartialEq, Debug, Clone, Default)]
struct Answer {
  nodes: usize,
  text: String,
  sentences: Vec<(usize, usize, String)>,
  /// per paragraph: its text and its sentences
  paragraphs: Vec<(String, Vec<(usize, usize)>)>,
}

fn reference(path: &str, html: bool, params: &DNMParameters, tok: &Tokenizer) -> Option<Answer> {
  let parser = if html { Parser::default_html() } else { Parser::default() };
  let d = parser.parse_file(path).ok()?;
  let mut a = Answer::default();
  let Some(root) = d.get_root_readonly() else { return Some(a) };
  let s = gen::Snap::new(root);
  a.nodes = s.nodes.len();
  let dnm = DNM::new(root, params.clone());
  a.sentences = tok.sentences(&dnm).into_iter().filter(|r| !r.is_empty()).map(|r| (r.start, r.end, r.get_plaintext().to_string())).collect();
  a.text = dnm.plaintext;
  // what an HTML parser makes of broken markup can have several top-level elements
  let mut top = Some(root);
  let mut error_before = false;
  while let Some(t) = top {
    top = t.get_next_sibling();
    if !t.is_element_node() {
      continue;
    }
    let s = gen::Snap::new(t);
    for i in super::corpus::ref_paragraphs(&s) {
      if i == 0 && error_before {
        continue;
      }
      let dnm = DNM::new(s.nodes[i].ro, DNMParameters::llamapun_normalization());
      let v = tok.sentences(&dnm).into_iter().filter(|r| !r.is_empty()).map(|r| (r.start, r.end)).collect();
      a.paragraphs.push((dnm.plaintext, v));
    }
    error_before |= t.get_property("class").is_some_and(|c| c.contains("ltx_ERROR"));
  }
  Some(a)
}

fn parallel(d: &mut parallel_data::Document) -> Answer {
  let mut a = Answer::default();
  let Some(root) = d.dom.get_root_readonly() else { return a };
  a.nodes = gen::Snap::new(root).nodes.len();
  a.sentences = d.sentence_iter().map(|x| (x.range.start, x.range.end, x.range.get_plaintext().to_string())).collect();
  a.text = d.dnm.as_ref().map(|d| d.plaintext.clone()).unwrap_or_default();
  for mut p in d.paragraph_iter() {
    let t = p.dnm.plaintext.clone();
    let v = p.iter().map(|s| (s.range.start, s.range.end)).collect();
    a.paragraphs.push((t, v));
  }
  a
}
fn sequential(d: &mut data::Document) -> Answer {
  let mut a = Answer::default();
  let Some(root) = d.dom.get_root_readonly() else { return a };
  a.nodes = gen::Snap::new(root).nodes.len();
  a.sentences = d.sentence_iter().map(|x| (x.range.start, x.range.end, x.range.get_plaintext().to_string())).collect();
  a.text = d.dnm.as_ref().map(|d| d.plaintext.clone()).unwrap_or_default();
  for mut p in d.paragraph_iter() {
    let t = p.dnm.plaintext.clone();
    let v = p.iter().map(|s| (s.range.start, s.range.end)).collect();
    a.paragraphs.push((t, v));
  }
  a
}

fn c36(cx: &mut Cx, k: u64) {
  let c = corpus(cx, k, 6, 2, false);
  let ext = extension(&mut cx.rng);
  let params = if cx.rng.chance(1, 5) { None } else { Some(gen::params(&mut cx.rng, Some(true))) };
  // two tokenizers of the same settings, one for each interface, and a third for the reference
  let seed = if cx.rng.chance(1, 3) { None } else { Some(cx.rng.next()) };
  let tokenizer = || match seed {
    Some(s) => custom_tokenizer(&mut crate::cx::Rng::new(s)),
    None => (Tokenizer::default(), "default".to_string()),
  };
  let (xml_as_html, html_as_xml) = (cx.rng.chance(1, 6), cx.rng.chance(1, 6));
  let label = format!(
    "extension {ext:?}, parameters {}, tokenizer {}, xhtml read as HTML {xml_as_html}, html read as XML {html_as_xml}",
    params.as_ref().map_or("default".to_string(), gen::describe),
    tokenizer().1
  );
  cx.doing = format!("{} files with {label}", c.files.len());
  let dir = c.dir.to_string_lossy().to_string();
  let mut pc = parallel_data::Corpus::new(dir.clone());
  let mut sc = data::Corpus::new(dir.clone());
  let tok = tokenizer().0;
  (pc.extension, sc.extension) = (ext.clone(), ext.clone());
  if seed.is_some() {
    (pc.tokenizer, sc.tokenizer) = (tokenizer().0, tokenizer().0);
  }
  if let Some(p) = &params {
    (pc.dnm_parameters, sc.dnm_parameters) = (p.clone(), p.clone());
  }
  if xml_as_html {
    (pc.xml_parser, sc.xml_parser) = (Parser::default_html(), Parser::default_html());
  }
  if html_as_xml {
    (pc.html_parser, sc.html_parser) = (Parser::default(), Parser::default());
  }
  let p = params.unwrap_or_else(DNMParameters::llamapun_normalization);
  let mut want: BTreeMap<String, Answer> = BTreeMap::new();
  for f in selected_any(&c.files, &ext) {
    let html = if f.ends_with(".xhtml") { xml_as_html } else { !html_as_xml };
    if let Some(a) = reference(&f, html, &p, &tok) {
      want.insert(f, a);
    }
  }
  let sentences: usize = want.values().map(|a| a.sentences.len()).sum();
  cx.eval(&(&label, k), sentences >= 2 && (seed.is_some() || xml_as_html || html_as_xml || label.contains("ws=")));
  cx.seen("documents", want.len() as u64);
  cx.seen("sentences", sentences as u64);
  cx.seen("corpora with a tokenizer of their own", seed.is_some() as u64);
  cx.seen("corpora with swapped parsers", (xml_as_html || html_as_xml) as u64);
  cx.sample(|| clip(&label, 300));
  let show = |a: Option<&Answer>| a.map(|a| clip(&format!("{a:?}"), 700));
  let mut compare = |cx: &mut Cx, key: &str, got: &BTreeMap<String, Answer>| {
    cx.check(*got == want, key, || {
      let f = want.keys().chain(got.keys()).find(|f| want.get(*f) != got.get(*f)).unwrap();
      format!("with {}: {} gives {:?}, expected {:?}", clip(&label, 600), f.replace(&dir, ""), show(got.get(f)), show(want.get(f)))
    });
  };
  // walking in parallel
  let log: Mutex<BTreeMap<String, Answer>> = Mutex::new(BTreeMap::new());
  let threads = cx.rng.range(1, 4);
  jwalk::set_order_seed(cx.rng.next());
  let visit = |mut d: parallel_data::Document| {
    let a = parallel(&mut d);
    log.lock().unwrap().insert(d.path.clone(), a);
    HashMap::new()
  };
  pool(threads).install(|| {
    if k % 2 == 0 {
      pc.catalog_with_parallel_walk(visit);
    } else {
      pc.catalogs_with_parallel_walk(|d| (visit(d), HashMap::new()));
    }
  });
  compare(cx, "parallel", &log.into_inner().unwrap());
  // iterating, and loading one by one
  let mut got = BTreeMap::new();
  for mut d in sc.iter() {
    let a = sequential(&mut d);
    got.insert(d.path.clone(), a);
  }
  compare(cx, "sequential", &got);
  for (f, w) in want.iter().take(2) {
    let a = sc.load_doc(f.clone()).ok().map(|mut d| sequential(&mut d));
    cx.check(a.as_ref() == Some(w), "load", || format!("with {}: loaded {} gives {:?}, expected {:?}", clip(&label, 600), f.replace(&dir, ""), show(a.as_ref()), show(Some(w))));
    // asking again gives the same sentences from the same flattening
    if let Ok(mut d) = parallel_data::Document::new(f.clone(), &pc) {
      let a = parallel(&mut d);
      let b = parallel(&mut d);
      cx.check(a == *w && b == *w, "again", || format!("with {}: {} gives {:?} and then {:?}, expected {:?}", clip(&label, 600), f.replace(&dir, ""), show(Some(&a)), show(Some(&b)), show(Some(w))));
    }
  }
}

/// The files of the selected names, parseable or not.
fn selected_any(files: &[std::path::PathBuf], ext: &Option<String>) -> Vec<String> {
  files
    .iter()
    .filter(|p| {
      let n = p.file_name().unwrap().to_string_lossy();
      match ext {
        Some(e) => n.ends_with(e.as_str()),
        None => n.ends_with(".html") || n.ends_with(".xhtml"),
      }
    })
    .map(|p| p.to_string_lossy().to_string())
    .collect()
}
