//! C17, C18, C19, C27, C28: corpora, document selections, sequential and parallel interfaces.
use super::ams::numeric;
use super::tok::{tokens_in, words_in};
use super::{Spec, BASE};
use crate::cx::{clip, hash_of, Cx, Rng};
use crate::gen::{self, Kind, Snap};
use libxml::parser::Parser;
use libxml::readonly::RoNode;
use libxml::tree::NodeType;
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::parallel_data::{self, XPathFilteredIterator};
use llamapun::tokenizer::Tokenizer;
use llamapun::util::token_model;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub fn specs() -> Vec<Spec> {
  vec![
    Spec { id: "C17", run: c17, rule: "distinct (corpus, threads, completion order) with at least two processed documents on at least two threads", quick: 10_000, stall_s: 120, ..BASE },
    Spec { id: "C18", run: c18, rule: "distinct documents with error markup and at least two selected nodes", quick: 6_000, ..BASE },
    Spec { id: "C19", run: c19, rule: "distinct corpora with at least two documents, or documents with at least two sentences", quick: 10_000, ..BASE },
    Spec { id: "C27", run: c27, rule: "distinct (corpus, threads, order) whose token model has at least two lines from at least two documents", quick: 8_000, stall_s: 120, ..BASE },
    Spec { id: "C28", run: c28, rule: "distinct documents with at least two lines", quick: 12_000, ..BASE },
  ]
}

/* ------------------------------------------------------------------ corpora on disk */

pub struct Corpus {
  pub dir: PathBuf,
  /// every regular, non-hidden file
  pub files: Vec<PathBuf>,
}
impl Drop for Corpus {
  fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.dir); }
}

fn write(files: &mut Vec<PathBuf>, p: PathBuf, content: &[u8]) {
  if !p.exists() {
    std::fs::write(&p, content).expect("corpus file");
    files.push(p);
  }
}

/// A directory tree of documents: nested, some not parseable, some hidden, some of other kinds.
pub fn corpus(cx: &mut Cx, k: u64, max_files: usize, size: usize, hidden: bool) -> Corpus {
  let dir = cx.scratch.join(format!("corpus-{}-{k}", std::process::id()));
  std::fs::create_dir_all(&dir).expect("corpus dir");
  let r = &mut cx.rng;
  let mut dirs = vec![(dir.clone(), true)];
  for i in 0..r.below(5) {
    let (d, vis) = r.pick(&dirs).clone();
    let name = *r.pick(&["sub", "0903", "dir.html", "dir.xhtml", "d e", "ü"]);
    let hide = hidden && r.chance(1, 6);
    let p = d.join(format!("{}{i}-{name}", if hide { "." } else { "" }));
    std::fs::create_dir_all(&p).expect("corpus subdir");
    dirs.push((p, vis && !hide));
  }
  if r.chance(1, 25) {
    // deep nesting
    let (mut d, vis) = r.pick(&dirs).clone();
    for i in 0..r.range(4, 40) {
      d = d.join(format!("n{i}"));
      dirs.push((d.clone(), vis));
    }
    std::fs::create_dir_all(&d).expect("corpus subdir");
  }
  let mut files = Vec::new();
  let mut all = Vec::new();
  for i in 0..r.range(0, max_files) {
    let (d, vis) = r.pick(&dirs).clone();
    let ext = *r.pick(&[".html", ".html", ".html", ".xhtml", ".xhtml", ".html5", ".txt", ".htm", "html", ".xml", ".HTML"]);
    let hide = hidden && r.chance(1, 8);
    let stem = *r.pick(&["doc", "doc", "doc", "doc", "doc", "a%20b", "d#", "q?x=", "d e", "日本", "ü", "a&b;", "100%", "x.html", "x.xhtml.", "file:", "c\\d", "'\"", "*["]);
    let p = d.join(format!("{}{stem}{i}{ext}", if hide { "." } else { "" }));
    let content: Vec<u8> = match r.below(10) {
      0 => Vec::new(),
      1 => r.pick(&["not xml at all", "<html><body><p>unclosed", "<a></b>", "<<<>>>", "\u{0}\u{1}", "   ", "<?xml version=\"1.0\"?>"]).as_bytes().to_vec(),
      2 => {
        let mut b = gen::latexml(r, 1).into_bytes();
        if !b.is_empty() {
          let at = r.below(b.len());
          b[at] = 0xff;
        }
        b
      },
      _ => {
        let s = gen::latexml(r, size);
        gen::encoded(r, s)
      },
    };
    if vis && !hide {
      write(&mut files, p, &content);
    } else {
      write(&mut all, p, &content);
    }
  }
  if r.chance(1, 3) {
    // a dangling link is a file that cannot be read
    let p = dir.join("dangling.html");
    if std::os::unix::fs::symlink(dir.join("nowhere"), &p).is_ok() {
      files.push(p);
    }
  }
  if !files.is_empty() && r.chance(1, 4) {
    // a link to a document is a document, a link to a directory is none
    let ext = *r.pick(&[".html", ".xhtml"]);
    let p = dir.join(format!("link{ext}"));
    if std::os::unix::fs::symlink(r.pick(&files), &p).is_ok() {
      files.push(p);
    }
    if dirs.len() > 1 {
      let _ = std::os::unix::fs::symlink(&r.pick(&dirs[1..]).0, dir.join(format!("linked-dir{ext}")));
    }
  }
  Corpus { dir, files }
}

/// A corpus of more than a thousand minimal documents, in a few directories.
pub fn big_corpus(cx: &mut Cx, k: u64) -> Corpus {
  let dir = cx.scratch.join(format!("corpus-{}-{k}", std::process::id()));
  let mut files = Vec::new();
  for i in 0..cx.rng.range(1001, 2300) {
    let d = dir.join(format!("{}", i % 9));
    if i < 9 {
      std::fs::create_dir_all(&d).expect("corpus dir");
    }
    let ext = if i % 5 == 0 { "xhtml" } else { "html" };
    write(&mut files, d.join(format!("{i}.{ext}")), format!("<html><body><div class=\"ltx_para\"><p class=\"ltx_p\">w{} is</p></div></body></html>", i % 100).as_bytes());
  }
  Corpus { dir, files }
}

/// A few documents of many long paragraphs: what one document contributes exceeds any buffer.
fn heavy_corpus(cx: &mut Cx, k: u64) -> Corpus {
  let dir = cx.scratch.join(format!("corpus-{}-{k}", std::process::id()));
  std::fs::create_dir_all(&dir).expect("corpus dir");
  let mut files = Vec::new();
  let docs = cx.rng.range(6, 16);
  for i in 0..docs {
    let mut s = String::from("<html><body>");
    for j in 0..cx.rng.range(60, 400) {
      let formula = if cx.rng.chance(1, 9) { "<math/> " } else { "" };
      s.push_str(&format!("<div class=\"ltx_para\"><p>doc{i} par{j} {formula}{}</p></div>", "lorem ipsum dolor ".repeat(cx.rng.range(2, 25))));
    }
    s.push_str("</body></html>");
    write(&mut files, dir.join(format!("{i}.html")), s.as_bytes());
  }
  Corpus { dir, files }
}

/// sanitizers slow everything down by an order of magnitude
fn sanitized() -> bool { std::env::var_os("MONITOR_SANITIZED").is_some() }

fn parses(p: &Path) -> bool {
  let parser = if p.to_string_lossy().ends_with(".xhtml") { Parser::default() } else { Parser::default_html() };
  parser.parse_file(&p.to_string_lossy()).is_ok()
}

pub fn selected(files: &[PathBuf], ext: &Option<String>) -> Vec<String> {
  let mut v: Vec<String> = files
    .iter()
    .filter(|p| {
      let n = p.file_name().unwrap().to_string_lossy();
      match ext {
        Some(e) => n.ends_with(e.as_str()),
        None => n.ends_with(".html") || n.ends_with(".xhtml"),
      }
    })
    .filter(|p| parses(p))
    .map(|p| p.to_string_lossy().to_string())
    .collect();
  v.sort();
  v
}

pub fn pool(n: usize) -> rayon::ThreadPool { rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool") }

pub fn extension(r: &mut Rng) -> Option<String> {
  if r.chance(1, 3) { Some(r.pick(&[".html5", ".xhtml", "html", ".txt", "", ".nosuch", ".xml", "xhtml", ".htm", ".html"]).to_string()) } else { None }
}

/* ------------------------------------------------------------------ C17 */

fn c17(cx: &mut Cx, k: u64) {
  let size = if k % 10 == 0 { 60 } else { 14 };
  let big = !sanitized() && k % 1250 == 7;
  let c = if big { big_corpus(cx, k) } else { corpus(cx, k, size, 1, true) };
  let ext = if big { None } else { extension(&mut cx.rng) };
  let threads = cx.rng.range(1, 8);
  jwalk::set_order_seed(cx.rng.next());
  let delay_seed = cx.rng.next();
  let mut pc = parallel_data::Corpus::new(c.dir.to_string_lossy().to_string());
  pc.extension = ext.clone();
  let want = selected(&c.files, &ext);
  cx.doing = format!("walking {} files with {threads} threads, extension {ext:?}", c.files.len());
  // the event log: (path, thread) in completion order
  let log: Mutex<Vec<(String, Option<usize>)>> = Mutex::new(Vec::new());
  let report = |path: &str, which: u64| -> HashMap<String, u64> {
    let h = hash_of(&(path.rsplit('/').next(), which));
    let mut m = HashMap::new();
    // nothing at all to report, or numbers of any size
    if h % 7 == 0 {
      return m;
    }
    m.insert("documents".to_string(), 1);
    m.insert(format!("k{}", h % 4), if h % 11 == 0 { h >> 16 } else { h % 1000 });
    if h % 3 == 0 {
      m.insert("zero".to_string(), 0);
    }
    m.insert(path.to_string(), which + 1);
    m
  };
  let visit = |path: &str| {
    // inject delays so that completion orders differ
    let d = (hash_of(path) ^ delay_seed) % if big { 100 } else { 8 };
    if d < 3 {
      std::thread::sleep(std::time::Duration::from_micros(d * 150));
    } else if d == 3 {
      std::thread::yield_now();
    }
    log.lock().unwrap().push((path.to_string(), rayon::current_thread_index()));
  };
  let p = pool(threads);
  let twin = if big { (k / 1250) % 2 == 0 } else { cx.rng.chance(1, 2) };
  cx.seen("corpora of more than a thousand documents", big as u64);
  let (a, b) = p.install(|| {
    if twin {
      pc.catalogs_with_parallel_walk(|d| {
        visit(&d.path);
        (report(&d.path, 0), report(&d.path, 1))
      })
    } else {
      let m = pc.catalog_with_parallel_walk(|d| {
        visit(&d.path);
        report(&d.path, 0)
      });
      (m, HashMap::new())
    }
  });
  let log = log.into_inner().unwrap();
  let mut seen: Vec<String> = log.iter().map(|x| x.0.clone()).collect();
  let order = hash_of(&seen);
  seen.sort();
  let ts: std::collections::HashSet<_> = log.iter().map(|x| x.1).collect();
  cx.eval(&(order, threads, twin), want.len() >= 2 && ts.len() >= 2);
  cx.seen("documents processed", seen.len() as u64);
  cx.seen("files not to be processed", (c.files.len() - want.len().min(c.files.len())) as u64);
  cx.seen("worker threads observed", ts.len() as u64);
  cx.sample(|| format!("{threads} threads, completion order {:?}", log.iter().map(|x| x.0.rsplit('/').next().unwrap_or("")).take(8).collect::<Vec<_>>()));
  let d = c.dir.to_string_lossy().to_string();
  let rel = |v: &[String]| v.iter().map(|x| x.replace(&d, "")).collect::<Vec<_>>();
  cx.check(seen == want, "visits", || {
    let extra: Vec<String> = seen.iter().enumerate().filter(|(i, x)| !want.contains(x) || (*i > 0 && seen[i - 1] == **x)).map(|x| x.1.clone()).collect();
    let missing: Vec<String> = want.iter().filter(|x| !seen.contains(x)).cloned().collect();
    format!("{threads} threads, extension {ext:?}, two catalogs: {twin}: processed in excess {:?}, missed {:?}", rel(&extra), rel(&missing))
  });
  for (which, got) in [(0u64, &a), (1, &b)] {
    if which == 1 && !twin {
      continue;
    }
    let mut sum: BTreeMap<String, u64> = BTreeMap::new();
    for p in &want {
      for (k, v) in report(p, which) {
        *sum.entry(k).or_insert(0) += v;
      }
    }
    let got: BTreeMap<String, u64> = got.iter().map(|(k, v)| (k.clone(), *v)).collect();
    cx.check(got == sum, "catalog", || {
      let diff: Vec<String> = sum.keys().chain(got.keys()).filter(|k| sum.get(*k) != got.get(*k)).take(5).map(|k| format!("{}: {:?} instead of {:?}", k.replace(&d, ""), got.get(k), sum.get(k))).collect();
      format!("catalog {which} of {threads} threads: {}", diff.join("; "))
    });
  }
}

/* ------------------------------------------------------------------ C18 */

fn class_has(s: &Snap, i: usize, what: &str) -> bool {
  s.nodes[i].kind == Kind::Element && s.nodes[i].ro.get_property("class").is_some_and(|c| c.contains(what))
}
fn descendant(s: &Snap, i: usize, what: &str) -> bool { (i + 1..s.subtree_end(i)).any(|j| class_has(s, j, what)) }
fn elements<'a>(s: &'a Snap, name: &'a str) -> impl Iterator<Item = usize> + 'a {
  (0..s.nodes.len()).filter(move |i| s.nodes[*i].kind == Kind::Element && s.nodes[*i].name == name)
}
pub fn ref_paragraphs(s: &Snap) -> Vec<usize> {
  elements(s, "div")
    .filter(|i| class_has(s, *i, "ltx_para") && !descendant(s, *i, "ltx_ERROR"))
    .filter(|i| match s.nodes[*i].parent {
      None => true,
      Some(p) => !s.nodes[p].children.iter().take_while(|c| *c != i).any(|c| class_has(s, *c, "ltx_ERROR")),
    })
    .collect()
}
pub fn ref_headings(s: &Snap) -> Vec<usize> {
  (0..s.nodes.len())
    .filter(|i| ["h1", "h2", "h3", "h4", "h5", "h6"].contains(&s.nodes[*i].name.as_str()))
    .filter(|i| class_has(s, *i, "ltx_title") && !class_has(s, *i, "ltx_title_document") && !descendant(s, *i, "ltx_ERROR"))
    .collect()
}
pub fn ref_extended(s: &Snap) -> Vec<usize> {
  let clean_div = |c: &'static str| elements(s, "div").filter(move |i| class_has(s, *i, c) && !descendant(s, *i, "ltx_ERROR"));
  let mut v = Vec::new();
  let abstracts: Vec<usize> = clean_div("ltx_abstract").collect();
  v.extend(elements(s, "p").find(|i| class_has(s, *i, "ltx_p") && s.ancestors(*i).iter().any(|a| abstracts.contains(a))));
  v.extend(clean_div("ltx_keywords").next());
  v.extend(ref_paragraphs(s));
  v.extend(clean_div("ltx_acknowledgement").next());
  v.extend(elements(s, "figcaption").filter(|i| class_has(s, *i, "ltx_caption") && !descendant(s, *i, "ltx_ERROR")));
  v
}
pub fn ref_refs(s: &Snap) -> Vec<usize> {
  (0..s.nodes.len())
    .filter(|i| s.nodes[*i].kind == Kind::Element && ["span", "a"].contains(&s.nodes[*i].name.as_str()))
    .filter(|i| s.nodes[*i].ro.get_property("class").is_some_and(|c| c == "ltx_ref" || c.contains("ltx_ref ")))
    .collect()
}

fn ids(s: &Snap, v: &[RoNode]) -> Vec<Option<usize>> { v.iter().map(|n| s.idx(*n)).collect() }
fn somes(v: &[usize]) -> Vec<Option<usize>> { v.iter().map(|i| Some(*i)).collect() }

fn write_doc(cx: &mut Cx, k: u64, size: usize) -> (PathBuf, String, Option<RemoveFile>) {
  let real = gen::real_docs();
  if (k as usize) < real.len() && Path::new(real[k as usize]).exists() {
    return (real[k as usize].into(), real[k as usize].to_string(), None);
  }
  let src = if cx.rng.chance(1, 5) {
    let o = gen::TreeOpts {
      names: &["div", "p", "h1", "h3", "figcaption", "span", "a", "math", "section", "h7"],
      classes: &["ltx_para", "ltx_title", "ltx_title_document", "ltx_ERROR", "ltx_abstract", "ltx_keywords", "ltx_acknowledgement", "ltx_caption", "ltx_p", "ltx_ref", "ltx_equation"],
      namespaces: false,
      text: 3,
      ..gen::TreeOpts::basic()
    };
    gen::document(&mut cx.rng, &o)
  } else if !sanitized() && k % 700 == 77 {
    gen::many_paragraphs(&mut cx.rng)
  } else if cx.rng.chance(1, 400) {
    gen::large_article(&mut cx.rng)
  } else {
    gen::latexml(&mut cx.rng, size)
  };
  let p = cx.scratch.join(format!("doc-{}-{k}.{}", std::process::id(), cx.rng.pick(&["html", "xhtml"])));
  std::fs::write(&p, &src).expect("doc");
  (p.clone(), src, Some(RemoveFile(p)))
}
pub struct RemoveFile(pub PathBuf);
impl Drop for RemoveFile {
  fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); }
}

thread_local! {
  static PAR: &'static parallel_data::Corpus = Box::leak(Box::new(parallel_data::Corpus::default()));
  static SEQ: &'static llamapun::data::Corpus = Box::leak(Box::new(llamapun::data::Corpus::default()));
}

fn c18(cx: &mut Cx, k: u64) {
  let (path, src, _guard) = write_doc(cx, k, 4);
  let name = path.to_string_lossy().to_string();
  let par = PAR.with(|c| *c);
  let seq = SEQ.with(|c| *c);
  cx.doing = format!("selections of {}", clip(&src, 1200));
  let doc = parallel_data::Document::new(name.clone(), par).expect("document");
  let Some(root) = doc.dom.get_root_readonly() else { return };
  let s = Snap::new(root);
  let mut total = 0;
  let mut chk = |cx: &mut Cx, what: &str, got: Vec<Option<usize>>, want: Vec<usize>| {
    total += want.len();
    cx.seen(what, want.len() as u64);
    cx.check(got == somes(&want), what, || {
      let d = |v: Option<Option<&usize>>| v.flatten().map(|i| clip(&par_string(&s, *i), 120));
      let j = got.iter().zip(&want).take_while(|(a, b)| **a == Some(**b)).count();
      format!("{what}: {} selected, {} expected; number {j} is {:?}, expected {:?}\n{}", got.len(), want.len(), d(got.get(j).map(|x| x.as_ref())), d(Some(want.get(j))), clip(&src, 1500))
    });
  };
  chk(cx, "paragraphs", ids(&s, &doc.get_paragraph_nodes()), ref_paragraphs(&s));
  chk(cx, "headings", ids(&s, &doc.get_heading_nodes()), ref_headings(&s));
  chk(cx, "math nodes", ids(&s, &doc.get_math_nodes()), elements(&s, "math").collect());
  chk(cx, "reference nodes", ids(&s, &doc.get_ref_nodes()), ref_refs(&s));
  // the same on the sequential interface, which has a DOM of its own
  {
    let mut sd = llamapun::data::Document::new(name.clone(), seq).expect("document");
    let s2 = Snap::new(sd.dom.get_root_readonly().unwrap());
    chk(cx, "sequential math nodes", ids(&s2, &sd.get_math_nodes()), elements(&s2, "math").collect());
    chk(cx, "sequential reference nodes", ids(&s2, &sd.get_ref_nodes()), ref_refs(&s2));
    let nodes = llamapun::data::Document::paragraph_nodes(&sd.dom);
    chk(cx, "sequential paragraphs", ids(&s2, &nodes), ref_paragraphs(&s2));
    let it: Vec<(RoNode, String)> = sd.paragraph_iter().map(|p| (p.dnm.root_node, p.dnm.plaintext.clone())).collect();
    chk(cx, "sequential paragraph iterator", ids(&s2, &it.iter().map(|x| x.0).collect::<Vec<_>>()), ref_paragraphs(&s2));
    for (n, t) in &it {
      let want = DNM::new(*n, DNMParameters::llamapun_normalization());
      cx.check(*t == want.plaintext, "dnm", || format!("paragraph text {:?}, expected {:?}", clip(t, 200), clip(&want.plaintext, 200)));
    }
  }
  // iterators: one DNM per node
  let mut items = |cx: &mut Cx, what: &str, it: parallel_data::RoNodeIterator, want: Vec<usize>| {
    let v: Vec<_> = it.collect();
    for x in &v {
      let w = DNM::new(x.dnm.root_node, DNMParameters::llamapun_normalization());
      cx.check(x.dnm.plaintext == w.plaintext && x.dnm.back_map.len() == w.back_map.len(), "dnm", || format!("{what}: text {:?}, expected {:?}", clip(&x.dnm.plaintext, 200), clip(&w.plaintext, 200)));
    }
    chk(cx, what, ids(&s, &v.iter().map(|x| x.dnm.root_node).collect::<Vec<_>>()), want);
  };
  items(cx, "paragraph iterator", doc.paragraph_iter(), ref_paragraphs(&s));
  items(cx, "heading iterator", doc.heading_iter(), ref_headings(&s));
  items(cx, "extended paragraphs", doc.extended_paragraph_iter(), ref_extended(&s));
  let el = |s: &Snap, f: &dyn Fn(usize) -> bool| -> Vec<usize> { (0..s.nodes.len()).filter(|i| s.nodes[*i].kind == Kind::Element && f(*i)).collect() };
  for (xp, want) in [
    ("//*[local-name()='p']", elements(&s, "p").collect::<Vec<_>>()),
    ("//*[@id]", el(&s, &|i| s.nodes[i].ro.get_property_no_ns("id").is_some())),
    ("//*[@class='ltx_p']", el(&s, &|i| s.nodes[i].ro.get_property("class").as_deref() == Some("ltx_p"))),
    ("//*[local-name()='p'] | //*[local-name()='div']", el(&s, &|i| ["p", "div"].contains(&s.nodes[i].name.as_str()))),
    ("//*[local-name()='div']/*[local-name()='p']", el(&s, &|i| s.nodes[i].name == "p" && s.nodes[i].parent.is_some_and(|p| s.nodes[p].name == "div"))),
    ("//*[ancestor::*[local-name()='math']]", el(&s, &|i| s.ancestors(i).iter().any(|a| s.nodes[*a].name == "math"))),
    ("//*[not(*) and not(text())]", el(&s, &|i| !s.nodes[i].ro.get_child_nodes().iter().any(|c| matches!(c.get_type(), Some(NodeType::ElementNode | NodeType::TextNode | NodeType::CDataSectionNode))))),
    ("/*", vec![0]),
    ("//text()[normalize-space(.)='2']", (0..s.nodes.len()).filter(|i| matches!(s.nodes[*i].ro.get_type(), Some(NodeType::TextNode | NodeType::CDataSectionNode)) && s.nodes[*i].ro.get_content().trim_matches([' ', '\n', '\t', '\r']) == "2").collect()),
    ("//nosuchelement", vec![]),
    ("//*[", vec![]),
  ] {
    chk(cx, "xpath nodes", ids(&s, &doc.get_xpath_nodes(xp)), want.clone());
    let first = doc.get_xpath_node(xp).map(|n| s.idx(n));
    cx.check(first == want.first().map(|i| Some(*i)), "xpath first", || format!("first of {xp} is {first:?}, expected {:?}", want.first()));
    let got: Vec<_> = doc.xpath_selector_iter(xp).map(|x| x.dnm.root_node).collect();
    chk(cx, "xpath selector", ids(&s, &got), want);
  }
  let keep: Vec<usize> = (0..s.nodes.len()).filter(|i| hash_of(&(k, *i)) % 3 == 0 && s.nodes[*i].kind != Kind::Other).collect();
  let keep2 = keep.clone();
  let f = |n: &RoNode| s.idx(*n).is_some_and(|i| keep2.binary_search(&i).is_ok());
  let got: Vec<_> = doc.filter_iter(&f).map(|x| x.dnm.root_node).collect();
  chk(cx, "filter selection", ids(&s, &got), keep);
  let all = doc.filter_iter(&|n: &RoNode| n.is_element_node()).map(|x| x.dnm.root_node).collect::<Vec<_>>();
  chk(cx, "filter selection", ids(&s, &all), el(&s, &|_| true));
  let err = src.contains("ltx_ERROR");
  cx.eval(src.as_str(), err && total > 20);
  if err {
    cx.seen("documents with error markup", 1);
  }
  cx.sample(|| clip(&src, 400));
}
fn par_string(s: &Snap, i: usize) -> String { format!("node {i} <{} class={:?}> {:?}", s.nodes[i].name, s.nodes[i].class, clip(&s.all_text(i), 60)) }

/* ------------------------------------------------------------------ C19 */

fn c19(cx: &mut Cx, k: u64) {
  if k % 2 == 0 {
    c19_walk(cx, k)
  } else {
    c19_agree(cx, k)
  }
}

fn c19_walk(cx: &mut Cx, k: u64) {
  let big = !sanitized() && k % 5000 == 8;
  let c = if big { big_corpus(cx, k) } else { corpus(cx, k, 12, 1, false) };
  let ext = if big { None } else { extension(&mut cx.rng) };
  let mut want = selected(&c.files, &ext);
  let mut sc = llamapun::data::Corpus::new(c.dir.to_string_lossy().to_string());
  sc.extension = ext.clone();
  cx.doing = format!("iterating {} files, extension {ext:?}", c.files.len());
  let mut got: Vec<String> = sc.iter().map(|d| d.path.clone()).collect();
  got.sort();
  want.sort();
  cx.eval(&(&want, &ext, k), want.len() >= 2);
  cx.seen("documents iterated", got.len() as u64);
  cx.seen("files not to be visited", (c.files.len().saturating_sub(want.len())) as u64);
  let d = c.dir.to_string_lossy().to_string();
  cx.check(got == want, "visits", || format!("iterated {:?}, expected {:?}", got.iter().map(|x| x.replace(&d, "")).collect::<Vec<_>>(), want.iter().map(|x| x.replace(&d, "")).collect::<Vec<_>>()));
  let mut calls: Vec<String> = Vec::new();
  let mut pc = parallel_data::Corpus::new(d.clone());
  pc.extension = ext;
  let m = Mutex::new(&mut calls);
  pool(2).install(|| {
    pc.catalog_with_parallel_walk(|d| {
      m.lock().unwrap().push(d.path.clone());
      HashMap::new()
    })
  });
  calls.sort();
  cx.check(calls == got, "agree", || format!("the parallel walk visits {calls:?}, the iterator {got:?}"));
  for w in want.iter().take(2) {
    let a = sc.load_doc(w.clone()).map(|d| d.dom.get_root_readonly().map_or(0, |n| Snap::new(n).nodes.len())).ok();
    cx.check(a.is_some(), "load", || format!("{w} cannot be loaded"));
  }
}

type Spans = Vec<(usize, usize)>;
fn c19_agree(cx: &mut Cx, k: u64) {
  let (path, src, _guard) = write_doc(cx, k / 2, 3);
  let name = path.to_string_lossy().to_string();
  let par = PAR.with(|c| *c);
  let seq = SEQ.with(|c| *c);
  cx.doing = format!("both interfaces on {}", clip(&src, 1200));
  let mut pd = parallel_data::Document::new(name.clone(), par).expect("document");
  if pd.dom.get_root_readonly().is_none() {
    return;
  }
  let p_doc: Vec<((usize, usize), String, Spans)> = {
    let it: Vec<_> = pd.sentence_iter().map(|x| (x.range.start, x.range.end, x.range.get_plaintext().to_string())).collect();
    let dnm = pd.dnm.as_ref().unwrap();
    let chars: Vec<char> = dnm.plaintext.chars().collect();
    // the sentences of the whole document and the words in each of them
    it.into_iter().map(|(a, b, t)| ((a, b), t, words_in(&chars, a, b))).collect()
  };
  let mut senna_words = 0;
  let mut sd = llamapun::data::Document::new(name.clone(), seq).expect("document");
  seq.senna_options.set(senna::senna::SennaParseOptions { pos: cx.rng.chance(1, 2), psg: false });
  let mut n = 0;
  let mut bad: Vec<String> = Vec::new();
  for mut sent in sd.sentence_iter() {
    let span = (sent.range.start, sent.range.end);
    let text = sent.range.get_plaintext().to_string();
    let senna = k % 4 == 1;
    let w: Spans = if senna {
      let pos_on = seq.senna_options.get().pos;
      sent
        .senna_iter()
        .map(|w| {
          // what the parser reported is in the analysed sentence itself
          senna_words += 1;
          if pos_on != (w.pos != senna::pos::POS::NOT_SET) {
            bad.push(format!("part of speech {:?}", w.pos));
          }
          (w.range.start, w.range.end)
        })
        .collect()
    } else {
      sent.simple_iter().map(|w| (w.range.start, w.range.end)).collect()
    };
    if let Some(p) = p_doc.get(n) {
      let want_words: Spans = if senna {
        // the stand-in parser reports alphanumeric runs and single punctuation characters
        let chars: Vec<char> = text.chars().collect();
        let mut v: Spans = Vec::new();
        let mut i = 0;
        while i < chars.len() {
          let st = i;
          if chars[i].is_alphanumeric() {
            while i < chars.len() && chars[i].is_alphanumeric() {
              i += 1;
            }
          } else {
            i += 1;
            if chars[st].is_whitespace() {
              continue;
            }
          }
          v.push((span.0 + st, span.0 + i));
        }
        v
      } else {
        p.2.clone()
      };
      if p.0 != span || p.1 != text {
        bad.push(format!("sentence {n} is {span:?} {:?}, in parallel {:?} {:?}", clip(&text, 100), p.0, clip(&p.1, 100)));
      } else if w != want_words {
        bad.push(format!("words (parser: {senna}) of sentence {n} {:?} are {:?}, expected {:?}", clip(&text, 200), &w[..w.len().min(12)], &want_words[..want_words.len().min(12)]));
      }
    }
    n += 1;
  }
  cx.check(n == p_doc.len(), "sentences", || format!("{n} sentences, in parallel {}\n{}", p_doc.len(), clip(&src, 1000)));
  // paragraphs, their sentences and words; formulas and references
  type P = (String, Vec<((usize, usize), Spans)>);
  let mut sd = llamapun::data::Document::new(name.clone(), seq).expect("document");
  let describe = |v: Vec<RoNode>| v.iter().map(|n| (n.get_name(), n.get_content())).collect::<Vec<_>>();
  let (sm, sr) = (describe(sd.get_math_nodes()), describe(sd.get_ref_nodes()));
  let mut sp: Vec<P> = Vec::new();
  for mut p in sd.paragraph_iter() {
    let t = p.dnm.plaintext.clone();
    let mut v = Vec::new();
    for mut s in p.iter() {
      let span = (s.range.start, s.range.end);
      v.push((span, s.simple_iter().map(|w| (w.range.start, w.range.end)).collect()));
    }
    sp.push((t, v));
  }
  let pd = parallel_data::Document::new(name, par).expect("document");
  let (pm, pr) = (describe(pd.get_math_nodes()), describe(pd.get_ref_nodes()));
  let mut pp: Vec<P> = Vec::new();
  for mut p in pd.paragraph_iter() {
    let t = p.dnm.plaintext.clone();
    let mut v = Vec::new();
    for mut s in p.iter() {
      let span = (s.range.start, s.range.end);
      v.push((span, s.word_iter().map(|w| (w.range.start, w.range.end)).collect::<Spans>()));
    }
    pp.push((t, v));
  }
  // each view of a paragraph or sentence borrows it for good, so ask for each afresh
  for (j, mut p) in pd.paragraph_iter().enumerate() {
    let chars: Vec<char> = pp[j].0.chars().collect();
    for mut s in p.iter() {
      let span = (s.range.start, s.range.end);
      let toks: Spans = s.word_and_punct_iter().map(|w| (w.range.start, w.range.end)).collect();
      if toks != tokens_in(&chars, span.0, span.1).0 {
        bad.push(format!("tokens of the sentence at {span:?} of {:?}", clip(&pp[j].0, 300)));
      }
    }
  }
  for (j, mut p) in pd.paragraph_iter().enumerate() {
    let chars: Vec<char> = pp[j].0.chars().collect();
    let got: Spans = p.word_iter().map(|w| (w.range.start, w.range.end)).collect();
    if got != words_in(&chars, 0, chars.len()) {
      bad.push(format!("words of the paragraph {:?}", clip(&pp[j].0, 300)));
    }
  }
  for (j, mut p) in pd.paragraph_iter().enumerate() {
    let chars: Vec<char> = pp[j].0.chars().collect();
    let got: Spans = p.word_and_punct_iter().map(|w| (w.range.start, w.range.end)).collect();
    if got != tokens_in(&chars, 0, chars.len()).0 {
      bad.push(format!("tokens of the paragraph {:?}", clip(&pp[j].0, 300)));
    }
  }
  cx.eval(src.as_str(), n >= 2);
  cx.seen("sentences compared", n as u64);
  cx.seen("parser words", senna_words);
  cx.seen("paragraphs compared", pp.len() as u64);
  cx.sample(|| clip(&src, 300));
  cx.check(sm == pm, "formulas", || format!("{} formulas, in parallel {}", sm.len(), pm.len()));
  cx.check(sr == pr, "references", || format!("{} references, in parallel {}", sr.len(), pr.len()));
  cx.check(sp == pp, "paragraphs", || {
    let j = sp.iter().zip(&pp).take_while(|(a, b)| a == b).count();
    format!("paragraph {j} is {:?}, in parallel {:?}", sp.get(j).map(|x| clip(&format!("{x:?}"), 400)), pp.get(j).map(|x| clip(&format!("{x:?}"), 400)))
  });
  let none = bad.is_empty();
  cx.check(none, "words", || format!("{}\n{}", bad[..bad.len().min(3)].join("\n"), clip(&src, 800)));
}

/* ------------------------------------------------------------------ C27 */

#[derive(Default)]
pub struct Model {
  pub lines: Vec<Vec<String>>,
  pub counts: BTreeMap<String, u64>,
}
pub fn model_of(path: &str, discard_math: bool) -> Model {
  let parser = if path.ends_with(".xhtml") { Parser::default() } else { Parser::default_html() };
  let d = parser.parse_file(path).expect("parseable");
  let mut m = Model::default();
  for c in ["document_count", "paragraph_count", "word_count", "overflow_count", "formula_count", "citation_count", "num_count"] {
    m.counts.insert(c.into(), 0);
  }
  *m.counts.get_mut("document_count").unwrap() = 1;
  let Some(root) = d.get_root_readonly() else { return m };
  let s = Snap::new(root);
  for i in ref_extended(&s) {
    *m.counts.get_mut("paragraph_count").unwrap() += 1;
    let dnm = DNM::new(s.nodes[i].ro, DNMParameters::llamapun_normalization());
    let chars: Vec<char> = dnm.plaintext.chars().collect();
    let mut line = Vec::new();
    let mut ok = true;
    for (a, b) in tokens_in(&chars, 0, chars.len()).0 {
      let w = chars[a..b].iter().collect::<String>().to_lowercase();
      let mut add = |c: &str| *m.counts.get_mut(c).unwrap() += 1;
      if w.len() > 25 {
        add("overflow_count");
        ok = false;
        break;
      }
      if w.contains("mathformula") {
        add("formula_count");
        if !discard_math {
          let lex = gen::lexemes_below(&s, s.idx(dnm.back_map[a].0).unwrap());
          line.extend(lex.split(' ').map(str::to_string));
        }
      } else if w.contains("citationelement") {
        add("citation_count");
        line.push("citationelement".into());
      } else if numeric(&w) {
        add("num_count");
        line.push("NUM".into());
      } else {
        add("word_count");
        line.push(w);
      }
    }
    if ok {
      m.lines.push(line);
    }
  }
  m
}

fn c27(cx: &mut Cx, k: u64) {
  let big = !sanitized() && k % 4000 == 9;
  let heavy = !sanitized() && k % 300 == 13;
  let c = if big {
    big_corpus(cx, k)
  } else if heavy {
    heavy_corpus(cx, k)
  } else {
    corpus(cx, k, 8, if k % 200 == 11 { 60 } else { 3 }, false)
  };
  cx.seen("corpora of long documents", heavy as u64);
  let out = cx.scratch.join(format!("model-{}-{k}.txt", std::process::id()));
  let _guard = RemoveFile(out.clone());
  let discard = cx.rng.chance(1, 3);
  let threads = if heavy { 8 } else { cx.rng.range(1, 8) };
  jwalk::set_order_seed(cx.rng.next());
  if cx.rng.chance(1, 4) {
    // leftovers of an earlier model do not survive
    std::fs::write(&out, "leftover ".repeat(20_000)).unwrap();
  }
  cx.doing = format!("token model of {} files with {threads} threads, discard math {discard}", c.files.len());
  let counts = pool(threads).install(|| token_model::extract(c.dir.to_string_lossy().to_string(), out.to_string_lossy().to_string(), discard).map_err(|e| e.to_string()));
  let counts = match counts {
    Ok(c) => c,
    Err(e) => {
      cx.fail("error", format!("extraction failed: {e}"));
      return;
    },
  };
  let text = std::fs::read_to_string(&out).unwrap_or_default();
  let docs: Vec<(String, Model)> = selected(&c.files, &None).into_iter().map(|p| (p.clone(), model_of(&p, discard))).collect();
  let mut sum: BTreeMap<String, u64> = BTreeMap::new();
  for (_, m) in &docs {
    for (k, v) in &m.counts {
      *sum.entry(k.clone()).or_insert(0) += v;
    }
  }
  let got: BTreeMap<String, u64> = counts.into_iter().collect();
  let lines: Vec<Vec<String>> = text.split('\n').skip(1).map(|l| l.split(' ').filter(|t| !t.is_empty()).map(str::to_string).collect()).collect();
  // which document does each block of lines belong to?
  let blocks: Vec<&(String, Model)> = docs.iter().filter(|d| !d.1.lines.is_empty()).collect();
  let n_lines: usize = blocks.iter().map(|d| d.1.lines.len()).sum();
  cx.eval(&(hash_of(&text), threads), n_lines >= 2 && blocks.len() >= 2);
  cx.seen("documents", docs.len() as u64);
  cx.seen("paragraph lines", n_lines as u64);
  cx.seen("overlong paragraphs", sum.get("overflow_count").copied().unwrap_or(0));
  cx.seen("formulas", sum.get("formula_count").copied().unwrap_or(0));
  cx.sample(|| format!("{threads} threads, counts {got:?}, text {:?}", clip(&text, 200)));
  cx.check(got == sum, "counts", || format!("counts {got:?}, expected {sum:?} ({threads} threads, discard math {discard})"));
  cx.check(text.is_empty() || text.starts_with('\n'), "shape", || format!("the model starts with {:?}", clip(&text, 60)));
  if !cx.check(lines.len() == n_lines, "lines", || format!("{} lines, expected {n_lines}: {:?}", lines.len(), clip(&text, 800))) {
    return;
  }
  let mut left: Vec<&(String, Model)> = blocks;
  let mut i = 0;
  while i < lines.len() {
    // equal documents are interchangeable, prefixes are not: take the longest fitting block
    let fit = left.iter().enumerate().filter(|(_, d)| lines[i..].starts_with(&d.1.lines)).max_by_key(|(_, d)| d.1.lines.len()).map(|x| x.0);
    match fit {
      Some(j) => {
        i += left[j].1.lines.len();
        left.remove(j);
      },
      None => {
        cx.fail("content", format!("line {i} {:?} starts no remaining document; expected one of {:?} ({threads} threads, discard math {discard})", clip(&lines[i].join(" "), 300), left.iter().take(4).map(|d| clip(&d.1.lines[0].join(" "), 200)).collect::<Vec<_>>()));
        return;
      },
    }
  }
}

/* ------------------------------------------------------------------ C28 */

fn lines_of(path: &str, tok: &Tokenizer) -> String {
  let parser = if path.ends_with(".xhtml") { Parser::default() } else { Parser::default_html() };
  let Ok(d) = parser.parse_file(path) else { return String::new() };
  let Some(root) = d.get_root_readonly() else { return String::new() };
  let s = Snap::new(root);
  let mut out = String::new();
  'paras: for i in ref_paragraphs(&s) {
    let dnm = DNM::new(s.nodes[i].ro, DNMParameters::llamapun_normalization());
    let chars: Vec<char> = dnm.plaintext.chars().collect();
    let mut buf = String::new();
    for sent in tok.sentences(&dnm) {
      let ws = words_in(&chars, sent.start, sent.end);
      for (a, b) in &ws {
        let t: String = chars[*a..*b].iter().collect();
        let lex = gen::lexemes_below(&s, s.idx(dnm.back_map[*a].0).unwrap());
        match super::ams::classify(&t, &lex, false, false, false) {
          Some(w) => {
            buf.push_str(&w);
            buf.push(' ');
          },
          None => continue 'paras,
        }
      }
      if !ws.is_empty() {
        buf.push('\n');
      }
    }
    out.push_str(&buf);
  }
  out
}

fn c28(cx: &mut Cx, k: u64) {
  use std::ffi::{CStr, CString};
  use std::os::unix::ffi::OsStrExt;
  let call = |bytes: &[u8]| -> Vec<u8> {
    let c = CString::new(bytes).unwrap();
    unsafe {
      let p = llamapun::extern_use::word_tokenize_for_vec2doc(c.as_ptr());
      let v = CStr::from_ptr(p).to_bytes().to_vec();
      // the caller owns the string
      drop(CString::from_raw(p));
      v
    }
  };
  let special = k % 12;
  if special < 5 {
    let p = cx.scratch.join(format!("bad-{}-{k}{}", std::process::id(), cx.rng.pick(&[".html", ".xhtml", ""])));
    let _guard = RemoveFile(p.clone());
    let mut path = p.as_os_str().as_bytes().to_vec();
    match special {
      0 => {},                                         // no such file
      1 => std::fs::write(&p, b"").unwrap(),           // empty file
      2 => std::fs::write(&p, b"\x00<<<").unwrap(),    // garbage
      3 => path = cx.scratch.as_os_str().as_bytes().to_vec(), // a directory
      _ => path.push(0xff),                            // not UTF-8
    }
    cx.doing = format!("C interface on a bad path ({special})");
    let got = call(&path);
    let want = if special == 2 { TOK.with(|t| lines_of(&p.to_string_lossy(), t)).into_bytes() } else { vec![] };
    cx.eval(&("bad", special), false);
    cx.seen("bad paths", 1);
    cx.check(got == want, "bad-path", || format!("bad path {special}: {:?}", String::from_utf8_lossy(&got)));
    return;
  }
  let (path, src, _guard) = write_doc(cx, k / 12 * 7 + special - 5, 3);
  let name = path.to_string_lossy().to_string();
  cx.doing = format!("words of {}", clip(&src, 1000));
  let want = TOK.with(|t| lines_of(&name, t));
  let got = llamapun::util::path_helpers::path_to_words(name.clone());
  let n = want.lines().count();
  cx.eval(src.as_str(), n >= 2);
  cx.seen("lines", n as u64);
  cx.sample(|| clip(&want, 300));
  let diff = |a: &str, b: &str| {
    let j = a.lines().zip(b.lines()).take_while(|(x, y)| x == y).count();
    let words = |s: &str| s.lines().nth(j).map(|l| l.split(' ').map(str::to_string).collect::<Vec<_>>());
    let (x, y) = (words(a), words(b));
    let w = x.iter().flatten().zip(y.iter().flatten()).take_while(|(x, y)| x == y).count();
    let part = |v: Option<Vec<String>>| v.map(|v| clip(&v[w.saturating_sub(3).min(v.len())..].join(" "), 300));
    format!("line {j} from word {} is {:?}, expected {:?}", w.saturating_sub(3), part(x), part(y))
  };
  cx.check(got == want, "path-to-words", || format!("{}\n{}", diff(&got, &want), clip(&src, 1500)));
  let c = call(name.as_bytes());
  cx.seen("C strings", 1);
  cx.check(c == want.as_bytes(), "c-interface", || format!("C interface: {}", diff(&String::from_utf8_lossy(&c), &want)));
}
thread_local! {
  static TOK: Tokenizer = Tokenizer::default();
}
