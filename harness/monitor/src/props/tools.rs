//! C37: the corpus tools (/repo/examples), run as processes over generated corpora.
use super::ams::classify;
use super::corpus::{big_corpus, corpus, model_of, ref_extended, ref_headings, ref_paragraphs, ref_refs, selected, Corpus, Model};
use super::tok::{tokens_in, words_in};
use super::{Spec, BASE};
use crate::cx::{clip, hash_of, Cx, Rng};
use crate::gen::{self, Kind, Snap};
use libxml::parser::Parser;
use libxml::tree::{Document, NodeType};
use llamapun::ams::{class_to_env, has_markup_xmldoc, AmsEnv, StructuralEnv};
use llamapun::dnm::{DNMParameters, SpecialTagsOption, DNM};
use llamapun::tokenizer::Tokenizer;
use llamapun::util::data_helpers::normalize_heading_title;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn specs() -> Vec<Spec> {
  vec![Spec {
    id: "C37",
    run: c37,
    rule: "distinct (tool, corpus, threads) whose report has at least two entries from at least two documents (or lines)",
    quick: 6_000,
    stall_s: 600,
    ..BASE
  }]
}

/// a directory for one run, removed afterwards
struct Dir(PathBuf);
impl Drop for Dir {
  fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

struct Out {
  stdout: String,
  stderr: String,
}

/// Run a tool to its end. None: it failed, and that has been reported.
fn run(cx: &mut Cx, tool: &str, args: &[String], cwd: &Path, threads: usize, lang: u64) -> Option<Out> {
  match try_run(cx, tool, args, cwd, threads, lang)? {
    Ok(o) => Some(o),
    Err((key, what)) => {
      let doing = cx.doing.clone();
      cx.fail(key, format!("{what}\n{doing}"));
      None
    },
  }
}
/// None: there is nothing to run, and that has been noted.
fn try_run(cx: &mut Cx, tool: &str, args: &[String], cwd: &Path, threads: usize, lang: u64) -> Option<Result<Out, (&'static str, String)>> {
  let exe = match std::env::var("LLAMAPUN_TOOLS") {
    Ok(d) => Path::new(&d).join(tool),
    Err(_) => {
      cx.inconclusive.push("LLAMAPUN_TOOLS does not name the directory of the tools".into());
      return None;
    },
  };
  let order = cx.rng.next() % 1_000_000;
  for attempt in 0..2 {
    let (so, se) = (cwd.join(".stdout"), cwd.join(".stderr"));
    let file = |p: &Path| Stdio::from(std::fs::File::create(p).expect("output file"));
    let mut cmd = Command::new(&exe);
    cmd.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(file(&so)).stderr(file(&se));
    cmd.env("RAYON_NUM_THREADS", threads.to_string()).env("RUST_BACKTRACE", "0");
    cmd.env("JWALK_STANDIN_SEED", (order + 1).to_string()).env("WHATLANG_STANDIN_SEED", lang.to_string());
    cmd.env("PATH", format!("{}:/usr/bin:/bin", cwd.join("bin").display()));
    unsafe {
      cmd.pre_exec(|| {
        let cpu = libc::rlimit { rlim_cur: 60, rlim_max: 61 };
        libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        Ok(())
      });
    }
    let mut child = cmd.spawn().expect("tool");
    let t0 = Instant::now();
    let status = loop {
      match child.try_wait().expect("wait") {
        Some(s) => break Some(s),
        None if t0.elapsed() > Duration::from_secs(150) => {
          let _ = child.kill();
          let _ = child.wait();
          break None;
        },
        None => std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 50 { 300 } else { 5_000 })),
      }
    };
    let text = |p: &Path| {
      let mut v = Vec::new();
      let _ = std::fs::File::open(p).and_then(|mut f| f.read_to_end(&mut v));
      String::from_utf8_lossy(&v).to_string()
    };
    let out = Out { stdout: text(&so), stderr: text(&se) };
    match status {
      Some(s) if s.success() => {
        cx.seen("tool runs", 1);
        return Some(Ok(out));
      },
      Some(s) => {
        return Some(Err(("tool-failed", format!("{tool} ended with {} after {:?}", s.signal().map_or(format!("exit status {:?}", s.code()), |s| format!("signal {s}")), clip(&out.stderr, 600)))));
      },
      None if attempt == 1 => return Some(Err(("tool-hangs", format!("{tool} did not end within 150 s, twice")))),
      None => {},
    }
  }
  None
}

fn parse(path: &str) -> Option<Document> {
  let parser = if path.ends_with(".xhtml") { Parser::default() } else { Parser::default_html() };
  parser.parse_file(path).ok()
}

/// the records of a CSV file
fn csv(text: &str) -> Vec<Vec<String>> {
  let mut rows = Vec::new();
  let mut row = Vec::new();
  let mut f = String::new();
  let mut quoted = false;
  let mut it = text.chars().peekable();
  while let Some(c) = it.next() {
    match c {
      '"' if quoted && it.peek() == Some(&'"') => {
        it.next();
        f.push('"');
      },
      '"' => quoted = !quoted,
      ',' if !quoted => row.push(std::mem::take(&mut f)),
      '\n' if !quoted => {
        row.push(std::mem::take(&mut f));
        rows.push(std::mem::take(&mut row));
      },
      c => f.push(c),
    }
  }
  if !f.is_empty() || !row.is_empty() {
    row.push(f);
    rows.push(row);
  }
  rows
}

type Counts = BTreeMap<String, u64>;

/// A table of counts, most frequent first.
fn check_table(cx: &mut Cx, what: &str, rows: &[(String, String)], want: &Counts) {
  let mut got = Counts::new();
  let mut last = u64::MAX;
  for (k, v) in rows {
    let Ok(n) = v.parse::<u64>() else {
      cx.fail("count", format!("{what}: {k:?} has the count {v:?}"));
      return;
    };
    cx.check(n <= last, "order", || format!("{what}: {k:?} with {n} comes after {last}"));
    last = n;
    if got.insert(k.clone(), n).is_some() {
      cx.fail("duplicate", format!("{what}: {k:?} is reported twice"));
    }
  }
  let doing = cx.doing.clone();
  cx.check(got == *want, "counts", || {
    let diff: Vec<String> = want.keys().chain(got.keys()).filter(|k| want.get(*k) != got.get(*k)).take(5).map(|k| format!("{k:?}: {:?} instead of {:?}", got.get(k), want.get(k))).collect();
    format!("{what}: {}\n{doing}", diff.join("; "))
  });
}

fn check_csv(cx: &mut Cx, what: &str, text: &str, head: [&str; 2], want: &Counts) {
  let mut rows = csv(text);
  // (a table of serialized records has no header without records)
  if rows.is_empty() && want.is_empty() {
    return;
  }
  let first = if rows.is_empty() { vec![] } else { rows.remove(0) };
  cx.check(first == head, "header", || format!("{what}: the header is {first:?}"));
  if !cx.check(rows.iter().all(|r| r.len() == 2), "fields", || format!("{what}: a row has not two fields: {:?}", rows.iter().find(|r| r.len() != 2))) {
    return;
  }
  let rows: Vec<(String, String)> = rows.into_iter().map(|mut r| (std::mem::take(&mut r[0]), std::mem::take(&mut r[1]))).collect();
  check_table(cx, what, &rows, want);
}

/// The file is the concatenation of the parts, one per document, in some order.
fn check_parts(cx: &mut Cx, what: &str, mut rest: &str, parts: &[(String, String)]) {
  let whole = rest;
  let mut left: Vec<&(String, String)> = parts.iter().filter(|p| !p.1.is_empty()).collect();
  while !rest.is_empty() {
    // equal parts are interchangeable, prefixes are not: take the longest that fits
    let fit = left.iter().enumerate().filter(|(_, p)| rest.starts_with(p.1.as_str())).max_by_key(|(_, p)| p.1.len()).map(|x| x.0);
    let Some(j) = fit else {
      let at = whole.len() - rest.len();
      let doing = cx.doing.clone();
      let near = left.iter().max_by_key(|p| p.1.bytes().zip(rest.bytes()).take_while(|(a, b)| a == b).count());
      let n = near.map_or(0, |p| p.1.bytes().zip(rest.bytes()).take_while(|(a, b)| a == b).count());
      let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[n.saturating_sub(40).min(s.len())..]).chars().take(200).collect::<String>();
      cx.fail("content", format!("{what}: what starts at byte {at} is no remaining document; {n} bytes on it reads {:?}, the nearest one {:?}\n{doing}", cut(rest), near.map(|p| cut(&p.1))));
      return;
    };
    rest = &rest[left[j].1.len()..];
    left.remove(j);
  }
  let doing = cx.doing.clone();
  cx.check(left.is_empty(), "missing", || format!("{what}: the documents {:?} are missing\n{doing}", left.iter().map(|p| &p.0).collect::<Vec<_>>()));
}

/* ------------------------------------------------------------------ corpora */

fn words(r: &mut Rng, n: usize, out: &mut String) {
  for i in 0..n {
    if i > 0 {
      out.push(' ');
    }
    out.push_str(r.pick(&["we", "Lemma", "holds", "graph", "12", "3.5", "x", "Energy", "für", "it's", "well-known", "naïve", "the"]));
  }
}

/// A document of labelled paragraphs: some lengths at the limits, few different texts.
fn statements(r: &mut Rng, heavy: bool) -> String {
  let xml = r.chance(1, 3);
  let mut s = String::new();
  if xml {
    s.push_str("<?xml version=\"1.0\"?>\n<!DOCTYPE html [<!ENTITY nb \"\u{a0}\"><!ENTITY b \"bold text\"><!ENTITY a \"x &b; y\"><!ENTITY el \"<mi>k</mi>\">]>\n<html xmlns=\"http://www.w3.org/1999/xhtml\"><body>");
  } else {
    s.push_str("<html><body>");
  }
  let titles = [
    "Introduction", "1 Introduction", "Proof of Theorem 2", "Acknowledgements", "Some words", "Related work", "Future Work", "Definition 3", "IV Methods", "Lemma", "A remark",
    "Conclusions", "", "Introduction <math/>", "Discussion and outlook", "Results", "abcdefghijklmnopqrstuvwxyzabc Introduction", "Bounds", "Caption", "1.2", "RESULTS", "Examples",
  ];
  for _ in 0..r.range(0, 8) {
    match r.below(10) {
      0 => {
        s.push_str(&format!("<figure><figcaption class=\"{}\">", r.pick(&["ltx_caption", "ltx_caption x", "ltx_acknowledgement ltx_caption"])));
        let n = r.range(0, 9);
        words(r, n, &mut s);
        s.push_str("</figcaption></figure>");
      },
      1 => {
        s.push_str(&format!("<div class=\"{}\">", r.pick(&["ltx_acknowledgement", "x ltx_acknowledgement", "ltx_acknowledgement ltx_para"])));
        let n = r.range(0, 9);
        words(r, n, &mut s);
        s.push_str("</div>");
      },
      _ => {
        let class = *r.pick(&["ltx_section", "ltx_section", "ltx_theorem ltx_theorem_lemma", "ltx_theorem", "ltx_proof", "ltx_theorem ltx_theorem_defn", "ltx_theorem ltx_theorem_note", "ltx_theorem ltx_theorem_nosuch", "ltx_theorem ltx_theorem_rem", "ltx_theorem ltx_theorem_prop", "ltx_proof ltx_x"]);
        s.push_str(&format!("<div class=\"{class}\">"));
        for _ in 0..r.range(0, 2) {
          match r.below(8) {
            0 => {},
            1 => s.push_str("<p>between</p>"),
            2 => s.push_str("<hr/>"),
            _ => {
              let l = r.range(1, 6);
              s.push_str(&format!("<h{l} class=\"ltx_title\">{}</h{l}>", r.pick(&titles)));
            },
          }
          s.push_str(r.pick(&["", "\n", "<!-- c -->", "text"]));
          for _ in 0..r.range(0, 2) {
            s.push_str("<div class=\"ltx_para\"><p class=\"ltx_p\">");
            let n = if heavy && r.chance(1, 6) { *r.pick(&[1020, 1022, 1023, 1024, 1025, 1026, 1030, 2100]) } else { r.range(0, 9) };
            if r.chance(1, 3) {
              s.push_str(r.pick(&["the graph holds well ", "the graph holds well, in the end. ", "a b c d "]));
            } else {
              words(r, n, &mut s);
            }
            for _ in 0..r.below(3) {
              match r.below(9) {
                0 | 1 => s.push_str(&gen::annotated_math(r)),
                2 => s.push_str(" <cite>7</cite>"),
                3 => s.push_str(&format!("{}<a class=\"ltx_ref\" href=\"#x\">2</a>", r.pick(&[" Section ", "Eq.", " see\u{a0}", " (", "ΣΑΣ ", "Straße\n", "日本", " ", "x-y "]))),
                4 => s.push_str(" abcdefghijklmnopqrstuvwxyzabcdef "),
                5 if xml => s.push_str(r.pick(&["&b;", "&a;", " &nb; ", "&el;", "<math><mi>&b;</mi><mo>&a;</mo>&el;</math>", "<span class=\"c\">&a;</span>"])),
                6 => s.push_str("<span class=\"b a  a\" id=\"q\" title=\"t\">s</span>"),
                7 if xml => s.push_str("<![CDATA[c < d]]>"),
                _ => s.push_str(r.pick(&[".", ", ", " — ", "; and ", "\n"])),
              }
            }
            s.push_str("</p></div>");
          }
        }
        s.push_str("</div>\n");
      },
    }
  }
  s.push_str("</body></html>");
  s
}

/// formulas with attributes of every kind
fn formulas(r: &mut Rng) -> String {
  fn node(r: &mut Rng, depth: usize, out: &mut String) {
    let name = *r.pick(&["mi", "mo", "mn", "mrow", "mrow", "msup", "mfrac", "semantics", "math", "mtext", "annotation-xml", "annotation"]);
    out.push_str(&format!("<{name}"));
    let mut used = BTreeSet::new();
    for _ in 0..r.below(4) {
      let a = *r.pick(&["id", "xref", "alttext", "href", "altimg", "mathvariant", "width", "stretchy", "class", "encoding", "style", "altimg-width", "ID"]);
      if used.insert(a.to_lowercase()) {
        let v = if a == "encoding" { *r.pick(&["MathML-Content", "MathML-Content", "application/x-tex", "mathml-content", "MathML-Content "]) } else { *r.pick(&["a", "italic", "true", "12px", "a b", " b  a a ", "", "x,y", "&quot;q&quot;", "é", "a&#9;b&#10;c", "1.5em"]) };
        out.push_str(&format!(" {a}=\"{v}\""));
      }
    }
    out.push('>');
    for _ in 0..r.below(4) {
      match r.below(6) {
        0 | 1 if depth > 0 => node(r, depth - 1, out),
        2 => out.push_str("<!-- c -->"),
        _ => out.push_str(r.pick(&["x", "1", " ", "α"])),
      }
    }
    out.push_str(&format!("</{name}>"));
  }
  let mut s = String::from("<html><body><p>");
  for _ in 0..r.range(0, 5) {
    s.push_str("<math>");
    for _ in 0..r.below(4) {
      node(r, 3, &mut s);
    }
    s.push_str("</math> and ");
    if r.chance(1, 5) {
      node(r, 1, &mut s);
    }
  }
  s.push_str("</p></body></html>");
  s
}

fn corpus_for(cx: &mut Cx, k: u64, kind: usize) -> Corpus {
  if k % 900 == 13 {
    return big_corpus(cx, k);
  }
  let heavy = cx.rng.chance(1, 12);
  let mut c = corpus(cx, k, 6, if heavy { 12 } else { 3 }, true);
  for i in 0..cx.rng.below(5) {
    let r = &mut cx.rng;
    let doc = match kind {
      0 => statements(r, heavy),
      1 => formulas(r),
      _ => {
        if r.chance(1, 2) {
          statements(r, heavy)
        } else {
          formulas(r)
        }
      },
    };
    let d = if i % 2 == 0 { c.dir.clone() } else { c.dir.join("more") };
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("s{i}.{}", if doc.starts_with("<?xml") { "xhtml" } else { *r.pick(&["html", "xhtml"]) }));
    std::fs::write(&p, doc).expect("document");
    c.files.push(p);
    if r.chance(1, 8) {
      // the same document once more
      let q = d.join(format!("t{i}.{}", c.files.last().unwrap().extension().unwrap().to_string_lossy()));
      std::fs::copy(c.files.last().unwrap(), &q).expect("document");
      c.files.push(q);
    }
  }
  c
}

/* ------------------------------------------------------------------ the tools */

fn c37(cx: &mut Cx, k: u64) {
  let dir = Dir(cx.scratch.join(format!("tool-{}-{k}", std::process::id())));
  std::fs::create_dir_all(&dir.0).expect("directory");
  let d = dir.0.clone();
  match k % 12 {
    _ if k == 0 || k == 2 => entity_reference(cx, k == 0, &d),
    0 | 1 => node_model(cx, k, &d),
    2 | 3 => mathml_stats(cx, k, &d),
    4 => math_count(cx, k, &d),
    5 => pre_ref(cx, k, &d),
    6 => headings(cx, k, &d),
    7 | 8 => paragraphs(cx, k, &d),
    9 => citations(cx, k, &d),
    10 => {
      if k % 24 < 12 {
        tokenization(cx, &d)
      } else {
        pos_tags(cx, &d)
      }
    },
    _ => tokens(cx, k, &d),
  }
}

struct Setting {
  c: Corpus,
  /// paths of the documents to be processed
  docs: Vec<String>,
  threads: usize,
  lang: u64,
  arg: String,
}
fn setting(cx: &mut Cx, k: u64, tool: &str, kind: usize, ext: &Option<String>, cwd: &Path) -> Setting {
  let c = corpus_for(cx, k, kind);
  if ["corpus_node_model", "corpus_mathml_stats"].contains(&tool) {
    without_entities(&c);
  }
  let docs = selected(&c.files, ext);
  let threads = cx.rng.range(1, 8);
  let lang = cx.rng.next() % 1_000_000;
  let full = c.dir.to_string_lossy().to_string();
  // the same directory in other words
  let arg = match cx.rng.below(4) {
    0 => format!("{full}/"),
    1 => {
      let up = cwd.components().filter(|c| matches!(c, std::path::Component::Normal(_))).count();
      format!("{}{}", "../".repeat(up), full.trim_start_matches('/'))
    },
    _ => full,
  };
  cx.doing = format!("{tool} on {} documents among {} files, {threads} threads: {}", docs.len(), c.files.len(), docs.iter().take(6).map(|d| clip(&String::from_utf8_lossy(&std::fs::read(d).unwrap_or_default()), 900)).collect::<Vec<_>>().join("\n---\n"));
  Setting { c, docs, threads, lang, arg }
}
/// each document is announced once
fn check_announced(cx: &mut Cx, s: &Setting, stdout: &str) {
  let mut got: Vec<String> = stdout.lines().filter_map(|l| l.split_once("doc: \"")).map(|x| x.1.trim_end_matches('"').replace(&s.arg, "").trim_start_matches('/').to_string()).collect();
  let base = format!("{}/", s.c.dir.display());
  let mut want: Vec<String> = s
    .docs
    .iter()
    .map(|d| {
      let shown = format!("{:?}", d.trim_start_matches(&base));
      shown[1..shown.len() - 1].to_string()
    })
    .collect();
  got.sort();
  want.sort();
  cx.check(got == want, "documents", || format!("processed {got:?}, expected {want:?}"));
}
fn read(p: &Path) -> String { String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string() }
fn seed_file(cx: &mut Cx, p: &Path) {
  if cx.rng.chance(1, 5) {
    std::fs::write(p, "leftover\n".repeat(30_000)).expect("leftover");
  }
}

/// Known findings: the node model and the MathML statistics take the declaration of an entity for
/// an element below its reference.
fn entity_reference(cx: &mut Cx, model: bool, d: &Path) {
  let doc = "<?xml version=\"1.0\"?><!DOCTYPE html [<!ENTITY e \"x\">]><html><body><p>&e;<math><mi>&e;</mi></math></p></body></html>";
  std::fs::create_dir_all(d.join("c")).expect("directory");
  std::fs::write(d.join("c/a.xhtml"), doc).expect("document");
  let (tool, key) = if model { ("corpus_node_model", "node-model-entity") } else { ("corpus_mathml_stats", "mathml-entity") };
  let mut args = vec![d.join("c").to_string_lossy().to_string(), "out".into()];
  if model {
    args.push("stats".into());
  }
  cx.doing = format!("{tool} on {doc}");
  let Some(o) = try_run(cx, tool, &args, d, 1, 1) else { return };
  let (got, want) = match o {
    Err(e) => (e.1, ""),
    Ok(_) => (read(&d.join("out")), if model { "html body p math " } else { "name@attr[value],frequency\n" }),
  };
  let ok = if model { got == want } else { got.starts_with(want) && got.lines().skip(1).collect::<BTreeSet<_>>() == BTreeSet::from(["math,1", "mi,1"]) };
  cx.check(ok, key, || format!("{tool} reports {got:?} on {doc}"));
}
/// Take the entity references out of the documents: what the two tools make of them is a known
/// finding, and judged on the document above.
fn without_entities(c: &Corpus) {
  for f in &c.files {
    let path = f.to_string_lossy();
    let Some(doc) = parse(&path) else { continue };
    let Some(root) = doc.get_root_readonly() else { continue };
    let mut todo = vec![root];
    let mut any = false;
    while let Some(n) = todo.pop() {
      any |= n.get_type() == Some(NodeType::EntityRefNode);
      if n.is_element_node() {
        todo.extend(n.get_child_nodes());
      }
    }
    if any {
      let text = read(f);
      let mut out = String::new();
      let mut rest = text.as_str();
      while let Some(at) = rest.find('&') {
        out.push_str(&rest[..at]);
        rest = &rest[at..];
        match rest.find(';') {
          Some(e) if rest[1..e].bytes().all(|b| b.is_ascii_alphanumeric()) && !["amp", "lt", "gt", "quot", "apos"].contains(&&rest[1..e]) => rest = &rest[e + 1..],
          _ => {
            out.push('&');
            rest = &rest[1..];
          },
        }
      }
      out.push_str(rest);
      std::fs::write(f, out).expect("document");
    }
  }
}

fn node_model(cx: &mut Cx, k: u64, d: &Path) {
  let s = setting(cx, k, "corpus_node_model", 2, &None, d);
  let (model, stats) = (d.join("model"), d.join("stats"));
  seed_file(cx, &model);
  seed_file(cx, &stats);
  let Some(_) = run(cx, "corpus_node_model", &[s.arg.clone(), "model".into(), "stats".into()], d, s.threads, s.lang) else { return };
  let mut parts = Vec::new();
  let mut counts = Counts::new();
  for p in &s.docs {
    let Some(doc) = parse(p) else { continue };
    let mut text = String::new();
    if let Some(root) = doc.get_root_readonly() {
      let snap = Snap::new(root);
      let mut i = 0;
      while i < snap.nodes.len() {
        let n = &snap.nodes[i];
        if n.kind == Kind::Text {
          i += 1;
          continue;
        }
        let class = n.ro.get_property("class").unwrap_or_default();
        let mut classes: Vec<&str> = class.split(' ').filter(|c| !c.is_empty()).collect();
        classes.sort_unstable();
        let token = std::iter::once(n.name.as_str()).chain(classes).collect::<Vec<_>>().join("_");
        text.push_str(&token);
        text.push(' ');
        *counts.entry(token).or_insert(0) += 1;
        // what is inside formulas and tables does not count
        i = if n.name == "math" || n.name == "table" { snap.subtree_end(i) } else { i + 1 };
      }
    }
    parts.push((p.clone(), text));
  }
  let got = read(&model);
  cx.eval(&("nodes", &got, s.threads), parts.iter().filter(|p| !p.1.is_empty()).count() >= 2);
  cx.seen("nodes counted", counts.values().sum());
  cx.sample(|| format!("node model {:?}", clip(&got, 300)));
  check_parts(cx, "node model", &got, &parts);
  let text = read(&stats);
  // class names may hold line breaks, the count is what follows the last space
  let mut rows: Vec<(String, String)> = Vec::new();
  let mut key = String::new();
  for l in text.split_inclusive('\n') {
    match l.trim_end_matches('\n').rsplit_once(' ') {
      Some((a, n)) if n.bytes().all(|b| b.is_ascii_digit()) && !n.is_empty() && l.ends_with('\n') => {
        key.push_str(a);
        rows.push((std::mem::take(&mut key), n.to_string()));
      },
      _ => key.push_str(l),
    }
  }
  cx.check(key.is_empty(), "stats", || format!("the node statistics end in {key:?}"));
  check_table(cx, "node statistics", &rows, &counts);
}

fn ext_of(cx: &mut Cx) -> Option<String> {
  if cx.rng.chance(1, 3) { Some(cx.rng.pick(&[".html", ".xhtml", "html", ".html5", ".nosuch"]).to_string()) } else { None }
}

fn mathml_stats(cx: &mut Cx, k: u64, d: &Path) {
  let ext = ext_of(cx);
  let s = setting(cx, k, "corpus_mathml_stats", 1, &ext, d);
  let csv = d.join("stats.csv");
  seed_file(cx, &csv);
  let mut args = vec![s.arg.clone(), "stats.csv".into()];
  args.extend(ext.clone());
  let Some(o) = run(cx, "corpus_mathml_stats", &args, d, s.threads, s.lang) else { return };
  let mut want = Counts::new();
  let mut with_math = 0;
  for p in &s.docs {
    let Some(doc) = parse(p) else { continue };
    let Some(root) = doc.get_root_readonly() else { continue };
    let snap = Snap::new(root);
    let mut math = 0;
    for i in (0..snap.nodes.len()).filter(|i| snap.nodes[*i].kind == Kind::Element && snap.nodes[*i].name == "math") {
      math = 1;
      for j in i..snap.subtree_end(i) {
        let n = &snap.nodes[j];
        if n.kind == Kind::Text {
          continue;
        }
        *want.entry(n.name.clone()).or_insert(0) += 1;
        if n.kind != Kind::Element {
          continue;
        }
        for (a, v) in n.ro.get_attributes() {
          *want.entry(format!("{}@{a}", n.name)).or_insert(0) += 1;
          if !["id", "xref", "alttext", "href", "altimg"].contains(&a.as_str()) {
            for x in v.split_whitespace() {
              *want.entry(format!("{}@{a}[{x}]", n.name)).or_insert(0) += 1;
            }
          }
        }
      }
    }
    with_math += math;
  }
  cx.eval(&("mathml", hash_of(&want), s.threads), want.len() >= 2 && with_math >= 2);
  cx.seen("formula nodes and attributes", want.values().sum());
  check_announced(cx, &s, &o.stdout);
  check_csv(cx, "MathML statistics", &read(&csv), ["name@attr[value]", "frequency"], &want);
}

fn math_count(cx: &mut Cx, k: u64, d: &Path) {
  let ext = ext_of(cx);
  let s = setting(cx, k, "corpus_math_count", 1, &ext, d);
  let mut args = vec![s.arg.clone(), "math.csv".into(), "content.csv".into()];
  args.extend(ext.clone());
  seed_file(cx, &d.join("math.csv"));
  let Some(o) = run(cx, "corpus_math_count", &args, d, s.threads, s.lang) else { return };
  let (mut math, mut content) = (Counts::new(), Counts::new());
  let (mut total, mut content_total) = (0, 0);
  for p in &s.docs {
    let Some(doc) = parse(p) else { continue };
    let (mut m, mut c) = (0, 0);
    if let Some(root) = doc.get_root_readonly() {
      let snap = Snap::new(root);
      for n in snap.nodes.iter().filter(|n| n.kind == Kind::Element) {
        m += (n.name == "math") as u64;
        c += (n.name == "annotation-xml" && n.ro.get_property_no_ns("encoding").as_deref() == Some("MathML-Content")) as u64;
      }
    }
    total += m;
    content_total += c;
    *math.entry(m.to_string()).or_insert(0) += 1;
    *content.entry(c.to_string()).or_insert(0) += 1;
  }
  cx.eval(&("count", hash_of(&(&math, &content)), s.threads), s.docs.len() >= 2 && total > 0);
  cx.seen("formulas counted", total);
  cx.seen("content annotations counted", content_total);
  check_csv(cx, "formulas per document", &read(&d.join("math.csv")), ["math elements", "documents in corpus"], &math);
  check_csv(cx, "annotations per document", &read(&d.join("content.csv")), ["annotation-xml elements", "documents in corpus"], &content);
  let totals: Vec<u64> = o.stderr.lines().filter_map(|l| l.trim().parse().ok()).collect();
  cx.check(totals == [total, content_total], "totals", || format!("the grand totals are {totals:?}, expected {total} and {content_total}"));
}

fn pre_ref(cx: &mut Cx, k: u64, d: &Path) {
  let s = setting(cx, k, "pre_ref_words", 0, &None, d);
  seed_file(cx, &d.join("ref.csv"));
  let Some(o) = run(cx, "pre_ref_words", &[s.arg.clone(), "ref.csv".into()], d, s.threads, s.lang) else { return };
  let mut want = Counts::new();
  for p in &s.docs {
    let Some(doc) = parse(p) else { continue };
    let Some(root) = doc.get_root_readonly() else { continue };
    let snap = Snap::new(root);
    for i in ref_refs(&snap) {
      let Some(up) = snap.nodes[i].parent else { continue };
      let at = snap.nodes[up].children.iter().position(|c| *c == i).unwrap();
      let Some(before) = at.checked_sub(1).map(|j| &snap.nodes[snap.nodes[up].children[j]]) else { continue };
      if before.ro.get_type() != Some(NodeType::TextNode) {
        continue;
      }
      let text = before.content.trim_end();
      let word: String = text[text.rfind(|c: char| !c.is_alphanumeric()).map_or(0, |i| i + text[i..].chars().next().unwrap().len_utf8())..].chars().flat_map(char::to_lowercase).collect();
      if !word.is_empty() {
        *want.entry(word).or_insert(0) += 1;
      }
    }
  }
  cx.eval(&("refs", hash_of(&want), s.threads), want.len() >= 2);
  cx.seen("words before references", want.values().sum());
  check_announced(cx, &s, &o.stdout);
  let text = read(&d.join("ref.csv"));
  let mut lines = text.lines();
  let head = lines.next();
  cx.check(head == Some("word, frequency"), "header", || format!("the header is {head:?}"));
  let rows: Vec<(String, String)> = lines.filter_map(|l| l.split_once(", ")).map(|(a, b)| (a.to_string(), b.to_string())).collect();
  check_table(cx, "words before references", &rows, &want);
}

/// the verdict of the language filter in a tool
fn invalid(text: &str, lang: u64) -> bool {
  let blank = |s: &str, w: &str| s.split(w).collect::<Vec<_>>().join(" ");
  let prose = blank(&blank(&blank(text, "mathformula"), "CitationElement"), "REF");
  let prose = prose.trim();
  match whatlang::detect_by_hash(prose, lang) {
    None => false,
    Some(i) => i.script() != whatlang::Script::Latin || (i.lang() != whatlang::Lang::Eng && i.confidence() > 0.93),
  }
}

fn headings(cx: &mut Cx, k: u64, d: &Path) {
  let s = setting(cx, k, "corpus_heading_stats", 0, &None, d);
  seed_file(cx, &d.join("headings.csv"));
  let Some(o) = run(cx, "corpus_heading_stats", &[s.arg.clone(), "headings.csv".into()], d, s.threads, s.lang) else { return };
  // (the second reading is the known finding: the discarding parameters do not reach the headings)
  let reading = |discard: bool| {
  let mut want = Counts::new();
  let (mut n, mut long, mut foreign) = (0u64, 0u64, 0);
  for p in &s.docs {
    let Some(doc) = parse(p) else { continue };
    let Some(root) = doc.get_root_readonly() else { continue };
    let snap = Snap::new(root);
    let mut params = DNMParameters::llamapun_normalization();
    for t in ["math", "cite"].into_iter().filter(|_| discard) {
      params.special_tag_name_options.insert(t.into(), SpecialTagsOption::Skip);
    }
    for c in ["ltx_equation", "ltx_equationgroup", "ltx_ref"].into_iter().filter(|_| discard) {
      params.special_tag_class_options.insert(c.into(), SpecialTagsOption::Skip);
    }
    'headings: for i in ref_headings(&snap) {
      let dnm = DNM::new(snap.nodes[i].ro, params.clone());
      if invalid(&dnm.plaintext, s.lang) {
        foreign += 1;
        continue;
      }
      let chars: Vec<char> = dnm.plaintext.chars().collect();
      let mut text = String::new();
      for (a, b) in words_in(&chars, 0, chars.len()) {
        let w: String = chars[a..b].iter().collect();
        let lex = gen::lexemes_below(&snap, snap.idx(dnm.back_map[a].0).unwrap());
        match classify(&w, &lex, false, false, false) {
          None => {
            long += 1;
            continue 'headings;
          },
          Some(x) if x.is_empty() || x == "NUM" => {},
          Some(x) => {
            text.push_str(&x);
            text.push(' ');
          },
        }
      }
      let text = normalize_heading_title(&text);
      if !text.is_empty() {
        n += 1;
        *want.entry(text).or_insert(0) += 1;
      }
    }
  }
  (want, n, long, foreign)
  };
  let docs = s.docs.len();
  let lines = |n: u64, long: u64| [format!("{docs} Total traversed documents;"), format!("{n} headings;"), format!("{long} discarded headings (long words)")];
  let rows: Counts = csv(&read(&d.join("headings.csv"))).into_iter().skip(1).filter_map(|r| Some((r.first()?.clone(), r.get(1)?.parse().ok()?))).collect();
  let told = |x: &(Counts, u64, u64, u64)| rows == x.0 && lines(x.1, x.2).iter().all(|l| o.stdout.lines().any(|m| m == l));
  let mut answer = reading(true);
  if !told(&answer) {
    let other = reading(false);
    if told(&other) {
      cx.fail("headings-keep-formulas", format!("formulas, citations or references are part of the headings {:?}\n{}", other.0.iter().filter(|x| answer.0.get(x.0) != Some(x.1)).take(5).collect::<Vec<_>>(), cx.doing.clone()));
      answer = other;
    }
  }
  let (want, n, long, foreign) = answer;
  cx.eval(&("headings", hash_of(&want), s.threads), want.len() >= 2 && s.docs.len() >= 2);
  cx.seen("headings counted", n);
  cx.seen("headings in other languages", foreign);
  cx.seen("headings with overlong words", long);
  for line in lines(n, long) {
    cx.check(o.stdout.lines().any(|l| l == line), "summary", || format!("{line:?} is not reported in {:?}", clip(&o.stdout, 400)));
  }
  check_csv(cx, "heading statistics", &read(&d.join("headings.csv")), ["heading", "frequency"], &want);
}

/// AMS environments too noisy or rare to be kept
const NOISY: &[&str] = &[
  "affirmation", "algorithm", "answer", "bound", "caption", "comment", "constraint", "convention", "criterion", "expansion", "expectation", "explanation", "hint", "issue", "keywords", "note",
  "notice", "paragraph", "principle", "rule", "solution", "other",
];

fn paragraphs(cx: &mut Cx, k: u64, d: &Path) {
  use crypto::digest::Digest;
  let s = setting(cx, k, "corpus_statement_paragraphs_model", 0, &None, d);
  let drop_math = cx.rng.chance(1, 2);
  let tar = d.join("paragraphs.tar");
  seed_file(cx, &tar);
  let mut args = vec![s.arg.clone(), "paragraphs.tar".into()];
  if drop_math {
    args.push("discard_math".into());
  } else if cx.rng.chance(1, 4) {
    args.push("keep_math".into());
  }
  let Some(o) = run(cx, "corpus_statement_paragraphs_model", &args, d, s.threads, s.lang) else { return };
  let mut want: BTreeSet<(String, String)> = BTreeSet::new();
  let (mut ams_docs, mut kept, mut dropped, mut twice, mut foreign, mut limits) = (0u64, 0u64, 0u64, 0u64, 0, 0);
  // (formulas are dropped as words)
  let params = DNMParameters::llamapun_normalization();
  for p in &s.docs {
    let Some(doc) = parse(p) else { continue };
    let Some(root) = doc.get_root_readonly() else { continue };
    let snap = Snap::new(root);
    let ams = has_markup_xmldoc(&doc);
    ams_docs += ams as u64;
    for i in ref_extended(&snap) {
      let node = &snap.nodes[i];
      let class = node.ro.get_property("class").unwrap_or_default();
      // the element before it
      let up = node.parent.map(|u| &snap.nodes[u]);
      let before = up.and_then(|u| u.children.iter().take_while(|c| **c != i).filter(|c| snap.nodes[**c].kind == Kind::Element).last().copied());
      let own = if class.contains("ltx_acknowledgement") {
        Some("acknowledgement")
      } else if class.contains("ltx_caption") {
        Some("caption")
      } else {
        None
      };
      if own.is_none() && before.is_some_and(|b| !snap.nodes[b].name.starts_with('h')) {
        continue;
      }
      let dnm = DNM::new(node.ro, params.clone());
      if invalid(&dnm.plaintext, s.lang) {
        foreign += 1;
        continue;
      }
      let theorem: Option<AmsEnv> = if ams { up.and_then(|u| class_to_env(&u.ro.get_property("class").unwrap_or_default())) } else { None };
      let label = match (own, theorem, before) {
        (Some(l), ..) => l.to_string(),
        (None, Some(env), _) => {
          let l = env.to_string();
          if NOISY.contains(&l.as_str()) {
            continue;
          }
          l
        },
        (None, None, None) => continue,
        (None, None, Some(b)) => {
          let hd = DNM::new(snap.nodes[b].ro, DNMParameters::llamapun_normalization());
          let chars: Vec<char> = hd.plaintext.chars().collect();
          let mut title = Some(String::new());
          for (x, y) in words_in(&chars, 0, chars.len()) {
            let w: String = chars[x..y].iter().collect();
            let lex = gen::lexemes_below(&snap, snap.idx(hd.back_map[x].0).unwrap());
            match classify(&w, &lex, false, false, false) {
              None => {
                title = None;
                break;
              },
              Some(w) if w.is_empty() || w == "NUM" => {},
              Some(w) => {
                if let Some(t) = title.as_mut() {
                  t.push_str(&w);
                  t.push(' ');
                }
              },
            }
          }
          // (an empty heading has no words to be asked for)
          let Some(title) = title else { continue };
          let env: StructuralEnv = title.as_str().into();
          if env == StructuralEnv::Other {
            continue;
          }
          env.to_string()
        },
      };
      let chars: Vec<char> = dnm.plaintext.chars().collect();
      let mut text = Some(String::new());
      let mut n = 0;
      for (a, b) in tokens_in(&chars, 0, chars.len()).0 {
        let w: String = chars[a..b].iter().collect();
        let lex = gen::lexemes_below(&snap, snap.idx(dnm.back_map[a].0).unwrap());
        match classify(&w, &lex, false, true, drop_math) {
          None => {
            text = None;
            break;
          },
          Some(w) if w.is_empty() => {},
          Some(w) => {
            n += 1;
            if let Some(t) = text.as_mut() {
              t.push_str(&w);
              t.push(' ');
            }
          },
        }
      }
      limits += [3, 4, 1024, 1025].contains(&n) as u64;
      match text {
        Some(t) if (4..=1024).contains(&n) => {
          kept += 1;
          want.insert((label, t + "\n"));
        },
        t => {
          dropped += 1;
          twice += (t.is_none() && !(4..=1024).contains(&n)) as u64;
        },
      }
    }
  }
  cx.eval(&("paragraphs", hash_of(&want), s.threads, drop_math), want.len() >= 2 && s.docs.len() >= 2);
  cx.seen("labelled paragraphs", kept);
  cx.seen("repeated paragraphs", kept - want.len() as u64);
  cx.seen("paragraphs of irregular length", dropped);
  cx.seen("paragraphs at the length limits", limits);
  cx.seen("paragraphs in other languages", foreign);
  cx.sample(|| format!("paragraphs {:?}", clip(&format!("{want:?}"), 300)));
  let docs = s.docs.len();
  let written = want.len();
  let discarded = |n: u64| format!("{n} discarded paragraphs (irregular word count or word length)");
  let reported = |n: u64| o.stdout.lines().any(|l| l == discarded(n));
  let mut told = dropped;
  if twice > 0 && !reported(dropped) && reported(dropped + twice) {
    // known finding
    told += twice;
    cx.fail("discarded-counted-twice", format!("{dropped} paragraphs are discarded, {twice} of them for an overlong word among the first four, but {told} are reported\n{}", cx.doing.clone()));
  }
  for line in [
    format!("{docs} Total traversed documents;"),
    format!("{ams_docs} AMS marked up documents;"),
    format!("{kept} paragraphs;"),
    discarded(told),
    format!("{written} paragraphs written to .tar destination (discarded duplicate SHA256-based filenames)"),
  ] {
    let doing = cx.doing.clone();
    cx.check(o.stdout.lines().any(|l| l == line), "summary", || format!("{line:?} is not reported in {:?}\n{doing}", clip(&o.stdout, 500)));
  }
  let mut got: BTreeSet<(String, String)> = BTreeSet::new();
  let mut names = BTreeSet::new();
  let mut archive = tar::Archive::new(std::fs::File::open(&tar).expect("archive"));
  let entries = match archive.entries() {
    Ok(e) => e,
    Err(e) => {
      cx.fail("archive", format!("the archive cannot be read: {e}"));
      return;
    },
  };
  for e in entries {
    let Ok(mut e) = e else {
      cx.fail("archive", "an entry of the archive cannot be read".into());
      return;
    };
    let name = e.path().map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
    let mut text = String::new();
    let _ = e.read_to_string(&mut text);
    let mut h = crypto::sha2::Sha256::new();
    h.input_str(&text);
    let sum = h.result_str();
    let (label, file) = name.split_once('/').unwrap_or(("", ""));
    cx.check(file == format!("{sum}.txt"), "name", || format!("{name:?} holds {:?}, whose hash is {sum}", clip(&text, 200)));
    cx.check(names.insert(name.clone()), "duplicate", || format!("{name} occurs twice"));
    got.insert((label.to_string(), text));
  }
  let doing = cx.doing.clone();
  cx.check(got == want, "paragraphs", || {
    let show = |v: Vec<&(String, String)>| v.iter().take(3).map(|x| format!("{}: {:?}", x.0, clip(&x.1, 200))).collect::<Vec<_>>();
    format!("in excess {:?}, missing {:?} (math discarded: {drop_math})\n{doing}", show(got.difference(&want).collect()), show(want.difference(&got).collect()))
  });
}

fn citations(cx: &mut Cx, _k: u64, d: &Path) {
  let files = cx.rng.below(4);
  let mut want = Counts::new();
  let mut args = Vec::new();
  let mut lines = 0;
  for i in 0..files {
    let r = &mut cx.rng;
    let mut text = String::new();
    for j in 0..r.below(30) {
      let dens = r.range(2, 40);
      let ws: Vec<&str> = (0..r.below(60))
        .map(|_| if r.chance(1, dens) { "citationelement" } else { *r.pick(&["we", "show", "in", "NUM", ".", ",", "(", "the", "graph", "citationelements", "ITALIC_x", "é", "italic_x", "x,y", "\"q\""]) })
        .collect();
      if j > 0 {
        text.push('\n');
      }
      text.push_str(&ws.join(" "));
      if !ws.iter().any(|w| w.contains("citationelement")) {
        continue;
      }
      lines += 1;
      let ws: Vec<&str> = ws.into_iter().filter(|w| w.starts_with(char::is_alphanumeric)).collect();
      let at: Vec<usize> = (0..ws.len()).filter(|i| ws[*i] == "citationelement").collect();
      let near: Vec<bool> = (0..ws.len()).map(|i| at.iter().any(|a| a.abs_diff(i) <= 15)).collect();
      for i in 0..ws.len().saturating_sub(3) {
        if near[i..i + 4].iter().all(|x| *x) {
          *want.entry(ws[i..i + 4].join(" ")).or_insert(0) += 1;
        }
      }
    }
    if r.chance(1, 2) {
      text.push('\n');
    }
    let p = d.join(format!("model {i}.txt"));
    std::fs::write(&p, text).expect("model");
    args.push(p.to_string_lossy().to_string());
  }
  cx.doing = format!("citation_ngrams on {files} files: {}", args.iter().map(|a| clip(&read(Path::new(a)), 2_000)).collect::<Vec<_>>().join("\n---\n"));
  let Some(_) = run(cx, "citation_ngrams", &args, d, 1, 0) else { return };
  cx.eval(&("citations", hash_of(&want)), want.len() >= 2 && lines >= 2);
  cx.seen("citation n-grams", want.values().sum());
  check_csv(cx, "citation n-grams", &read(&d.join("4_grams_15_window.csv")), ["ngram", "frequency"], &want);
}

fn article(cx: &mut Cx, d: &Path) -> Document {
  let r = &mut cx.rng;
  let text = match r.below(6) {
    0 => statements(r, false),
    1 => gen::many_paragraphs(r),
    _ => gen::latexml(r, 4),
  };
  std::fs::create_dir_all(d.join("tests/resources")).expect("resources");
  let p = d.join("tests/resources/0903.1000.html");
  std::fs::write(&p, &text).expect("article");
  cx.doing = format!("the article {}", clip(&text, 3_000));
  parse(&p.to_string_lossy()).expect("article")
}

fn tokenization(cx: &mut Cx, d: &Path) {
  use std::os::unix::fs::PermissionsExt;
  let doc = article(cx, d);
  std::fs::create_dir_all(d.join("bin")).unwrap();
  let script = d.join("bin/gnuplot");
  std::fs::write(&script, format!("#!/bin/sh\ncase \"$1\" in --version) echo gnuplot 5.4 patchlevel 0; exit;; esac\nexec /bin/cat >> '{}'\n", d.join("commands").display())).unwrap();
  std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
  let Some(o) = run(cx, "word_tokenization", &[], d, 1, 0) else { return };
  let Some(root) = doc.get_root_readonly() else { return };
  let snap = Snap::new(root);
  let tok = Tokenizer::default();
  let (mut paragraphs, mut sentences, mut total) = (0, 0, 0);
  let mut order: Vec<String> = Vec::new();
  let mut freq: BTreeMap<String, usize> = BTreeMap::new();
  for i in ref_paragraphs(&snap) {
    paragraphs += 1;
    let dnm = DNM::new(snap.nodes[i].ro, DNMParameters::llamapun_normalization());
    let chars: Vec<char> = dnm.plaintext.chars().collect();
    for s in tok.sentences(&dnm) {
      sentences += 1;
      for (a, b) in words_in(&chars, s.start, s.end) {
        total += 1;
        let w = chars[a..b].iter().collect::<String>().to_lowercase();
        if !freq.contains_key(&w) {
          order.push(w.clone());
        }
        *freq.entry(w).or_insert(0) += 1;
      }
    }
  }
  let mut per: BTreeMap<usize, usize> = BTreeMap::new();
  for n in freq.values() {
    *per.entry(*n).or_insert(0) += 1;
  }
  cx.eval(&("tokenization", hash_of(&freq)), order.len() >= 2);
  cx.seen("words of articles", total as u64);
  let after = |head: &str| o.stdout.lines().skip_while(|l| *l != head).nth(1).unwrap_or("").to_string();
  let dictionary: Vec<(&String, usize)> = order.iter().enumerate().rev().map(|(i, w)| (w, i + 1)).collect();
  let distribution: Vec<(usize, usize)> = per.iter().map(|(n, words)| (*words, *n)).collect();
  let doing = cx.doing.clone();
  for (head, want) in [("--- Dictionary: ", format!("{dictionary:?}")), ("--- Frequency distribution: ", format!("{distribution:?}"))] {
    let got = after(head);
    cx.check(got == want, "report", || format!("{head}{:?}, expected {:?}\n{doing}", clip(&got, 600), clip(&want, 600)));
  }
  let got = after("--- Frequencies: ");
  let mut shown: Vec<&str> = got.trim_start_matches('[').trim_end_matches(']').split("), (").map(|x| x.trim_start_matches('(').trim_end_matches(')')).filter(|x| !x.is_empty()).collect();
  let numbers: Vec<usize> = shown.iter().filter_map(|x| x.rsplit(", ").next().and_then(|n| n.parse().ok())).collect();
  cx.check(numbers.windows(2).all(|x| x[0] >= x[1]), "order", || format!("frequencies {:?}", clip(&got, 600)));
  let mut want: Vec<String> = freq.iter().map(|(w, n)| format!("{w:?}, {n}")).collect();
  shown.sort_unstable();
  want.sort();
  cx.check(shown == want, "report", || format!("frequencies {:?}, expected {:?}\n{doing}", clip(&got, 600), clip(&format!("{want:?}"), 600)));
  for line in [
    format!("--- Paragraphs total: {paragraphs}"),
    format!("--- Sentences total: {sentences}"),
    format!("--- Words total: {total}"),
    format!("--- Words distinct: {}", order.len()),
  ] {
    cx.check(o.stdout.lines().any(|l| l == line), "summary", || format!("{line:?} is not reported\n{doing}"));
  }
  let plots = read(&d.join("commands"));
  for p in ["inorder_word_freq.png", "distribution_word_freq.png"] {
    cx.check(plots.contains(&format!("set output \"{p}\"")), "plot", || format!("{p} is not plotted"));
  }
}

fn pos_tags(cx: &mut Cx, d: &Path) {
  let doc = article(cx, d);
  let Some(o) = run(cx, "pos_tagging", &[], d, 1, 0) else { return };
  let Some(root) = doc.get_root_readonly() else { return };
  let tok = Tokenizer::default();
  let dnm = DNM::new(root, DNMParameters::llamapun_normalization());
  let chars: Vec<char> = dnm.plaintext.chars().collect();
  let mut want = String::new();
  let mut n = 0;
  for s in tok.sentences(&dnm) {
    n += 1;
    want.push_str("\n --- New Sentence ---\n\n");
    // the stand-in parser reports alphanumeric runs and single punctuation characters
    let mut i = s.start;
    while i < s.end {
      let from = i;
      if chars[i].is_alphanumeric() {
        while i < s.end && chars[i].is_alphanumeric() {
          i += 1;
        }
      } else {
        i += 1;
        if chars[from].is_whitespace() {
          continue;
        }
      }
      want.push_str(&format!("'{}'\t\n", chars[from..i].iter().collect::<String>()));
    }
  }
  cx.eval(&("pos", hash_of(&want)), n >= 2);
  cx.seen("tagged sentences", n);
  // what was parsed, whatever the tags
  let got: String = o.stdout.split_inclusive('\n').map(|l| if l.starts_with('\'') { l.rsplit_once('\t').map_or(l.to_string(), |x| format!("{}\t\n", x.0)) } else { l.to_string() }).collect();
  let doing = cx.doing.clone();
  cx.check(got == want, "tags", || {
    let j = got.lines().zip(want.lines()).take_while(|(a, b)| a == b).count();
    format!("line {j} is {:?}, expected {:?}\n{doing}", got.lines().nth(j), want.lines().nth(j))
  });
}

fn tokens(cx: &mut Cx, k: u64, d: &Path) {
  let s = setting(cx, k, "corpus_token_model", 0, &None, d);
  let drop_math = cx.rng.chance(1, 2);
  seed_file(cx, &d.join("tokens.txt"));
  let mut args = vec![s.arg.clone(), "tokens.txt".into()];
  if drop_math {
    args.push("discard_math".into());
  }
  let Some(o) = run(cx, "corpus_token_model", &args, d, s.threads, s.lang) else { return };
  let docs: Vec<(String, Model)> = s.docs.iter().map(|p| (p.clone(), model_of(p, drop_math))).collect();
  let mut sum = Counts::new();
  for (n, c) in docs.iter().flat_map(|d| &d.1.counts) {
    *sum.entry(n.clone()).or_insert(0) += c;
  }
  let text = read(&d.join("tokens.txt"));
  cx.eval(&("tokens", hash_of(&text), s.threads), docs.iter().filter(|d| !d.1.lines.is_empty()).count() >= 2);
  cx.seen("token model lines", docs.iter().map(|d| d.1.lines.len() as u64).sum());
  for (name, line) in [
    ("document_count", "documents;"),
    ("paragraph_count", "paragraphs;"),
    ("overflow_count", "discarded paragraphs (long words)"),
    ("word_count", "words;"),
    ("num_count", "numeric literals;"),
    ("formula_count", "formulas;"),
    ("citation_count", "inline cites;"),
  ] {
    let line = format!("{} {line}", sum.get(name).unwrap_or(&0));
    let doing = cx.doing.clone();
    cx.check(o.stdout.lines().any(|l| l == line), "summary", || format!("{line:?} is not reported in {:?}\n{doing}", clip(&o.stdout, 500)));
  }
  // spacing aside
  let squeezed: String = text.split('\n').skip(1).map(|l| l.split(' ').filter(|t| !t.is_empty()).collect::<Vec<_>>().join(" ") + "\n").collect();
  let parts: Vec<(String, String)> = docs.iter().map(|(p, m)| (p.clone(), m.lines.iter().map(|l| l.iter().filter(|t| !t.is_empty()).cloned().collect::<Vec<_>>().join(" ") + "\n").collect())).collect();
  check_parts(cx, "token model", &squeezed, &parts);
}
