//! C33: everything at once. Many threads use the library on shared and on separate data; what each
//! computes must be what a single thread computes. The same workload, and those of the other
//! properties, run again in builds with sanitizers (see /verif/c33.py), whose reports decide.
use super::corpus::{corpus, extension, pool, selected, RemoveFile};
use super::{Spec, BASE};
use crate::cx::{clip, hash_of, Cx, Rng};
use crate::gen;
use libxml::xpath::Context;
use llamapun::dnm::{DNMRange, DNM};
use llamapun::parallel_data::{self, Document, XPathFilteredIterator as _};
use llamapun::patterns::{match_sentence, MarkerEnum, Match, PatternFile};
use llamapun::tokenizer::Tokenizer;
use llamapun::util::{data_helpers, path_helpers, token_model};
use std::collections::HashMap;
use std::sync::{Barrier, Mutex};

pub fn specs() -> Vec<Spec> {
  vec![Spec { id: "C33", run: c33, rule: "distinct workloads in which at least two threads worked at the same time on non-empty data", quick: 3_000, stall_s: 240, cpu_s: 240, min_distinct: 20, ..BASE }]
}

/// Runs `f` on `n` threads released together; the results in thread order.
fn together<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
  let gate = Barrier::new(n);
  let (gate, f) = (&gate, &f);
  std::thread::scope(|s| {
    let hs: Vec<_> = (0..n)
      .map(|i| {
        s.spawn(move || {
          gate.wait();
          f(i)
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
  })
}

fn digest_dnm(d: &DNM, tok: &Tokenizer) -> Vec<String> {
  let mut v = vec![d.to_c14n_basic(), d.to_hash_basic()];
  for s in tok.sentences(d) {
    v.push(s.get_plaintext().to_string());
    for w in tok.words(&s) {
      let w = w.trim();
      v.push(format!("{} {} {} {:?}", w.start, w.end, w.get_plaintext(), w.get_node().get_name()));
    }
    for t in tok.words_and_punct(&s) {
      v.push(t.get_plaintext_truncated().to_string());
    }
    if let Ok(x) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.serialize())) {
      v.push(x);
    }
  }
  v
}

fn digest_doc(d: Document) -> Vec<String> {
  let mut v = vec![];
  let tok = &d.corpus.tokenizer;
  let mut context = Context::new(&d.dom).unwrap();
  for n in d.get_heading_nodes() {
    let h = data_helpers::heading_from_node_aux(n, tok, &mut context).unwrap_or_default();
    v.push(data_helpers::normalize_heading_title(&h));
    v.push(llamapun::ams::StructuralEnv::from(h.as_str()).to_string());
  }
  v.push(format!("{} {} {}", d.get_math_nodes().len(), d.get_ref_nodes().len(), llamapun::ams::has_markup_xmldoc(&d.dom)));
  for mut p in d.extended_paragraph_iter() {
    v.push(data_helpers::invalid_for_english_latin(&p.dnm).to_string());
    let words: Vec<String> = p
      .word_and_punct_iter()
      .map(|w| data_helpers::ams_normalize_word_range(&w.range, &mut context, Default::default()).unwrap_or_else(|e| e.to_string()))
      .collect();
    v.push(words.join(" "));
  }
  for mut p in d.paragraph_iter() {
    for mut s in p.iter() {
      v.push(s.word_iter().map(|w| w.range.get_plaintext().to_string()).collect::<Vec<_>>().join("|"));
    }
  }
  v
}

fn c_words(path: &str) -> String {
  let c = std::ffi::CString::new(path).unwrap();
  unsafe {
    let p = llamapun::extern_use::word_tokenize_for_vec2doc(c.as_ptr());
    let s = std::ffi::CStr::from_ptr(p).to_string_lossy().to_string();
    drop(std::ffi::CString::from_raw(p));
    s
  }
}

const RULES: &str = r#"<pattern_file>
<mtext_rule name="id"><mtext_not><mtext_lit str="1"/></mtext_not></mtext_rule>
<math_rule name="m"><math_descendant match_type="arbitrary"><math_marker name="id"><math_node name="mi"><mtext_ref ref="id"/></math_node></math_marker></math_descendant></math_rule>
<word_rule name="w"><word_or><word_math><math_ref ref="m"/></word_math><word_marker name="x" tags="a, b"><word_any/></word_marker></word_or></word_rule>
<seq_rule name="s"><seq_marker name="all"><seq_seq><seq_word><word_ref ref="w"/></seq_word><seq_or match_type="any"><seq_ref ref="s"/></seq_or></seq_seq></seq_marker></seq_rule>
</pattern_file>"#;

fn digest_match(m: &Match) -> String {
  m.get_marker_list()
    .iter()
    .map(|m| match m {
      MarkerEnum::Text(t) => format!("{}:{:?}", t.marker.name, t.range.get_plaintext()),
      MarkerEnum::Math(t) => format!("{}:{}", t.marker.name, t.node.get_content()),
    })
    .collect::<Vec<_>>()
    .join(",")
}

fn file_in(cx: &mut Cx, k: u64, i: usize, r: &mut Rng) -> RemoveFile {
  let p = cx.scratch.join(format!("race-{}-{k}-{i}.html", std::process::id()));
  std::fs::write(&p, gen::latexml(r, 2)).unwrap();
  RemoveFile(p)
}

fn c33(cx: &mut Cx, k: u64) {
  let threads = cx.rng.range(2, 8);
  let mut r = cx.rng.clone();
  r.next();
  let kind = k % 6;
  let mut size = 0;
  match kind {
    0 => {
      cx.doing = "one DNM read by many threads".into();
      let doc = gen::parse(&gen::document(&mut r, &gen::TreeOpts::basic()));
      let p = gen::params(&mut r, Some(true));
      let dnm = DNM::new(doc.get_root_readonly().unwrap(), p.clone());
      let tok = Tokenizer::default();
      let want = digest_dnm(&dnm, &tok);
      size = want.len() - 1;
      let root = dnm.root_node;
      let got = together(threads, |i| {
        if i % 2 == 0 {
          digest_dnm(&dnm, &tok)
        } else {
          // another flattening of the same tree, and another tokenizer
          digest_dnm(&DNM::new(root, p.clone()), &Tokenizer::default())
        }
      });
      for g in got {
        cx.check(g == want, "shared-dnm", || format!("a thread computes {:?}\nexpected {:?}", clip(&format!("{g:?}"), 500), clip(&format!("{want:?}"), 500)));
      }
    },
    1 | 5 => {
      cx.doing = "documents processed by many threads".into();
      let files: Vec<RemoveFile> = (0..threads).map(|i| file_in(cx, k, i, &mut r)).collect();
      let names: Vec<String> = files.iter().map(|f| f.0.to_string_lossy().to_string()).collect();
      let one = parallel_data::Corpus::default();
      let want: Vec<Vec<String>> = names.iter().map(|n| digest_doc(Document::new(n.clone(), &one).unwrap())).collect();
      size = want.iter().filter(|w| w.len() > 3).count();
      let got = together(threads, |i| {
        let c = parallel_data::Corpus::default();
        (0..2).map(|j| digest_doc(Document::new(names[(i + j) % threads].clone(), &c).unwrap())).collect::<Vec<_>>()
      });
      for (i, g) in got.iter().enumerate() {
        for (j, g) in g.iter().enumerate() {
          let w = &want[(i + j) % threads];
          cx.check(g == w, "documents", || format!("a thread computes {:?}\nexpected {:?}", clip(&format!("{g:?}"), 500), clip(&format!("{w:?}"), 500)));
        }
      }
    },
    2 => {
      cx.doing = "token models of one corpus extracted at the same time".into();
      let c = corpus(cx, k, 8, 2, false);
      let out = |i: usize| c.dir.join(format!("model{i}.txt"));
      let run = |i: usize| {
        let counts = token_model::extract(c.dir.to_string_lossy().to_string(), out(i).to_string_lossy().to_string(), false).map_err(|e| e.to_string());
        let mut lines: Vec<String> = std::fs::read_to_string(out(i)).unwrap_or_default().lines().map(str::to_string).collect();
        lines.sort();
        let mut counts: Vec<(String, u64)> = counts.unwrap_or_default().into_iter().collect();
        counts.sort();
        (counts, lines)
      };
      let want = pool(1).install(|| run(0));
      size = want.1.len();
      let p = pool(threads);
      let got = together(2, |i| p.install(|| run(i + 1)));
      for g in got {
        cx.check(g == want, "token-models", || format!("counts {:?}, expected {:?}", g.0, want.0));
      }
    },
    3 => {
      cx.doing = "the C interface called by many threads".into();
      let files: Vec<RemoveFile> = (0..3).map(|i| file_in(cx, k, i, &mut r)).collect();
      let names: Vec<String> = files.iter().map(|f| f.0.to_string_lossy().to_string()).collect();
      let want: Vec<String> = names.iter().map(|n| path_helpers::path_to_words(n.clone())).collect();
      size = want.iter().map(|w| w.len()).sum::<usize>();
      let got = together(threads, |i| (0..3).map(|j| c_words(&names[(i + j) % 3])).collect::<Vec<_>>());
      for (i, g) in got.iter().enumerate() {
        for (j, g) in g.iter().enumerate() {
          let w = &want[(i + j) % 3];
          cx.check(g == w, "c-interface", || format!("a thread gets {:?}\nexpected {:?}", clip(g, 300), clip(w, 300)));
        }
      }
    },
    4 => {
      cx.doing = "one pattern file used by many threads".into();
      let rules = RemoveFile(cx.scratch.join(format!("race-rules-{}-{k}.xml", std::process::id())));
      std::fs::write(&rules.0, RULES).unwrap();
      let path = rules.0.to_string_lossy().to_string();
      let shared = PatternFile::load(&path).expect("rules");
      let doc = gen::parse(&gen::latexml(&mut r, 2));
      let dnm = DNM::new(doc.get_root_readonly().unwrap(), llamapun::dnm::DNMParameters::llamapun_normalization());
      let tok = Tokenizer::default();
      let run = |pf: &PatternFile| {
        let mut senna = senna::senna::Senna::new(String::new());
        let mut v: Vec<String> = Vec::new();
        for s in tok.sentences(&dnm).into_iter().take(6) {
          let range = DNMRange { start: s.start, end: s.end.min(s.start + 120), dnm: &dnm };
          let a = senna.parse(range.get_plaintext(), senna::senna::SennaParseOptions { pos: true, psg: true });
          v.extend(match_sentence(pf, &a, &range, "s").unwrap().iter().map(digest_match));
        }
        v
      };
      let want = run(&shared);
      size = want.len();
      let got = together(threads, |i| if i % 2 == 0 { run(&shared) } else { run(&PatternFile::load(&path).unwrap()) });
      for g in got {
        cx.check(g == want, "patterns", || format!("a thread matches {:?}\nexpected {:?}", clip(&format!("{g:?}"), 400), clip(&format!("{want:?}"), 400)));
      }
    },
    _ => {},
  }
  if kind == 5 {
    // and a parallel walk that does everything
    cx.doing = "a parallel walk".into();
    let c = corpus(cx, k, 10, 2, false);
    let ext = extension(&mut r);
    let mut pc = parallel_data::Corpus::new(c.dir.to_string_lossy().to_string());
    pc.extension = ext.clone();
    let names = selected(&c.files, &ext);
    let one = parallel_data::Corpus::default();
    let want: HashMap<String, Vec<String>> = names.iter().map(|n| (n.clone(), digest_doc(Document::new(n.clone(), &one).unwrap()))).collect();
    let log: Mutex<HashMap<String, Vec<String>>> = Mutex::new(HashMap::new());
    let total = pool(threads).install(|| {
      pc.catalog_with_parallel_walk(|d| {
        let n = llamapun::stopwords::load().len() as u64;
        let p = d.path.clone();
        let g = digest_doc(d);
        log.lock().unwrap().insert(p, g);
        HashMap::from([("stopwords".to_string(), n)])
      })
    });
    let log = log.into_inner().unwrap();
    cx.check(log == want, "walk", || {
      let p = log.keys().chain(want.keys()).find(|p| log.get(*p) != want.get(*p));
      format!("{p:?}: {:?}, expected {:?}", p.and_then(|p| log.get(p)).map(|v| clip(&format!("{v:?}"), 400)), p.and_then(|p| want.get(p)).map(|v| clip(&format!("{v:?}"), 400)))
    });
    let n = llamapun::stopwords::load().len() as u64 * want.len() as u64;
    cx.check(total.get("stopwords").copied().unwrap_or(0) == n, "walk-total", || format!("total {total:?}, expected {n}"));
    cx.seen("documents walked", want.len() as u64);
  }
  cx.seen("threads", threads as u64);
  cx.seen(["shared flattenings", "document sets", "token models", "C calls", "pattern files", "walks"][kind as usize], 1);
  cx.sample(|| format!("{} ({threads} threads, size {size})", cx_doing(kind)));
  cx.eval(&(kind, hash_of(&k), threads), size >= 2);
}
fn cx_doing(kind: u64) -> &'static str { ["one DNM shared", "documents in parallel", "token models", "C interface", "patterns", "documents and a walk"][kind as usize] }
