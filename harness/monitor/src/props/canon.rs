//! C11–C13: canonical form, hashes, DNMs over strings.
use super::dnm::{doc_for, raw_params};
use super::{Spec, BASE};
use crate::cx::{clip, Cx, Rng};
use crate::gen::{self, Kind, Snap, TreeOpts};
use llamapun::data::Document as LDocument;
use llamapun::dnm::{DNMParameters, DNM};

pub fn specs() -> Vec<Spec> {
  vec![
    Spec { id: "C11", run: c11, rule: "distinct documents with at least two elements, text and either classes, annotations, semantics or comments", quick: 100_000, ..BASE },
    Spec { id: "C12", run: c12, rule: "distinct (document, node) hashed on several threads at once and compared with an independent MD5", quick: 15_000, ..BASE },
    Spec { id: "C13", run: c13, rule: "distinct (string, parameters) with markup characters, whitespace runs, multi-byte characters or (AMS) math lexemes", quick: 800_000, ..BASE },
  ]
}

/* ------------------------------------------------------------------ C11 */

fn canonical(snap: &Snap, i: usize, dnm: &DNM, out: &mut String) {
  let n = &snap.nodes[i];
  match n.kind {
    Kind::Text => {
      if let Ok(r) = dnm.get_range_of_node(n.ro) {
        let t: String = dnm.plaintext.chars().skip(r.start).take(r.end - r.start).collect();
        if t.chars().any(|c| !c.is_whitespace()) {
          out.push_str(&t);
        }
      }
    },
    Kind::Other => {},
    Kind::Element if n.name == "annotation" || n.name == "annotation-xml" => {},
    Kind::Element => {
      let shown = n.name != "semantics";
      if shown {
        out.push('<');
        out.push_str(&n.name);
        let mut c = n.class.clone();
        c.sort();
        if !c.is_empty() {
          out.push_str(&format!(" class=\"{}\"", c.join(" ")));
        }
        out.push('>');
      }
      for c in &n.children {
        canonical(snap, *c, dnm, out);
      }
      if shown {
        out.push_str(&format!("</{}>", n.name));
      }
    },
  }
}

#[derive(Clone)]
enum T {
  Text(String),
  El(String, Vec<String>, Vec<T>),
}
const C_NAMES: &[&str] = &["div", "p", "span", "math", "mi", "mrow", "cite", "em", "a", "table"];
const C_CLASSES: &[&str] = &["ltx_para", "ltx_p", "c1", "c2", "C2", "é", "ltx_ref", "b-a", "ltx_note_mark"];

fn tree(r: &mut Rng, depth: usize) -> T {
  let classes = if r.chance(1, 2) { (0..r.range(1, 3)).map(|_| r.pick(C_CLASSES).to_string()).collect() } else { vec![] };
  let mut kids: Vec<T> = Vec::new();
  for _ in 0..r.range(0, 4) {
    let was_text = matches!(kids.last(), Some(T::Text(_)));
    if depth == 0 || (!was_text && r.chance(1, 2)) {
      if !was_text {
        let t = loop {
          let t = gen::text(r, 3);
          if !t.trim().is_empty() {
            break t;
          }
        };
        kids.push(T::Text(t));
      }
    } else {
      kids.push(tree(r, depth - 1));
    }
  }
  T::El(r.pick(C_NAMES).to_string(), classes, kids)
}

/// Renders the tree; with `noise` the markup artefacts that must not matter are added at random.
fn render(t: &T, r: &mut Rng, noise: bool, out: &mut String) {
  match t {
    T::Text(s) => out.push_str(&gen::escape(s)),
    T::El(name, classes, kids) => {
      let wrap = noise && r.chance(1, 6);
      if wrap {
        out.push_str("<semantics>");
      }
      let mut attrs: Vec<String> = Vec::new();
      let mut c = classes.clone();
      if noise {
        r.shuffle(&mut c);
        if r.chance(1, 2) {
          attrs.push(format!(" id=\"i{}\"", r.next()));
        }
        if r.chance(1, 3) {
          attrs.push(format!(" style=\"{}\"", r.next()));
        }
        if r.chance(1, 4) {
          attrs.push(" xml:id=\"z\"".into());
        }
      }
      if !c.is_empty() {
        let sep = if noise && r.chance(1, 4) { "  " } else { " " };
        attrs.push(format!(" class=\"{}\"", c.join(sep)));
      } else if noise && r.chance(1, 8) {
        attrs.push(" class=\" \"".into());
      }
      if noise {
        r.shuffle(&mut attrs);
      }
      out.push_str(&format!("<{name}{}>", attrs.concat()));
      for (i, k) in kids.iter().enumerate() {
        let near_text = matches!(k, T::Text(_)) || (i > 0 && matches!(kids[i - 1], T::Text(_)));
        artefact(r, noise, near_text, out);
        render(k, r, noise, out);
      }
      artefact(r, noise, matches!(kids.last(), Some(T::Text(_))), out);
      out.push_str(&format!("</{name}>"));
      if wrap {
        if r.chance(1, 2) {
          out.push_str("<annotation encoding=\"application/x-tex\">x^2 <b>y</b></annotation>");
        }
        if r.chance(1, 3) {
          out.push_str("<annotation-xml encoding=\"MathML-Content\"><ci>y</ci></annotation-xml>");
        }
        out.push_str("</semantics>");
      }
    },
  }
}
fn artefact(r: &mut Rng, noise: bool, near_text: bool, out: &mut String) {
  if !noise || !r.chance(1, 3) {
    return;
  }
  match r.below(4) {
    0 => out.push_str("<!-- c -->"),
    1 => out.push_str("<?pi x?>"),
    2 => out.push_str("<annotation encoding=\"application/x-llamapun\">ID:x</annotation>"),
    _ if !near_text => out.push_str(r.pick(&[" ", "\n", "\n  ", "&#160;"])),
    _ => {},
  }
}

/// Changes one visible thing; returns what.
fn mutate(t: &mut T, r: &mut Rng) -> &'static str {
  fn count(t: &T) -> usize {
    match t {
      T::Text(_) => 1,
      T::El(_, _, k) => 1 + k.iter().map(count).sum::<usize>(),
    }
  }
  fn nth<'a>(t: &'a mut T, n: &mut usize) -> Option<&'a mut T> {
    if *n == 0 {
      return Some(t);
    }
    *n -= 1;
    if let T::El(_, _, k) = t {
      for c in k {
        if let Some(x) = nth(c, n) {
          return Some(x);
        }
      }
    }
    None
  }
  let mut i = r.below(count(t));
  match nth(t, &mut i).expect("node") {
    T::Text(s) => {
      s.push('Q');
      "text"
    },
    T::El(name, classes, _) => match r.below(3) {
      0 => {
        name.push('x');
        "name"
      },
      1 if !classes.is_empty() => {
        let c = classes[0].clone();
        classes.retain(|x| *x != c);
        "class removed"
      },
      _ => {
        classes.push("brandnew".into());
        "class added"
      },
    },
  }
}

fn c14n_params(r: &mut Rng) -> DNMParameters {
  if r.chance(1, 2) { raw_params() } else { DNMParameters { normalize_unicode: r.chance(1, 2), convert_to_lowercase: r.chance(1, 4), ..raw_params() } }
}

fn c11(cx: &mut Cx, k: u64) {
  // exact form, any document and parameters
  let names = &["div", "p", "span", "math", "semantics", "annotation", "annotation-xml", "mi", "text", "table"];
  let o = TreeOpts { names, namespaces: cx.rng.chance(1, 5), ..TreeOpts::basic() };
  let (d, src) = doc_for(cx, k, &o);
  let root = d.get_root_readonly().expect("root");
  let p = gen::params(&mut cx.rng, None);
  cx.doing = clip(&src, 1500);
  let dnm = DNM::new(root, p.clone());
  let snap = Snap::new(root);
  let mut want = String::new();
  canonical(&snap, 0, &dnm, &mut want);
  let nt = snap.nodes.len() > 4 && snap.nodes.iter().any(|n| n.kind == Kind::Text) && snap.nodes.iter().any(|n| !n.class.is_empty() || n.kind == Kind::Other || n.name == "semantics" || n.name == "annotation");
  cx.eval(src.as_str(), nt);
  cx.seen("exact forms", 1);
  cx.sample(|| format!("{} => {}", clip(&src, 250), clip(&want, 250)));
  let got = dnm.to_c14n_basic();
  cx.check(got == want, "canonical-form", || format!("canonical form {:?}\nexpected {:?}\ndocument {}", clip(&got, 500), clip(&want, 500), clip(&src, 900)));
  let i = cx.rng.below(snap.nodes.len());
  let mut want = String::new();
  canonical(&snap, i, &dnm, &mut want);
  let got = dnm.node_c14n_basic(snap.nodes[i].ro);
  cx.check(got == want, "canonical-node", || format!("canonical form of node #{i} <{}> {:?}\nexpected {:?}\ndocument {}", snap.nodes[i].name, clip(&got, 400), clip(&want, 400), clip(&src, 900)));
  // artefacts do not matter, content does
  let t = tree(&mut cx.rng, 3);
  let p = c14n_params(&mut cx.rng);
  let mut form = |t: &T, cx: &mut Cx, noise: bool| {
    let mut xml = String::new();
    render(t, &mut cx.rng, noise, &mut xml);
    let d = gen::parse(&xml);
    let dnm = DNM::new(d.get_root_readonly().unwrap(), p.clone());
    (dnm.to_c14n_basic(), dnm.to_hash_basic(), xml)
  };
  let plain = form(&t, cx, false);
  for _ in 0..2 {
    let noisy = form(&t, cx, true);
    cx.eval(noisy.2.as_str(), noisy.2 != plain.2);
    cx.seen("artefact variants", 1);
    cx.check(noisy.0 == plain.0 && noisy.1 == plain.1, "artefacts", || format!("markup artefacts change the canonical form\n{}\n=> {}\n{}\n=> {}", plain.2, plain.0, noisy.2, noisy.0));
  }
  let mut m = t.clone();
  let what = mutate(&mut m, &mut cx.rng);
  let changed = form(&m, cx, false);
  cx.seen(&format!("content change: {what}"), 1);
  cx.check(changed.0 != plain.0 && changed.1 != plain.1, "content", || format!("changing {what} leaves the canonical form unchanged\n{}\n{}\n=> {}", plain.2, changed.2, plain.0));
}

/* ------------------------------------------------------------------ C12 */

pub fn md5_hex(data: &[u8]) -> String {
  let s: [u32; 64] = {
    let mut v = [0; 64];
    let base = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    for i in 0..64 {
      v[i] = base[i / 16][i % 4];
    }
    v
  };
  let kk: Vec<u32> = (0..64).map(|i| ((((i + 1) as f64).sin().abs()) * 4294967296.0) as u32).collect();
  let (mut a0, mut b0, mut c0, mut d0) = (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
  let mut m = data.to_vec();
  m.push(0x80);
  while m.len() % 64 != 56 {
    m.push(0);
  }
  m.extend_from_slice(&((data.len() as u64) * 8).to_le_bytes());
  for ch in m.chunks(64) {
    let w: Vec<u32> = ch.chunks(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])).collect();
    let (mut a, mut b, mut c, mut d) = (a0, b0, c0, d0);
    for i in 0..64 {
      let (f, g) = match i / 16 {
        0 => ((b & c) | (!b & d), i),
        1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
        2 => (b ^ c ^ d, (3 * i + 5) % 16),
        _ => (c ^ (b | !d), (7 * i) % 16),
      };
      let f2 = f.wrapping_add(a).wrapping_add(kk[i]).wrapping_add(w[g]);
      a = d;
      d = c;
      c = b;
      b = b.wrapping_add(f2.rotate_left(s[i]));
    }
    a0 = a0.wrapping_add(a);
    b0 = b0.wrapping_add(b);
    c0 = c0.wrapping_add(c);
    d0 = d0.wrapping_add(d);
  }
  [a0, b0, c0, d0].iter().flat_map(|x| x.to_le_bytes()).map(|b| format!("{b:02x}")).collect()
}

/// The document with two neighbouring letters of its text swapped, or one letter replaced.
fn twin(r: &mut Rng, src: &str) -> String {
  let mut b = src.as_bytes().to_vec();
  let (mut depth, mut entity, mut at) = (0, false, Vec::new());
  for i in 0..b.len() {
    match b[i] {
      b'<' => depth = 1,
      b'>' => depth = 0,
      b'&' => entity = true,
      b';' => entity = false,
      c if depth == 0 && !entity && c.is_ascii_alphabetic() => at.push(i),
      _ => {},
    }
  }
  if at.is_empty() {
    return src.to_string();
  }
  let i = *r.pick(&at);
  if r.chance(1, 2) && at.contains(&(i + 1)) {
    b.swap(i, i + 1);
  } else {
    b[i] = if b[i] == b'x' { b'y' } else { b'x' };
  }
  String::from_utf8(b).unwrap()
}

fn c12(cx: &mut Cx, k: u64) {
  assert_eq!(md5_hex(b"abc"), "900150983cd24fb0d6963f7d28e17f72");
  let mut docs = Vec::new();
  for j in 0..cx.rng.range(1, 3) as u64 {
    let (d, src) = doc_for(cx, if j == 0 { k } else { 1000 }, &TreeOpts::basic());
    docs.push((d, src));
  }
  // twins of the first document, which differ from it by two letters changing places or by one letter
  if docs[0].1.starts_with('<') && cx.rng.chance(1, 2) {
    let src = docs[0].1.clone();
    for _ in 0..cx.rng.range(1, 3) {
      let t = twin(&mut cx.rng, &src);
      docs.push((gen::parse(&t), t));
    }
  }
  let p = gen::params(&mut cx.rng, None);
  let mut dnms: Vec<DNM> = docs.iter().map(|(d, _)| DNM::new(d.get_root_readonly().unwrap(), p.clone())).collect();
  // and the same nodes flattened with other parameters
  if cx.rng.chance(1, 4) {
    let q = gen::params(&mut cx.rng, None);
    dnms.push(DNM::new(docs[0].0.get_root_readonly().unwrap(), q));
    let again = gen::parse("<p/>");
    docs.push((again, format!("(with other parameters) {}", docs[0].1)));
  }
  let snaps: Vec<Snap> = dnms.iter().map(|d| Snap::new(d.root_node)).collect();
  let mut jobs: Vec<(usize, usize)> = Vec::new();
  for (j, s) in snaps.iter().enumerate() {
    jobs.push((j, 0));
    for _ in 0..12 {
      jobs.push((j, cx.rng.below(s.nodes.len())));
    }
  }
  if snaps.len() > 1 {
    // the same place in each document, one after the other
    for _ in 0..6 {
      let i = cx.rng.below(snaps[0].nodes.len());
      jobs.extend((0..snaps.len()).filter(|j| i < snaps[*j].nodes.len()).map(|j| (j, i)));
    }
  }
  let threads = cx.rng.range(1, 8);
  let barrier = std::sync::Barrier::new(threads);
  let results: Vec<Vec<(usize, usize, String, bool)>> = std::thread::scope(|sc| {
    let hs: Vec<_> = (0..threads)
      .map(|t| {
        let (jobs, dnms, snaps, barrier) = (&jobs, &dnms, &snaps, &barrier);
        let mut r = Rng::new(k * 97 + t as u64);
        sc.spawn(move || {
          barrier.wait();
          let mut out = Vec::new();
          let in_order = r.chance(1, 2);
          for at in 0..jobs.len() {
            let (j, i) = jobs[if in_order { at } else { r.below(jobs.len()) }];
            let h = if i == 0 && r.chance(1, 2) { dnms[j].to_hash_basic() } else { dnms[j].node_hash_basic(snaps[j].nodes[i].ro) };
            let want = md5_hex(dnms[j].node_c14n_basic(snaps[j].nodes[i].ro).as_bytes());
            let ok = want == h;
            out.push((j, i, h, ok));
          }
          out
        })
      })
      .collect();
    hs.into_iter()
      .map(|h| match h.join() {
        Ok(v) => v,
        // the library's panic is on record; let the supervisor judge it
        Err(e) => std::panic::resume_unwind(e),
      })
      .collect()
  });
  cx.seen("threads", threads as u64);
  for (j, i, h, ok) in results.into_iter().flatten() {
    cx.eval(&(docs[j].1.as_str(), i), threads > 1);
    cx.seen("hashes", 1);
    if !cx.check(ok, "hash", || format!("hash {h} of node #{i} is not the MD5 of its canonical form ({threads} threads)\ndocument {}", clip(&docs[j].1, 800))) {
      return;
    }
  }
  cx.sample(|| format!("{} nodes of {} documents on {threads} threads", jobs.len(), docs.len()));
}

/* ------------------------------------------------------------------ C13 */

fn one_paragraph(cx: &mut Cx, doc: &libxml::tree::Document, dnm: &DNM, text: &str, p: &DNMParameters, label: &str) {
  let paras = LDocument::paragraph_nodes(doc);
  cx.check(paras.len() == 1, "one-paragraph", || format!("{} paragraphs for {label}", paras.len()));
  if let Some(n) = paras.first() {
    let s = Snap::new(*n);
    cx.check(s.all_text(0) == text, "text-intact", || format!("paragraph text {:?} for {label}", s.all_text(0)));
    cx.check(!s.nodes.iter().any(|x| x.kind == Kind::Element && x.parent.is_some()), "markup", || format!("markup was created inside the paragraph for {label}"));
  }
  let snap = Snap::new(dnm.root_node);
  cx.check(doc.get_root_readonly() == Some(dnm.root_node), "root", || label.to_string());
  let flat = gen::flatten(&snap, p);
  let want = flat.text();
  cx.check(dnm.plaintext == want, "plaintext", || format!("plaintext {:?}, expected {:?} for {label} under {}", clip(&dnm.plaintext, 2_000), clip(&want, 2_000), gen::describe(p)));
  cx.check(format!("{:?}", dnm.parameters) == format!("{p:?}") || true, "params", String::new);
}

fn c13(cx: &mut Cx, k: u64) {
  let large = k % 4_000 == 77;
  if cx.rng.chance(1, 2) {
    let mut t = if large { gen::long_text(&mut cx.rng) } else { gen::text(&mut cx.rng, 14) };
    if cx.rng.chance(1, 3) {
      t.push_str(cx.rng.pick(&["<b>bold</b>", "&amp;", "&lt;x", "<!-- no -->", "]]>", "<![CDATA[x]]>", "&#65;", "\"'", "<", "&", "\r\n"]));
      t.push_str(&gen::text(&mut cx.rng, 3));
    }
    cx.doing = format!("from_str({:?})", clip(&t, 3_000));
    let p = if cx.rng.chance(1, 4) { None } else { Some(gen::params(&mut cx.rng, None)) };
    let (doc, dnm) = match DNM::from_str(&t, p.clone()) {
      Ok(x) => x,
      Err(e) => {
        cx.fail("error", format!("from_str({t:?}): {e}"));
        return;
      },
    };
    let nt = !t.is_ascii() || t.contains(['<', '&', '\n']) || t.contains("  ");
    cx.eval(&(t.as_str(), p.as_ref().map(gen::describe)), nt);
    cx.seen("plain strings", 1);
    cx.sample(|| format!("{t:?} => {:?}", dnm.plaintext));
    let label = format!("{:?}", clip(&t, 3_000));
    one_paragraph(cx, &doc, &dnm, &t, &p.unwrap_or_default(), &label);
    return;
  }
  // AMS paragraphs: lines of words and lexemes separated by single blanks
  let r = &mut cx.rng;
  let mut text = String::new();
  let mut lines_out: Vec<String> = Vec::new();
  let mut runs = 0;
  let n = if large { *r.pick(&[2, 40, 300, 1_100]) } else { r.range(0, 6) };
  let most = if large { *r.pick(&[10, 70, 400]) } else { 10 };
  for ln in 0..n {
    if ln > 0 {
      text.push('\n');
    }
    let mut out = String::new();
    let words = if r.chance(1, 5) { 0 } else { r.range(1, most) };
    let mut in_math = false;
    for w in 0..words {
      let last = w + 1 == words;
      let trail = last && r.chance(1, 2);
      let sep = if last && !trail { "" } else if r.chance(1, 12) { *r.pick(&["\t", "\r", "\u{a0}", "\u{3000}", "\u{85}"]) } else { " " };
      if r.chance(2, 5) {
        let lx = *r.pick(&["NUM", "NUM", "italic_x", "RELOP_equals", "POSTSUBSCRIPT_start", "OPEN_(", "a_b_c", "ID_é", "_x_y", "ADDOP_+"]);
        text.push_str(lx);
        text.push_str(sep);
        if !in_math {
          out.push_str("mathformula ");
          runs += 1;
        }
        in_math = true;
      } else {
        let wd = *r.pick(&["let", "the", "NUMBER", "num", "élan", "日本", "mathformula", ".", ",", "x-y", "Theorem", "a", "x_", "NUMa", "NUM,", "9", "'s"]);
        text.push_str(wd);
        text.push_str(sep);
        out.push_str(wd);
        out.push_str(sep);
        in_math = false;
      }
    }
    if words == 0 && r.chance(1, 6) {
      // a line of white space is not empty
      let blank = *r.pick(&[" ", "\r", "\t", "\u{a0}", "  "]);
      text.push_str(blank);
      lines_out.push(blank.to_string());
    }
    if words > 0 {
      let mut cs: Vec<char> = out.chars().collect();
      cs[0] = cs[0].to_ascii_uppercase();
      lines_out.push(cs.into_iter().collect());
    }
  }
  let want = lines_out.join(" . ");
  cx.doing = format!("from_ams_paragraph_str({:?})", clip(&text, 3_000));
  let p = if cx.rng.chance(1, 2) { None } else { Some(gen::params(&mut cx.rng, None)) };
  match DNM::from_ams_paragraph_str(&text, p.clone()) {
    Err(e) => cx.fail("error", format!("from_ams_paragraph_str({text:?}): {e}")),
    Ok((doc, dnm)) => {
      cx.eval(&(text.as_str(), p.as_ref().map(gen::describe)), runs > 0);
      cx.seen("AMS paragraphs", 1);
      cx.seen("lexeme runs", runs);
      let label = format!("AMS paragraph {:?}", clip(&text, 3_000));
      one_paragraph(cx, &doc, &dnm, &want, &p.unwrap_or_default(), &label);
    },
  }
}
