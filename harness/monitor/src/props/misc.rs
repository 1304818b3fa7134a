//! C29 stopwords, C31 resource list and plots.
use super::{Spec, BASE};
use crate::cx::{clip, Cx};
use llamapun::stopwords;
use std::collections::HashSet;
use std::path::Path;

pub fn specs() -> Vec<Spec> {
  vec![
    Spec { id: "C29", run: c29, rule: "distinct words whose membership the classes of function and content words decide", quick: 64, fixed: 64, min_distinct: 180, ..BASE },
    Spec { id: "C31", run: c31, rule: "distinct directory trees with files of both kinds below a subdirectory, or plots of at least two points", quick: 8_000, min_distinct: 100, ..BASE },
  ]
}

/* ------------------------------------------------------------------ C29 */

const FUNCTION_WORDS: &str = "a an the this that these those \
i you he she it we they me him her us them my your his its our their mine yours hers ours theirs myself yourself himself herself itself ourselves yourselves themselves who whom whose which what whoever whatever whichever someone somebody something anyone anybody anything everyone everybody everything nobody nothing none one each either neither both all any some few many several much most other another such own same \
of in to for with on at from by about as into like through after over between out against during without before under around among within along across behind beyond except up down off above near below beside besides towards toward upon since until till onto despite throughout inside outside underneath concerning regarding via per amongst \
and but or nor so yet because although though while whereas if unless whether than when where once lest \
be am is are was were been being have has had having do does did doing will would shall should can could may might must ought cannot \
not no there here then thus hence therefore however moreover furthermore also only just still too very quite rather again further almost always never often sometimes already perhaps maybe else otherwise instead indeed nevertheless nonetheless meanwhile accordingly consequently why how \
isn't aren't wasn't weren't don't doesn't didn't can't couldn't won't wouldn't shouldn't haven't hasn't hadn't it's that's there's let's we'll you're they're i'm i've \
unto versus vs amid amidst alongside aside notwithstanding unlike whilst whomever whence whenever wherever thereby therein whereby wherein hereby \
herein hereafter hereupon thereafter thereupon whereafter whereupon whither hither thence mustn't needn't oughtn't mightn't mayn't shan't daren't \
ain't he'd he'll he's i'd i'll it'd it'll she'd she'll she's they'd they'll they've we'd we're we've what'll what's what've where's who'd who'll who's \
you'd you'll you've that'll that've there'd there'll there're there've here's c'mon fewer less least latter former respectively past apart no-one \
noone somewhat somewhere anywhere everywhere nowhere elsewhere somehow anyhow anyway sometime ever forever soon lately later twice usually mostly \
mainly merely nearly hardly likely unlikely clearly certainly probably presumably obviously exactly especially particularly namely likewise similarly \
regardless according considering provided given using used various necessary possible whole certain enough every more others ago away together ahead \
actually really forth far better best mr mrs two three six seven eight nine thirty ninety eighty let need dare came come become became becomes get \
gets got goes going went seem seems seemed make makes made take taken took say says said see seen know known one's ones et etc eg ie viz yes thing \
things self selves t's a's c's well now next last new \
thru inasmuch insofar howbeit thats theres cant doesn wasn isn wouldn afterwards beforehand anyways downwards upwards abroad";
const CONTENT_WORDS: &str = "theorem lemma proof function space group ring field equation matrix vector algorithm graph definition corollary conjecture integral polynomial operator manifold proposition axiom topology algebra category tensor kernel measure probability entropy energy quantum particle network protein galaxy neuron semantics compiler banach hilbert euler derivative convergence limit sequence series norm metric bound constant variable parameter estimate inequality symmetry curvature homology \
set point line number value time system model data method result problem paper section figure table water plane curve surface angle circle radius \
degree prime integer fraction ratio product sum difference quotient factor root square cube sphere mass force velocity momentum charge photon electron \
proton atom molecule cell gene species star planet temperature pressure volume density wave frequency amplitude phase signal noise filter image pixel \
color language grammar parser sentence word document corpus author title abstract keyword chapter appendix bibliography index page book journal \
student teacher university school country city history music house river mountain tree animal computer software hardware memory processor cache thread \
process database query schema server client protocol packet router spectrum orbit lattice crystal polymer membrane enzyme acid solvent catalyst \
reaction equilibrium gradient divergence laplacian hamiltonian lagrangian eigenvalue eigenvector basis dimension subspace isomorphism homomorphism \
automorphism bijection injection surjection permutation combination partition edge vertex path cycle forest clique automaton regex token alphabet \
string array list stack queue heap sort search complexity polynomials theorems lemmas proofs functions spaces groups rings fields equations matrices \
vectors algorithms graphs definitions formula citation \
mathformula citationelement CitationElement ref REF NUM Mathformula";

fn c29(cx: &mut Cx, k: u64) {
  let set = stopwords::load();
  let f: Vec<&str> = FUNCTION_WORDS.split_whitespace().collect();
  let c: Vec<&str> = CONTENT_WORDS.split_whitespace().collect();
  if k == 0 {
    for w in &set {
      cx.check(!w.is_empty() && !w.contains(char::is_whitespace) && **w == w.to_lowercase(), "shape", || format!("stopword {w:?} cannot be found by lowercasing a word"));
    }
    cx.seen("stopwords", set.len() as u64);
    // concurrent loads give the same set
    let sets: Vec<HashSet<&str>> = std::thread::scope(|s| {
      let hs: Vec<_> = (0..8).map(|_| s.spawn(stopwords::load)).collect();
      hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    cx.check(sets.iter().all(|s| *s == set), "same-set", || "concurrent loads differ".into());
    let mut own = stopwords::load();
    own.insert("theorem");
    own.remove("the");
    cx.check(stopwords::load() == set, "same-set", || "changing a loaded set changed later loads".into());
  }
  for (i, w) in f.iter().enumerate() {
    if i as u64 % 64 == k % 64 {
      cx.doing = format!("function word {w:?}");
      cx.eval(w, true);
      cx.seen("function words", 1);
      cx.check(set.contains(w), "function-word", || format!("the function word {w:?} is not a stopword"));
      // membership as the tokenizer tests it
      let up = w.to_uppercase();
      cx.check(set.contains(up.to_lowercase().as_str()), "function-word", || format!("{up:?} is not recognised"));
    }
  }
  for (i, w) in c.iter().enumerate() {
    if i as u64 % 64 == k % 64 {
      cx.eval(w, true);
      cx.seen("content words", 1);
      cx.check(!set.contains(w), "content-word", || format!("the content word {w:?} is a stopword"));
    }
  }
}

/* ------------------------------------------------------------------ C31 */

pub fn probe_resources() -> i32 {
  for d in llamapun::util::test::RESOURCE_DOCUMENTS.iter() {
    println!("{d}");
  }
  println!(".end");
  0
}

fn c31(cx: &mut Cx, k: u64) {
  let dir = cx.scratch.join(format!("c31-{k}"));
  std::fs::create_dir_all(&dir).expect("scratch");
  if k % 2 == 0 {
    resources(cx, &dir)
  } else {
    plot(cx, &dir)
  }
  let _ = std::fs::remove_dir_all(&dir);
}

fn resources(cx: &mut Cx, dir: &Path) {
  let r = &mut cx.rng;
  let root = dir.join("tests/resources");
  std::fs::create_dir_all(&root).unwrap();
  std::fs::write(dir.join("tests/outside.html"), "x").unwrap();
  let mut dirs = vec![root];
  for i in 0..r.below(5) {
    let p = r.pick(&dirs).join(r.pick(&["sub", "a.html", "b.xhtml", ".hidden", "deep dir", "c.txt"])).join(format!("d{i}"));
    std::fs::create_dir_all(&p).unwrap();
    dirs.push(p);
  }
  let mut want: Vec<String> = Vec::new();
  let (mut deep, mut links) = (0, 0);
  for i in 0..r.range(0, 14) {
    let stem = format!("{}{i}", r.pick(&["doc", "0903.", "a b", "é", "x.y", "-"]));
    let ext = *r.pick(&["html", "xhtml", "xhtml", "html", "htm", "txt", "html5", "HTML", "xml", "", "html.gz", "xxhtml"]);
    let name = if ext.is_empty() { stem.clone() } else { format!("{stem}.{ext}") };
    let d = r.pick(&dirs).clone();
    std::fs::write(d.join(&name), "<html/>").unwrap();
    if ext == "html" || ext == "xhtml" {
      want.push(stem);
      if d != dirs[0] {
        deep += 1;
      }
    }
  }
  // symbolic links: to documents (documents), to directories and to nothing (neither)
  if r.chance(1, 4) {
    let d = r.pick(&dirs).clone();
    let to = match r.below(4) {
      0 => {
        want.push("linked".into());
        std::os::unix::fs::symlink(dir.join("tests/outside.html"), d.join("linked.html")).unwrap();
        dir.join("tests/outside.html")
      },
      1 => dir.join("nothing"),
      2 => d.clone(),
      _ => {
        std::fs::create_dir_all(dir.join("elsewhere")).unwrap();
        dir.join("elsewhere")
      },
    };
    std::os::unix::fs::symlink(to, d.join(r.pick(&["link", "link.d", "link.txt", "html"]))).unwrap();
    links = 1;
  }
  if r.chance(1, 40) {
    // deep nesting, many files
    let mut d = r.pick(&dirs).clone();
    for i in 0..r.range(5, 40) {
      d = d.join(format!("n{i}"));
    }
    std::fs::create_dir_all(&d).unwrap();
    for i in 0..*r.pick(&[1, 3, 300]) {
      std::fs::write(d.join(format!("m{i}.{}", if i % 2 == 0 { "xhtml" } else { "html" })), "").unwrap();
      want.push(format!("m{i}"));
      deep += 1;
    }
  }
  want.sort();
  cx.seen("symbolic links", links);
  cx.doing = format!("resource list below {}", dir.display());
  let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("probe-resources").current_dir(dir).output().expect("probe");
  let text = String::from_utf8_lossy(&out.stdout).to_string();
  let mut got: Vec<String> = text.lines().map(str::to_string).collect();
  let complete = got.pop().as_deref() == Some(".end");
  got.sort();
  cx.eval(&want, deep > 0 && want.len() > deep);
  cx.seen("resource files", want.len() as u64);
  cx.seen("resource files in subdirectories", deep as u64);
  cx.sample(|| format!("resources {want:?}"));
  cx.check(complete, "resource-crash", || format!("listing the resources failed: {}", clip(&String::from_utf8_lossy(&out.stderr), 500)));
  cx.check(!complete || got == want, "resources", || format!("listed {got:?}, expected {want:?}"));
}

fn plot(cx: &mut Cx, dir: &Path) {
  use std::os::unix::fs::PermissionsExt;
  let bin = dir.join("bin");
  std::fs::create_dir_all(&bin).unwrap();
  let script = bin.join("gnuplot");
  let out = dir.join("commands");
  std::fs::write(&script, format!("#!/bin/sh\ncase \"$1\" in --version) echo gnuplot 5.4 patchlevel 0; exit;; esac\nexec /bin/cat >> '{}'\n", out.display())).unwrap();
  std::fs::set_permissions(&script, std::fs::Permissions::from_mode(0o755)).unwrap();
  std::env::set_var("PATH", format!("{}:/usr/bin:/bin", bin.display()));
  let r = &mut cx.rng;
  let n = if r.chance(1, 100) { *r.pick(&[300, 5_000, 70_000]) } else if r.chance(1, 8) { r.range(1, 200) } else { r.range(0, 12) };
  let map: Vec<(i64, usize)> = (0..n)
    .map(|_| {
      let k = if r.chance(1, 3) { r.below(4) as i64 } else { r.below(100_000) as i64 - 50_000 };
      let c = match r.below(4) {
        0 => 1usize << r.below(40),
        1 => r.below(3),
        _ => r.below(1_000_000),
      };
      (k, c)
    })
    .collect();
  let label = |r: &mut crate::cx::Rng| format!("{} {}", r.pick(&["Frequency", "x \"quoted\"", "a\\b", "größe", "%d"]), r.below(1000));
  let (x, y, t) = (label(r), label(r), label(r));
  let path = dir.join(format!("plot {}.png", r.below(100))).display().to_string();
  cx.doing = format!("plotting {:?}", map.iter().take(8).collect::<Vec<_>>());
  llamapun::util::plot::plot_simple(&map, &x, &y, &t, &path);
  let raw = std::fs::read(&out).unwrap_or_default();
  let mark = b"format=\"%float64\"";
  let header_end = raw.windows(mark.len()).position(|w| w == mark).and_then(|i| raw[i..].iter().position(|b| *b == b'\n').map(|j| i + j + 1));
  let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
  cx.eval(&(&map, &x, &y), n >= 2);
  cx.seen("plotted points", n as u64);
  let Some(h) = header_end else {
    cx.fail("plot-stream", format!("no point data was handed to the plotting program: {:?}", clip(&String::from_utf8_lossy(&raw), 600)));
    return;
  };
  let head = String::from_utf8_lossy(&raw[..h]).to_string();
  cx.sample(|| format!("{:?} => {:?}", clip(&format!("{map:?}"), 150), head.lines().last()));
  let pts: Vec<(f64, f64)> = raw[h..]
    .chunks_exact(16)
    .take(n)
    .map(|c| (f64::from_le_bytes(c[..8].try_into().unwrap()), f64::from_le_bytes(c[8..].try_into().unwrap())))
    .collect();
  let want: Vec<(f64, f64)> = map.iter().map(|(k, c)| (*k as f64, (*c as f64).log2())).collect();
  let same = pts.len() == want.len() && pts.iter().zip(&want).all(|(a, b)| a.0 == b.0 && (a.1 == b.1 || (a.1 - b.1).abs() < 1e-9));
  cx.check(same, "points", || format!("points {:?}\nexpected {:?}", &pts[..pts.len().min(6)], &want[..want.len().min(6)]));
  let rec = format!("record={n} ");
  cx.check(head.lines().last().is_some_and(|l| l.contains(&rec)), "point-count", || format!("{:?} does not announce {n} points", head.lines().last()));
  for (what, w) in [
    ("x label", format!("set xlabel \"{}\"", esc(&x))),
    ("y label", format!("set ylabel \"{}\"", esc(&y))),
    ("title", format!("set title \"{}\"", esc(&t))),
    ("output", format!("set output \"{}\"", esc(&path))),
  ] {
    cx.check(head.lines().any(|l| l.starts_with(&w)), what, || format!("the {what} command {w:?} is missing in\n{}", clip(&head, 1500)));
  }
}
