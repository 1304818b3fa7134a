//! C14 math lexemes.
use super::{Spec, BASE};
use crate::cx::{clip, Cx, Rng};
use crate::gen::{self, Snap};
use libxml::xpath::Context;
use llamapun::dnm::node::lexematize_math;

pub fn specs() -> Vec<Spec> {
  vec![Spec { id: "C14", run: c14, rule: "distinct formulas with at least two lexemes, or glued markers, or several annotations", quick: 600_000, ..BASE }]
}

const ROLES: &[&str] = &[
  "ID", "UNKNOWN", "ADDOP", "MULOP", "RELOP", "OPEN", "CLOSE", "PUNCT", "FUNCTION", "OPFUNCTION", "TRIGFUNCTION", "OPERATOR", "BIGOP",
  "SUMOP", "INTOP", "ARROW", "POSTFIX", "SUPOP", "VERTBAR", "BINOP", "APPLYOP", "POSTSUBSCRIPT", "POSTSUPERSCRIPT", "OVERACCENT",
];
const GLUED: &[&str] = &[
  "OPFUNCTION", "OPERATOR", "OPEN", "CLOSE", "UNKNOWN", "RELOP", "ADDOP", "MULOP", "ARROW", "BIGOP", "BINOP", "ID", "OVERACCENT", "UNDERACCENT",
];

/// (as written, as expected)
fn lexeme(r: &mut Rng) -> (String, String) {
  let f = |s: &str| s.replace([':', '-'], "_");
  match r.below(10) {
    0 => (format!("NUMBER:{}", r.pick(&["3", "1.5", "12"])), "NUM".into()),
    1 => match r.below(3) {
      0 => (format!("ATOM:{}", r.pick(&["x", "a-b"])), "ATOM".into()),
      1 => ("ARRAY:matrix".into(), "ARRAY".into()),
      _ => ("SUPERSCRIPTOP:absent2".into(), "SUPERSCRIPTOP".into()),
    },
    2 | 3 => {
      let s = format!("{}:start", r.pick(&["POSTSUBSCRIPT", "POSTSUPERSCRIPT", "ID", "FRACOP", "ARRAY", "ATOM"]));
      let w = if s.starts_with("ARRAY") || s.starts_with("ATOM") { s[..s.find(':').unwrap()].to_string() } else { f(&s) };
      (s, w)
    },
    4 | 5 => {
      let s = format!("{}:end", r.pick(GLUED));
      let w = f(&s);
      (s, w)
    },
    6 => {
      let s = r.pick(&["POSTSUBSCRIPT:end", "POSTSUPERSCRIPT:end", "POSTFIX:end", "FRACOP:end", "italic-x", "x:y:z", "é"]).to_string();
      let w = f(&s);
      (s, w)
    },
    _ => {
      let s = format!("{}:{}", r.pick(ROLES), r.pick(&["italic-x", "equals", "plus", "(", "Greek-α", "x'", "norm-ℓ", "caligraphic-A"]));
      let w = f(&s);
      (s, w)
    },
  }
}

fn c14(cx: &mut Cx, k: u64) {
  let long = k % 4_000 == 77;
  let mut expected: Vec<String> = Vec::new();
  let r = &mut cx.rng;
  let mut glued = 0;
  let mut annotations = 0;
  let mut formula = |r: &mut Rng, expected: &mut Vec<String>| -> String {
    let pre = r.pick(&["", "m:"]).to_string();
    let id = if r.chance(1, 2) { format!(" id=\"S1.p{}.m1\"", r.below(3)) } else { String::new() };
    let mut s = format!("<{pre}math{id} alttext=\"x\"><{pre}semantics><{pre}mi>x:y</{pre}mi>");
    let many = if long { *r.pick(&[3, 20, 150]) } else { 3 };
    for _ in 0..r.range(0, many) {
      if r.chance(1, 4) {
        s.push_str(&format!("<{pre}annotation encoding=\"application/x-tex\">ID:tex</{pre}annotation>"));
        continue;
      }
      annotations += 1;
      s.push_str(&format!("<{pre}annotation encoding=\"application/x-llamapun\">"));
      if r.chance(1, 4) {
        s.push_str(r.pick(&[" ", "\n  ", ""]));
      }
      let n = if r.chance(1, 6) { 0 } else if long && r.chance(1, 2) { *r.pick(&[20, 70, 300, 3_000]) } else { r.range(1, 7) };
      let words: Vec<(String, String)> = (0..n).map(|_| lexeme(r)).collect();
      for (i, (w, e)) in words.iter().enumerate() {
        s.push_str(&gen::escape(w));
        expected.push(e.clone());
        let marker = w.ends_with(":start") || w.ends_with(":end");
        // a closing marker may also be glued to the lexeme before it
        let closes = words.get(i + 1).and_then(|x| x.0.strip_suffix(":end")).is_some_and(|x| GLUED.contains(&x));
        if (marker || closes) && i + 1 < n && r.chance(1, 2) {
          glued += 1;
        } else if i + 1 < n || r.chance(1, 4) {
          s.push_str(r.pick(&[" ", " ", " ", "\n", "  ", "\t"]));
        }
      }
      s.push_str(&format!("</{pre}annotation>"));
    }
    s.push_str(&format!("</{pre}semantics></{pre}math>"));
    s
  };
  let mut body = String::new();
  // an enclosing equation with one or more formulas; siblings must not contribute
  let mut noise = Vec::new();
  let before = formula(r, &mut noise);
  let n = if long { *r.pick(&[1, 3, 40]) } else { r.range(0, 2) };
  for _ in 0..n {
    body.push_str(&formula(r, &mut expected));
    body.push_str(r.pick(&["", " ", "<mo>=</mo>"]));
  }
  let after = formula(r, &mut noise);
  let xml = format!("<html xmlns:m=\"urn:m\"><body>{before}<div id=\"target\"><p>{body}</p></div>{after}</body></html>");
  cx.doing = xml.clone();
  let d = gen::parse(&xml);
  let mut ctx = Context::new(&d).unwrap();
  let snap = Snap::new(d.get_root_readonly().unwrap());
  let t = (0..snap.nodes.len()).find(|i| snap.nodes[*i].id.as_deref() == Some("target")).unwrap();
  let got = lexematize_math(snap.nodes[t].ro, &mut ctx);
  let want = if expected.is_empty() { "mathformula".to_string() } else { expected.join(" ") };
  cx.eval(body.as_str(), expected.len() >= 2 || glued > 0 || annotations > 1);
  cx.seen("lexemes", expected.len() as u64);
  cx.seen("glued markers", glued);
  cx.seen("annotations", annotations);
  cx.sample(|| format!("{body} => {want}"));
  cx.check(got == want, "lexemes", || format!("got {:?}\nexpected {:?}\nformula {}", clip(&got, 2_000), clip(&want, 2_000), clip(&body, 4_000)));
}
