//! C30 language filter.
use super::{Spec, BASE};
use crate::cx::{clip, Cx};
use crate::gen;
use llamapun::dnm::{DNMParameters, DNM};
use llamapun::util::data_helpers::invalid_for_english_latin;
use whatlang::{Info, Lang, Script};

pub fn specs() -> Vec<Spec> {
  vec![Spec { id: "C30", run: c30, rule: "distinct documents with a placeholder in the plaintext, and a scripted detection", quick: 400_000, ..BASE }]
}

fn c30(cx: &mut Cx, k: u64) {
  let r = &mut cx.rng;
  let xml = if k % 2_500 == 77 {
    // long texts, with placeholders near the end
    let p = *r.pick(&["<math/>", "<cite>x</cite>", "<a class=\"ltx_ref\">x</a>"]);
    format!("<html><body><p>{}{p}{}{p}</p></body></html>", gen::escape(&gen::long_text(r)), gen::escape(&gen::text(r, 8)))
  } else if k % 2_500 == 78 {
    format!("<html><body><p>{}x</p></body></html>", "<math/> <cite>y</cite><a class=\"ltx_ref\">z</a>".repeat(*r.pick(&[50, 300, 1_100])))
  } else if k % 4 == 0 {
    gen::latexml(r, 2)
  } else {
    let mut s = String::from("<html><body><p>");
    for _ in 0..r.range(0, 8) {
      match r.below(7) {
        0 => s.push_str("<math/>"),
        1 => s.push_str("<cite>x</cite>"),
        2 => s.push_str("<a class=\"ltx_ref\">x</a>"),
        3 => s.push_str(r.pick(&["REFREF", "PREFIX", "REF.", "ref", "Mathformula", "xCitationElementy", "mathREFformula", "citationelement", "CitationElementmathformula", "REFERENCE"])),
        4 => s.push_str("<table class=\"ltx_equation\"><tr/></table>"),
        _ => s.push_str(&gen::escape(&gen::text(r, 5))),
      }
      s.push_str(r.pick(&[" ", "", "\n"]));
    }
    s.push_str("</p></body></html>");
    s
  };
  let d = gen::parse(&xml);
  let dnm = DNM::new(d.get_root_readonly().unwrap(), DNMParameters::llamapun_normalization());
  let scripts = [Script::Latin, Script::Latin, Script::Latin, Script::Cyrillic, Script::Greek, Script::Mandarin, Script::Hebrew];
  let langs = [Lang::Eng, Lang::Deu, Lang::Fra, Lang::Rus, Lang::Spa, Lang::Cmn, Lang::Ell];
  let conf = *r.pick(&[0.0, 0.5, 0.9, 0.92, 0.929_999, 0.93, 0.930_001, 0.94, 0.95, 0.99, 1.0]);
  let answer = if r.chance(1, 6) { None } else { Some((*r.pick(&scripts), *r.pick(&langs), conf)) };
  whatlang::script_answer(answer.map(|(s, l, c)| Info::new(s, l, c)));
  let _ = whatlang::take_asked();
  cx.doing = format!("language filter on {:?} with detection {answer:?}", clip(&dnm.plaintext, 600));
  let got = invalid_for_english_latin(&dnm);
  let asked = whatlang::take_asked();
  let want = match answer {
    None => false,
    Some((s, l, c)) => s != Script::Latin || (l != Lang::Eng && c > 0.93),
  };
  // blank the placeholders out, one kind after the other
  let blank = |s: &str, w: &str| s.split(w).collect::<Vec<_>>().join(" ");
  let mut prose = blank(&dnm.plaintext, "mathformula");
  prose = blank(&prose, "CitationElement");
  prose = blank(&prose, "REF");
  let prose = prose.trim();
  cx.eval(&(dnm.plaintext.as_str(), conf.to_bits(), want), prose != dnm.plaintext);
  cx.seen(if want { "rejected" } else { "accepted" }, 1);
  cx.seen("detections observed", asked.len() as u64);
  cx.sample(|| format!("asked {:?}, answer {answer:?} => {got}", asked.first().map(|s| clip(s, 150))));
  cx.check(got == want, "verdict", || format!("detection {answer:?} judged invalid={got}, expected {want}\n{:?}", clip(&dnm.plaintext, 400)));
  cx.check(asked.iter().all(|a| a.split_whitespace().eq(prose.split_whitespace()) && a == a.trim()), "detected-text", || {
    format!("detection was asked about {:?}, expected {:?}", asked.iter().map(|a| clip(a, 300)).collect::<Vec<_>>(), clip(prose, 300))
  });
  // the verdict must come from a detection (or the text is blank)
  cx.check(!asked.is_empty() || prose.is_empty(), "no-detection", || format!("no detection took place for {:?}", clip(prose, 300)));
}

