//! C32 XML helper queries: the functions are private to the library; the part crate exports them.
use super::{Spec, BASE};
use crate::cx::{clip, Cx};
use crate::gen::{self, TreeOpts};
use libxml::readonly::RoNode;
use libxml::tree::NodeType;
use llamapun::patterns::utils::*;

pub fn specs() -> Vec<Spec> {
  vec![Spec { id: "C32", run: c32, rule: "distinct elements with at least one child", quick: 500_000, ..BASE }]
}

fn c32(cx: &mut Cx, k: u64) {
  let r = &mut cx.rng;
  let o = TreeOpts { depth: 3, width: 3, text: 2, ..TreeOpts::basic() };
  let mut src = if k % 1_500 == 77 { gen::large_document(r, &o) } else { gen::document(r, &o) };
  if r.chance(1, 3) {
    let extra = *r.pick(&["<x> t </x>", "<x/>", "<x>t<!-- c --></x>", "<x><!-- c --></x>", "<x>  </x>", "<x><![CDATA[ d ]]></x>", "<x><y/> <y/></x>", "<x>\u{a0}<y/></x>", "<x>a<y/></x>", "<x><?p i?></x>", "<x> <!-- c --> <y/></x>"]);
    src = src.replace("</body>", &format!("{extra}</body>"));
  }
  let d = gen::parse(&src);
  let mut nodes = vec![d.get_root_readonly().unwrap()];
  let mut i = 0;
  while i < nodes.len() {
    nodes.extend(kids(nodes[i]).into_iter().filter(|n| n.get_type() == Some(NodeType::ElementNode)));
    i += 1;
  }
  for n in nodes.into_iter().take(25) {
    let all = kids(n);
    let ty = |x: &RoNode| x.get_type().unwrap();
    let blank = |x: &RoNode| x.get_content().chars().all(char::is_whitespace);
    let shape: Vec<String> = all.iter().take(300).map(|c| format!("{:?}:{}", ty(c), clip(&c.get_content(), 20))).collect();
    let what = format!("<{}> with children {shape:?}", n.get_name());
    cx.doing = what.clone();
    cx.eval(what.as_str(), !all.is_empty());
    cx.seen("elements", 1);
    cx.sample(|| what.clone());
    let h = |v: &[RoNode]| v.iter().map(|x| x.to_hashable()).collect::<Vec<_>>();

    for trim in [false, true] {
      let want = match all.as_slice() {
        [] => Some(String::new()),
        [t] if ty(t) == NodeType::TextNode => Some(if trim { t.get_content().trim().to_string() } else { t.get_content() }),
        _ => None,
      };
      let got = get_simple_node_content(n, trim).ok();
      cx.check(got == want, "simple-content", || format!("simple content {got:?}, expected {want:?}: {what}"));
    }
    let rest: Vec<RoNode> = all.iter().copied().filter(|c| ty(c) != NodeType::TextNode && ty(c) != NodeType::CommentNode).collect();
    let fast = fast_get_non_text_children(n);
    let elements: Vec<RoNode> = all.iter().copied().filter(|c| ty(c) == NodeType::ElementNode).collect();
    cx.check(h(&fast) == h(&elements), "fast-children", || format!("fast listing has {} children, expected {}: {what}", fast.len(), elements.len()));
    let stray = all.iter().any(|c| ty(c) == NodeType::TextNode && !blank(c));
    let strict = get_non_text_children(n);
    cx.check(strict.is_err() == stray, "strict-children", || format!("strict listing is_err={}, non-blank text={stray}: {what}", strict.is_err()));
    if let Ok(v) = &strict {
      cx.check(h(v) == h(&rest), "strict-children", || format!("strict listing has {} children, expected {}: {what}", v.len(), rest.len()));
    }
    let only = get_only_child(n);
    let one = !stray && rest.len() == 1;
    cx.check(only.is_ok() == one, "only-child", || format!("only child ok={}, expected {one}: {what}", only.is_ok()));
    if let Ok(c) = only {
      cx.check(one && c.to_hashable() == rest[0].to_hashable(), "only-child", || format!("wrong only child: {what}"));
    }
    let none = assert_no_child(n).is_ok();
    cx.check(none == (!stray && rest.is_empty()), "no-child", || format!("no child {none}: {what}"));
    for a in ["class", "id", "title", "nosuch", "Class"] {
      let got = require_node_property(n, a).ok();
      let want = n.get_attributes().get(a).cloned();
      cx.seen(if want.is_some() { "attributes present" } else { "attributes missing" }, 1);
      cx.check(got == want, "attribute", || format!("attribute {a} is {got:?}, expected {want:?}: {what}"));
    }
    for c in &all {
      cx.check(is_comment_node(*c) == (ty(c) == NodeType::CommentNode), "comment", || format!("{:?} comment={}", ty(c), is_comment_node(*c)));
    }
  }
  cx.check(check_found_property_already(&None, "a", "b").is_ok() && check_found_property_already(&Some(String::new()), "a", "b").is_err(), "already", || "check_found_property_already".into());
}
fn kids(n: RoNode) -> Vec<RoNode> {
  let mut v = Vec::new();
  let mut c = n.get_first_child();
  while let Some(x) = c {
    v.push(x);
    c = x.get_next_sibling();
  }
  v
}
