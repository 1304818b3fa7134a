//! Runtime monitors for llamapun. `monitor <property> [--tier T] [--seed N] [--evidence FILE]
//! [--scratch DIR]` supervises worker processes that drive the real code case by case while the
//! property's oracle watches; see /verif/DESIGN.md.
#![allow(clippy::type_complexity)]
#![cfg_attr(not(feature = "full"), allow(dead_code))]
#[cfg(not(feature = "full"))]
extern crate llamapun_part as llamapun;

mod cx;
mod gen;
mod props;
mod supervise;

fn main() {
  if std::env::args().nth(1).as_deref() == Some("probe-resources") {
    std::process::exit(props::probe_resources());
  }
  #[cfg(feature = "full")]
  if std::env::args().nth(1).as_deref() == Some("probe-operation") {
    std::process::exit(props::probe_operation());
  }
  if std::env::args().nth(1).as_deref() == Some("list") {
    for s in props::all() {
      println!("{} {}", s.id, s.quick);
    }
    return;
  }
  std::process::exit(supervise::main())
}
