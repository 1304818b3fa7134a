use crate::cx::Cx;

// built against the whole library, or (feature "part") against the modules that stand alone
#[cfg(feature = "full")]
mod ams;
#[cfg(feature = "full")]
mod canon;
#[cfg(feature = "full")]
mod corpus;
#[cfg(feature = "full")]
mod dnm;
#[cfg(feature = "full")]
mod lang;
mod lexemes;
mod misc;
mod ngrams;
#[cfg(feature = "full")]
mod pat;
#[cfg(feature = "full")]
mod race;
#[cfg(feature = "full")]
mod settings;
#[cfg(feature = "full")]
mod tok;
#[cfg(feature = "full")]
mod tools;
#[cfg(feature = "full")]
mod whole;
#[cfg(feature = "xmlutil")]
mod xmlutil;

pub use misc::probe_resources;
#[cfg(feature = "full")]
pub use whole::probe_operation;

pub struct Spec {
  pub id: &'static str,
  /// number of cases of the quick tier; the thorough tier runs THOROUGH times as many
  pub quick: u64,
  /// cases that always run whatever the scale (fixed inputs come first)
  pub fixed: u64,
  pub workers: u64,
  /// one case may go without progress this long before its worker is stopped and the case re-run
  pub stall_s: u64,
  /// CPU allowance of a re-run case
  pub cpu_s: u64,
  /// when an input counts as a distinct, non-trivial one
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  /// fewer distinct inputs than this is no verdict
  pub min_distinct: u64,
  pub run: fn(&mut Cx, u64),
}

pub const THOROUGH: u64 = 80;

pub const BASE: Spec = Spec {
  id: "",
  quick: 4000,
  fixed: 8,
  workers: 8,
  stall_s: 60,
  cpu_s: 30,
  rule: "",
  assumptions: &[
    "libxml2 and the libxml crate parse and traverse the document correctly",
    "crates that cannot be fetched offline (unidecode, rustmorpha, jwalk, whatlang, rust-senna, rust-crypto) are replaced by stand-ins with the same interface",
  ],
  min_distinct: 200,
  run: |_, _| {},
};

pub fn all() -> Vec<Spec> {
  let mut v = Vec::new();
  #[cfg(feature = "full")]
  {
    v.extend(dnm::specs());
    v.extend(tok::specs());
    v.extend(canon::specs());
    v.extend(corpus::specs());
    v.extend(pat::specs());
    v.extend(ams::specs());
    v.extend(lang::specs());
    v.extend(race::specs());
    v.extend(whole::specs());
    v.extend(settings::specs());
    v.extend(tools::specs());
  }
  v.extend(lexemes::specs());
  v.extend(ngrams::specs());
  v.extend(misc::specs());
  #[cfg(feature = "xmlutil")]
  v.extend(xmlutil::specs());
  v
}
pub fn find(id: &str) -> Option<Spec> { all().into_iter().find(|s| s.id == id) }
pub fn ids() -> Vec<&'static str> { all().iter().map(|s| s.id).collect() }
