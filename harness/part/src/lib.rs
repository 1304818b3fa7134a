//! Only module declarations: every module's file is /repo's own, read in place.
#![allow(missing_docs, dead_code)]
pub mod util {
  #[path = "/repo/src/util/plot.rs"]
  pub mod plot;
  #[path = "/repo/src/util/test.rs"]
  pub mod test;
}
pub mod dnm {
  #[path = "/repo/src/dnm/node.rs"]
  pub mod node;
  #[path = "/repo/src/dnm/parameters.rs"]
  mod parameters;
  pub use self::parameters::{DNMParameters, RuntimeParseData, SpecialTagsOption};
}
pub mod patterns {
  #[path = "/repo/src/patterns/utils.rs"]
  pub mod utils;
}
#[path = "/repo/src/ngrams.rs"]
pub mod ngrams;
#[path = "/repo/src/stopwords.rs"]
pub mod stopwords;
