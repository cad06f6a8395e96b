//! `itertools` 0.10 is not available offline; 0.13 is.
pub use itertools13::*;
