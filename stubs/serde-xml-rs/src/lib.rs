//! Stand-in for `serde-xml-rs`; Reveaal only names the crate.
