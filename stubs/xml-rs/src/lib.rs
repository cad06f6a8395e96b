//! Stand-in for `xml-rs`; Reveaal only names the crate.
