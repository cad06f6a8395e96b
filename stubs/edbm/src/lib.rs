//! Stand-in for the EDBM library (difference bound matrices and federations).
//! It follows the API that Reveaal uses; the semantics are the textbook ones.
pub mod util;
pub mod zones;
