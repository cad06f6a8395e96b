//! Stand-in for `prost`; the message types are plain structs.
