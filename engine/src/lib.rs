pub mod engine;
pub mod driver;
pub use engine::*;
