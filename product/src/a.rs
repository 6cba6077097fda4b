//! The default configuration.
pub use mqa as mq;
#[path = "../../h/model.rs"]
pub mod model;
#[path = "../../h/strs_default.rs"]
pub mod strs;
