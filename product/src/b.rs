//! The configuration the features name.
pub use mqb as mq;
#[path = "../../h/model.rs"]
pub mod model;
#[path = "../../h/strs.rs"]
pub mod strs;
