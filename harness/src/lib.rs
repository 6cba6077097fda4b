//! Harnesses: one function per question put to the solver.
pub use mqtt_bytes_v5 as mq;
pub mod api;
pub mod frames;
pub mod model;
pub mod props;
pub mod refp;
pub mod strs;
