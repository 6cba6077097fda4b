//! Two configurations of the crate in one program. tools/run.py lays `h`, the sources of the main harness crate,
//! and `alt`, a copy of /repo under another package name, next to this directory.
pub mod a;
pub mod api;
pub mod b;
#[path = "../../h/frames.rs"]
pub mod frames;
pub mod props;
#[path = "../../h/refp.rs"]
pub mod refp;
