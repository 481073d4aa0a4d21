// Executable forms of C11-C13 and C19-C22 against the real service modules over SQLite.
#![allow(dead_code, unused_imports, clippy::all)]
include!(concat!(env!("OUT_DIR"), "/svc_root.rs"));
#[path = "../../common.rs"]
#[macro_use]
pub mod vxcommon;
pub mod common { pub use crate::vxcommon::*; }
#[path = "../../graphops.rs"]
pub mod graphops;
mod cases;
fn main() { vxcommon::drive(cases::table) }
