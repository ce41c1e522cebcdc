// Conformance harness: the crate root of /repo is included unchanged, so every module is
// compiled from /repo's working tree; `driver` feeds it inputs and writes traces.
#![no_main]
#![allow(unused, dead_code, unexpected_cfgs)]
include!(concat!(env!("VERIF_REPO"), "/src/main.rs"));
mod driver;
#[export_name = "main"]
pub extern "C" fn harness_entry(_argc: i32, _argv: *const *const u8) -> i32 { driver::run() }
