#![allow(dead_code)]
#[path = "../../runner-mc/src/bridge.rs"]
mod bridge;
#[path = "../../runner-mc/src/refvm.rs"]
mod refvm;
#[path = "../../sdk-mc/src/events_mc.rs"]
mod events_mc;
#[path = "../../sdk-mc/src/merkle_mc.rs"]
mod merkle_mc;
#[path = "../../sdk-mc/src/native.rs"]
mod native;
#[path = "../../sdk-mc/src/vm.rs"]
mod vm;
mod world;
mod token;
mod others;

fn main() { mc::main_with(&[("E01", token::e01), ("E02", others::e02)]); }
