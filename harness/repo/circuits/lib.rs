#![feature(const_trait_impl)]
#![allow(clippy::all)]
include!(concat!(env!("OUT_DIR"), "/modules.rs"));
#[path = "verif.rs"]
pub mod verif;
