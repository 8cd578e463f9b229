//! Stand-in for starky (constraint consumers, frames, the `Stark` trait).
#![allow(clippy::all)]
pub mod config;
pub mod constraint_consumer;
pub mod evaluation_frame;
pub mod stark;
