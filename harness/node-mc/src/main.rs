//! Checks of the recursive proofs and of the node.
#![allow(clippy::type_complexity, clippy::too_many_arguments)]
mod bind;
mod node;
mod obj;
mod rel;
mod world;

fn main() {
    mc::main_with(&[("N01", bind::n01), ("N02", rel::n02), ("N03", rel::n03), ("N04", obj::n04), ("N05", rel::n05), ("N06", node::n06), ("N07", node::n07), ("N08", node::n08)]);
}
