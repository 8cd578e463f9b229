pub mod hash_types;
pub mod hashing;
pub mod merkle_tree;
pub mod poseidon;
pub mod poseidon2;
