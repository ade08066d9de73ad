// include moread.rs
// include poread.rs
