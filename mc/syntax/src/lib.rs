pub mod gram;
pub mod progs;
pub mod roundtrip;
pub mod minify;
pub mod progs2;
