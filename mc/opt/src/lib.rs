pub mod analyses;
pub mod consts;
pub mod graphs;
pub mod il;
pub mod decomp;
