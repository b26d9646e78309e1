pub mod edits;
pub mod engine;
pub mod geo;
pub mod mesh;
pub mod num;
pub mod solids;
pub mod plane;
pub mod tritri;
