pub mod config;
pub mod engine;
pub mod gen;
pub mod rig;
