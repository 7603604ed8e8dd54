//! Nothing here: this crate only gives cargo a reason to build gecs for the generated programs.
pub use gecs;
