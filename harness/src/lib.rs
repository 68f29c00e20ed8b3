//! Property-based checks for dockerfile-parser (see ../DESIGN.md).
#[macro_use]
pub mod tape;
pub mod astio;
pub mod dict;
pub mod gen;
pub mod meter;
pub mod props;
pub mod refmodel;
pub mod refparse;
pub mod runner;
pub mod textgen;

#[global_allocator]
static ALLOC: meter::Counting = meter::Counting;
