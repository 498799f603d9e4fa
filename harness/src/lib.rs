//! Runtime monitors for narrow.
pub mod bomb;
pub mod cdata;
pub mod coll;
pub mod consumer;
pub mod corrupt;
pub mod drive;
pub mod hist;
pub mod identity;
pub mod items;
pub mod meter;
pub mod owners;
pub mod programs;
pub mod rehouse;
pub mod rng;
pub mod run;
pub mod scan;
pub mod share;
pub mod source;
pub mod storage;
pub mod val;
pub mod virt;
#[macro_use]
pub mod zoo;
