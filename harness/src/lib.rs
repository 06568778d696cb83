//! Monitors for binschema: instrumented streams and allocator, a reference
//! model of format and API, workload generators, and one oracle per property.

pub mod alloc;
pub mod api;
pub mod cli;
pub mod dyns;
pub mod gen;
pub mod io;
pub mod model;
pub mod pretty;
pub mod probe;
pub mod props;
pub mod rng;
pub mod run;
pub mod session;
