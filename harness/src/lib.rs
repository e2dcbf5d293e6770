//! Shared parts of the monitored workloads: generators, hosts (parent arrays with canaries),
//! instrumented elements, callback hooks, oracles and the shard protocol.
#![allow(clippy::all)]

pub mod adv;
pub mod alloc;
pub mod anyop;
pub mod elem;
pub mod genk;
pub mod hook;
pub mod host;
pub mod ops;
#[cfg(feature = "par")]
pub mod par;
#[cfg(feature = "par")]
pub mod cost;
#[cfg(feature = "par")]
pub mod direct;
pub mod oracle;
pub mod report;
pub mod rng;
pub mod selcase;
pub mod sortcase;
pub mod work;
pub mod zst;

pub use ndarray_slice::{Slice1Ext, ndarray};
