//! Reference semantics of the host. Never executed: its MIR is compared with the repository's.
#![allow(dead_code, unused, clippy::all)]
pub mod cli;
pub mod client;
pub mod preflight;
pub mod provider;
pub mod reader;
pub mod state;
