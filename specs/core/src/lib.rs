//! Reference semantics of z-core. Never executed: its MIR is compared with the repository's.
#![allow(dead_code, unused, clippy::all)]
use alloy_primitives::B256;
use models::prim;
use z_core::*;

pub mod state;
pub mod verify;
pub mod guest;
pub mod codec;
