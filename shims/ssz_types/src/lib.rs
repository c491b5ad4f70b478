//! Stand-in.
