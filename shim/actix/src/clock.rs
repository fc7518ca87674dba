//! Utilities for tracking time.
//!
//! This module provides a number of types for executing code after a set period of time.
//!
//! See [`tokio::time` module] for full documentation.
//!
//! [`tokio::time` module]: https://docs.rs/tokio/1.0.1/tokio/time/index.html

pub use actix_rt::time::*;
