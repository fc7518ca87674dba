#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! Exploration engine and simulated operating environment for the rust_bit model checks.
//!
//! * `explore` - exhaustive, deviation-bounded enumeration of choice sequences (stateless search).
//! * `os`      - libc calls of the code under test, answered by a simulated network/disk/clock.
//! * `step`    - schedules real threads instruction by instruction.
//! * `runner`  - shards a check over worker processes, survives crashes/hangs of the code under
//!               test, and writes evidence and replay files.

pub mod explore;
pub mod mem;
pub mod os;
pub mod runner;
pub mod step;

/// 64-bit FNV-1a, used for state and input fingerprints (deterministic across runs).
pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche so that low bits are usable for sharding
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 33)
}

/// Printable form of bytes for reports.
pub fn show(bytes: &[u8]) -> String {
    let mut s = String::new();
    for &b in bytes.iter().take(200) {
        if (0x20..0x7f).contains(&b) && b != b'\\' {
            s.push(b as char);
        } else {
            s.push_str(&format!("\\x{b:02x}"));
        }
    }
    if bytes.len() > 200 {
        s.push_str(&format!("...({} bytes)", bytes.len()));
    }
    s
}
