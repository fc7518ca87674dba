//! Model checks of rust_bit's components. Each module registers checks by property id; each is a
//! feature, so that those that fit the code under test can be built when another one does not.
#![cfg_attr(not(feature = "all"), allow(dead_code, unused_imports))]
#[cfg(feature = "bencode")]
mod bencode;
#[cfg(feature = "client")]
mod client;
#[cfg(feature = "files")]
mod files;
#[cfg(feature = "kept")]
mod kept;
#[cfg(feature = "magnet")]
mod magnet;
#[cfg(feature = "meta")]
mod meta;
#[cfg(feature = "pool")]
mod pool;
#[cfg(feature = "trackers")]
mod real;
#[cfg(feature = "sessions")]
mod sessions;
#[cfg(feature = "swarm")]
mod swarm;
#[cfg(feature = "tracker")]
mod tracker;
#[cfg(feature = "trackers")]
mod trackers;
mod util;
#[cfg(feature = "whole")]
mod whole;
#[cfg(feature = "wire")]
mod wire;
#[cfg(feature = "world")]
mod world;

#[global_allocator]
static ALLOC: sim::mem::Counting = sim::mem::Counting;

fn main() {
    let mut specs = vec![];
    #[cfg(feature = "bencode")]
    specs.extend(bencode::specs());
    #[cfg(feature = "meta")]
    specs.extend(meta::specs());
    #[cfg(feature = "magnet")]
    specs.extend(magnet::specs());
    #[cfg(feature = "wire")]
    specs.extend(wire::specs());
    #[cfg(feature = "pool")]
    specs.extend(pool::specs());
    #[cfg(feature = "sessions")]
    specs.extend(sessions::specs());
    #[cfg(feature = "tracker")]
    specs.extend(tracker::specs());
    #[cfg(feature = "client")]
    specs.extend(client::specs());
    #[cfg(feature = "files")]
    specs.extend(files::specs());
    #[cfg(feature = "trackers")]
    specs.extend(trackers::specs());
    #[cfg(feature = "kept")]
    specs.extend(kept::specs());
    #[cfg(feature = "whole")]
    specs.extend(whole::specs());
    sim::runner::main(&specs)
}
