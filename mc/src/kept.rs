//! C33: what a session, an exchange with a tracker, the storing of a piece or a whole torrent took is
//! given back. Everything is done three times over; what is held is compared in between.
use crate::util::*;
use sim::os::*;
use sim::runner::*;
use sim::ensure;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C33",
        level: "exploration",
        rule: "sessions with conforming, lying, silent, chattering and vanishing peers, exchanges with trackers under every bounded choice of conduct, pieces stored under every single fault, whole torrents from post to files with every tracker conduct of a menu and every bounded order; each three times over in one process, comparing open files and sockets, threads and live memory after each time; at the end of whole torrents no pool of workers waits; the real program is run as well; non-trivial: something was opened",
        assumptions: &["what is held is what the kernel lists as open files and threads of the process, and what the allocator has given out"],
        run: |ctx| {
            crate::sessions::kept(ctx);
            crate::tracker::kept(ctx);
            crate::client::kept(ctx);
            #[cfg(feature = "api")]
            crate::whole::kept(ctx);
            crate::real::kept(ctx);
        },
    }]
}

fn entries(dir: &str) -> usize {
    real(|| std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0))
}

/// Open files and sockets of this process.
pub fn open() -> usize {
    entries("/proc/self/fd")
}

fn threads() -> usize {
    entries("/proc/self/task")
}

/// Does `f` three times; the second and third must leave nothing behind (the first may fill caches).
pub fn given_back(c: &mut Case, f: &mut dyn FnMut() -> Result<(), Fail>) -> Result<(), Fail> {
    let mut held = [(0usize, 0usize, 0usize); 3];
    for h in held.iter_mut() {
        f()?;
        *h = (open(), threads(), sim::mem::mark());
    }
    c.steps(3);
    c.nontrivial(sim::fnv(c.text_bytes()));
    let [x, y, z] = held;
    ensure!(!(z.0 > y.0 && y.0 > x.0), "files or sockets left open", "{} open after the first time, {} after the second, {} after the third", x.0, y.0, z.0);
    ensure!(!(z.1 > y.1 && y.1 > x.1), "threads left behind", "{} after the first time, {} after the second, {} after the third", x.1, y.1, z.1);
    ensure!(!(z.2 > y.2 && y.2 > x.2), "memory not given back", "{} bytes after the second time, {} more after the third", y.2 as i64 - x.2 as i64, z.2 - y.2);
    c.outcome("everything given back");
    Ok(())
}
