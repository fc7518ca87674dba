//! Exhaustive enumeration of choice sequences.
//!
//! An execution asks `choose(n, cost)` whenever the environment or the scheduler could do more than
//! one thing. Answer 0 is the default; any other answer costs `cost` deviations. `Dfs` runs every
//! choice sequence whose total cost stays within a bound (cost 0 = always branch fully).

use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Point {
    pub n: u16,
    pub chosen: u16,
    pub cost: u8,
}

#[derive(Default)]
struct Ctl {
    active: bool,
    prefix: Vec<u16>,
    trace: Vec<Point>,
    diverged: bool,
    cap_hit: bool,
}

thread_local! {
    static CTL: RefCell<Ctl> = RefCell::new(Ctl::default());
}

/// Hard cap on choice points of one execution; beyond it defaults are taken (reported as a cap).
pub const MAX_POINTS: usize = 4000;

pub fn choose_cost(n: usize, cost: u8) -> usize {
    if n <= 1 {
        return 0;
    }
    CTL.with(|c| {
        let mut c = c.borrow_mut();
        if !c.active {
            return 0;
        }
        let i = c.trace.len();
        if i >= MAX_POINTS {
            c.cap_hit = true;
            return 0;
        }
        let mut chosen = if i < c.prefix.len() { c.prefix[i] } else { 0 };
        if chosen as usize >= n {
            c.diverged = true;
            chosen = 0;
        }
        c.trace.push(Point { n: n as u16, chosen, cost });
        super::runner::note_choice(i, chosen);
        chosen as usize
    })
}

/// Runs `f` on a fresh thread (fresh thread-local state of the code under test) that goes on with
/// this thread's choices.
pub fn on_fresh_thread<R>(f: impl FnOnce() -> R) -> R {
    // this thread does nothing until the other one is gone, so nothing is ever shared
    struct Handed<T>(T);
    unsafe impl<T> Send for Handed<T> {}
    impl<T> Handed<T> {
        fn take(self) -> T {
            self.0
        }
    }
    let f = Handed(f);
    let mine = CTL.with(|c| std::mem::take(&mut *c.borrow_mut()));
    let (r, back) = std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
            crate::os::fix_random();
            CTL.with(|c| *c.borrow_mut() = mine);
            let r = f.take()();
            Handed((r, CTL.with(|c| std::mem::take(&mut *c.borrow_mut()))))
        });
        match t.expect("thread").join() {
            Ok(x) => x.take(),
            Err(_) => crate::runner::die_engine("checker thread panicked"),
        }
    });
    CTL.with(|c| *c.borrow_mut() = back);
    r
}

/// A choice whose non-default answers each count as one deviation.
pub fn choose(n: usize) -> usize {
    choose_cost(n, 1)
}

/// A choice that is always fully explored.
pub fn choose_free(n: usize) -> usize {
    choose_cost(n, 0)
}

/// The choices made so far in this execution.
pub fn current_choices() -> Vec<u16> {
    CTL.with(|c| c.borrow().trace.iter().map(|p| p.chosen).collect())
}

pub struct RunResult {
    pub trace: Vec<Point>,
    pub diverged: bool,
    pub cap_hit: bool,
}

/// Runs `f` once under the given choice prefix.
pub fn run_with<R>(prefix: &[u16], f: impl FnOnce() -> R) -> (R, RunResult) {
    CTL.with(|c| {
        let mut c = c.borrow_mut();
        c.active = true;
        c.prefix = prefix.to_vec();
        c.trace.clear();
        c.diverged = false;
        c.cap_hit = false;
    });
    let r = f();
    let res = CTL.with(|c| {
        let mut c = c.borrow_mut();
        c.active = false;
        RunResult {
            trace: std::mem::take(&mut c.trace),
            diverged: c.diverged,
            cap_hit: c.cap_hit,
        }
    });
    (r, res)
}

fn cost_of(points: &[Point]) -> u32 {
    points
        .iter()
        .map(|p| if p.chosen > 0 { p.cost as u32 } else { 0 })
        .sum()
}

/// Depth-first iterator over all choice sequences within the bound, for one shard.
pub struct Dfs {
    bound: u32,
    stack: Vec<Vec<u16>>,
    shard: usize,
    nshards: usize,
    split: usize,
}

impl Dfs {
    /// `split`: sequences with fewer non-default answers than this are the common trunk run by
    /// every shard; subtrees below are owned by exactly one shard.
    pub fn new(bound: u32, shard: usize, nshards: usize, split: usize) -> Self {
        Dfs { bound, stack: vec![vec![]], shard, nshards, split }
    }

    pub fn next_prefix(&mut self) -> Option<Vec<u16>> {
        self.stack.pop()
    }

    fn depth(p: &[u16]) -> usize {
        p.iter().filter(|c| **c > 0).count()
    }

    fn bytes(p: &[u16]) -> Vec<u8> {
        p.iter().flat_map(|c| c.to_le_bytes()).collect()
    }

    /// Is this sequence counted by this shard (each sequence is counted by exactly one)?
    pub fn owned(&self, prefix: &[u16]) -> bool {
        if self.nshards == 1 {
            return true;
        }
        let d = Self::depth(prefix);
        if d >= self.split {
            return true; // only reached through an owned subtree root
        }
        crate::fnv(&Self::bytes(prefix)) as usize % self.nshards == self.shard
    }

    /// Registers the outcome of running `prefix`: pushes every unexplored alternative.
    pub fn expand(&mut self, prefix: &[u16], res: &RunResult) {
        let t = &res.trace;
        // reverse order so that the earliest deviation is explored first
        for i in (prefix.len()..t.len()).rev() {
            let before = cost_of(&t[..i]);
            if before + t[i].cost as u32 > self.bound {
                continue;
            }
            for alt in (1..t[i].n).rev() {
                let mut p: Vec<u16> = t[..i].iter().map(|x| x.chosen).collect();
                p.push(alt);
                if self.nshards > 1
                    && Self::depth(&p) == self.split
                    && crate::fnv(&Self::bytes(&p)) as usize % self.nshards != self.shard
                {
                    continue;
                }
                self.stack.push(p);
            }
        }
    }
}
