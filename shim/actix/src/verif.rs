//! Hooks for a checker that controls the order in which actors and sync workers run.
use std::cell::{Cell, RefCell};
use std::task::Waker;

/// The workers of one `SyncArbiter`.
pub trait Pool {
    fn name(&self) -> &'static str;
    /// Lets idle workers take queued messages; the busy ones with the number of their message, in
    /// the order they took them.
    fn busy(&mut self) -> Vec<(u64, usize)>;
    /// How many messages the workers were ever sent.
    fn sent(&self) -> u64;
    /// Do the workers wait for messages that may still come?
    fn waits(&self) -> bool;
    /// Runs a busy worker's handler to its end.
    fn finish(&mut self, worker: usize);
    /// The same in two parts: the handler's run, possibly on another thread, and what follows it.
    fn start(&mut self, worker: usize) -> Box<dyn FnOnce() + Send>;
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static POOLS: RefCell<Vec<Option<Box<dyn Pool>>>> = const { RefCell::new(Vec::new()) };
    static HOLD: RefCell<Option<String>> = const { RefCell::new(None) };
    static HELD: RefCell<Vec<Waker>> = const { RefCell::new(Vec::new()) };
}

pub fn active() -> bool {
    ACTIVE.with(|a| a.get())
}

/// Turns the scheduler of this thread on or off; drops all pools.
pub fn set_active(on: bool) {
    ACTIVE.with(|a| a.set(on));
    let old = POOLS.with(|p| std::mem::take(&mut *p.borrow_mut()));
    drop(old);
    HOLD.with(|h| *h.borrow_mut() = None);
    let w = HELD.with(|h| std::mem::take(&mut *h.borrow_mut()));
    drop(w);
}

pub(crate) fn register(p: Box<dyn Pool>) {
    POOLS.with(|v| v.borrow_mut().push(Some(p)));
}

#[derive(Clone, Copy, Debug)]
pub struct Job {
    pub pool: usize,
    pub name: &'static str,
    pub worker: usize,
    /// Its position in the pool's queue since the start.
    pub seq: u64,
}

/// How many messages each pool was ever sent.
pub fn sent() -> Vec<u64> {
    POOLS.with(|v| v.borrow().iter().map(|p| p.as_ref().map(|p| p.sent()).unwrap_or(0)).collect())
}

/// The pools whose workers still wait for messages.
pub fn waiting() -> Vec<&'static str> {
    POOLS.with(|v| v.borrow().iter().flatten().filter(|p| p.waits()).map(|p| p.name()).collect())
}

/// All busy workers.
pub fn busy() -> Vec<Job> {
    POOLS.with(|v| {
        let mut all = vec![];
        for (i, p) in v.borrow_mut().iter_mut().enumerate() {
            if let Some(p) = p {
                let name = p.name();
                all.extend(p.busy().into_iter().map(|(seq, worker)| Job { pool: i, name, worker, seq }));
            }
        }
        all
    })
}

pub fn finish(pool: usize, worker: usize) {
    struct Back(usize, Option<Box<dyn Pool>>);
    impl Drop for Back {
        fn drop(&mut self) {
            let p = self.1.take();
            POOLS.with(|v| v.borrow_mut()[self.0] = p);
        }
    }
    let p = POOLS.with(|v| v.borrow_mut()[pool].take());
    let mut b = Back(pool, p);
    b.1.as_mut().expect("pool").finish(worker);
}

/// Handlers of busy workers, to be run on threads of their own before anything else is asked.
pub fn start(pool: usize, worker: usize) -> Box<dyn FnOnce() + Send> {
    POOLS.with(|v| v.borrow_mut()[pool].as_mut().expect("pool").start(worker))
}

/// Keeps actors whose type name contains `name` from running; None lets them all run again.
pub fn hold(name: Option<&str>) {
    HOLD.with(|h| *h.borrow_mut() = name.map(|n| n.to_string()));
    if name.is_none() {
        for w in HELD.with(|h| std::mem::take(&mut *h.borrow_mut())) {
            w.wake();
        }
    }
}

pub(crate) fn held(actor: &str, w: &Waker) -> bool {
    if !active() {
        return false;
    }
    let held = HOLD.with(|h| h.borrow().as_ref().map(|n| actor.contains(n.as_str())).unwrap_or(false));
    if held {
        HELD.with(|h| h.borrow_mut().push(w.clone()));
    }
    held
}
