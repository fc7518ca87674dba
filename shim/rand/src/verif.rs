//! Hook for a checker that decides random choices among alternatives.
use std::cell::Cell;

std::thread_local! {
    static HOOK: Cell<Option<fn(usize) -> usize>> = const { Cell::new(None) };
}

/// Answers "which of n" questions on this thread; also fixes thread_rng's seed.
pub fn set_hook(f: Option<fn(usize) -> usize>) {
    HOOK.with(|h| h.set(f));
}

pub(crate) fn active() -> bool {
    HOOK.with(|h| h.get().is_some())
}

pub(crate) fn index(n: usize) -> Option<usize> {
    HOOK.with(|h| h.get()).map(|f| f(n).min(n.saturating_sub(1)))
}
