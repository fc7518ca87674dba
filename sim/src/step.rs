//! Interleavings of real threads, one machine instruction at a time.
//!
//! The threads run one at a time under the processor's trap flag: after every instruction of the
//! code under test a SIGTRAP handler can hand the processor to another thread, so a schedule says
//! exactly after how many instructions of which thread to switch. Blocking goes through `futex`,
//! which is defined here as well: a waiting thread is not scheduled until another one wakes it.
//! While stepping, the heap is a private bump area, so that no lock of the C library is involved.
//! (What is explored is therefore every sequentially consistent interleaving within the bound.)

use libc::{c_int, c_long, c_void};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

const PARKED: u32 = 0;
const RUNNING: u32 = 1;
const BLOCKED: u32 = 2;
const FINISHED: u32 = 3;
const MAX: usize = 4;
/// A thread that goes on for so long has to let the others run (it may be spinning).
const TURN: u32 = 20_000;
/// Budget of a thread that runs on, at full speed as long as that goes well.
pub const ALL: u32 = u32::MAX;
/// Turns before a run counts as endless.
const TURNS: u32 = 2_000;

struct Slot {
    state: AtomicU32,
    budget: AtomicU32,
    steps: AtomicU64,
    waits_on: AtomicPtr<u32>,
    spun: AtomicBool,
    tid: AtomicI32,
}

#[allow(clippy::declare_interior_mutable_const)]
const SLOT: Slot = Slot {
    state: AtomicU32::new(PARKED),
    budget: AtomicU32::new(0),
    steps: AtomicU64::new(0),
    waits_on: AtomicPtr::new(std::ptr::null_mut()),
    spun: AtomicBool::new(false),
    tid: AtomicI32::new(0),
};
static SLOTS: [Slot; MAX] = [SLOT; MAX];
/// Bumped whenever a slot changes state; the controller sleeps on it.
static EVENTS: AtomicI32 = AtomicI32::new(0);
static FREE: AtomicBool = AtomicBool::new(false);
static INSTALLED: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(MAX) };
    /// Counts the nested pieces of code under test.
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    /// This thread is only switched at `point`s.
    static COARSE: Cell<bool> = const { Cell::new(false) };
}

/// Is this thread (number k) under the controller now?
fn led(k: usize) -> bool {
    k < MAX && (INSIDE.with(|i| i.get()) || COARSE.with(|c| c.get())) && !FREE.load(SeqCst)
}

/// Runs `f`, which is no code under test, unstepped.
fn aside<R>(k: usize, f: impl FnOnce() -> R) -> R {
    if COARSE.with(|c| c.get()) {
        return f();
    }
    trap_off();
    let r = f();
    INSIDE.with(|i| i.set(true));
    if SLOTS[k].budget.load(SeqCst) < ALL {
        trap_on();
    }
    r
}

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn sleep_on(word: &AtomicU32, value: u32) {
    unsafe { raw(libc::SYS_futex, word.as_ptr() as usize, libc::FUTEX_WAIT as usize, value as usize, 0, 0, 0) };
}

fn wake(word: *mut u32) {
    unsafe { raw(libc::SYS_futex, word as usize, libc::FUTEX_WAKE as usize, 64, 0, 0, 0) };
}

fn set(k: usize, state: u32) {
    SLOTS[k].state.store(state, SeqCst);
    wake(SLOTS[k].state.as_ptr());
    EVENTS.fetch_add(1, SeqCst);
    wake(EVENTS.as_ptr() as *mut u32);
}

fn wait_for_turn(k: usize) {
    loop {
        let s = SLOTS[k].state.load(SeqCst);
        if s == RUNNING {
            return;
        }
        sleep_on(&SLOTS[k].state, s);
    }
}

fn trap_on() {
    INSIDE.with(|i| i.set(true));
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
}

/// Ends stepping on this thread (also called where a panic starts).
pub fn trap_off() {
    if INSIDE.with(|i| i.replace(false)) {
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq") };
    }
}

extern "C" fn on_trap(_: c_int, info: *mut libc::siginfo_t, ctx: *mut c_void) {
    let k = ME.with(|m| m.get());
    if k >= MAX || FREE.load(SeqCst) || !INSIDE.with(|i| i.get()) {
        unsafe { (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
        return;
    }
    let s = &SLOTS[k];
    if s.budget.load(SeqCst) == ALL {
        if unsafe { (*info).si_code } <= 0 {
            // sent by the controller: this takes too long
            s.budget.store(TURN, SeqCst);
            unsafe { (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100 };
        } else {
            unsafe { (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
        }
        return;
    }
    s.steps.fetch_add(1, SeqCst);
    let left = s.budget.load(SeqCst);
    // `pause`: the thread spins until another one does something
    let next = unsafe { (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] as *const u8 };
    let spins = unsafe { *next == 0xf3 && *next.add(1) == 0x90 };
    if spins {
        s.spun.store(true, SeqCst);
    } else if left > 1 {
        s.budget.store(left - 1, SeqCst);
        return;
    }
    set(k, PARKED);
    wait_for_turn(k);
    let flags = unsafe { &mut (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] };
    if s.budget.load(SeqCst) == ALL {
        *flags &= !0x100;
    } else {
        *flags |= 0x100;
    }
}

/// Another way of waiting for the others.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let k = ME.with(|m| m.get());
    if led(k) {
        aside(k, || {
            SLOTS[k].spun.store(true, SeqCst);
            set(k, PARKED);
            wait_for_turn(k);
        });
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

/// All futex calls of Rust's std come through here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let k = ME.with(|m| m.get());
    if n == libc::SYS_futex && led(k) {
        // the kernel's part is one step
        if let Some(r) = aside(k, || futex(k, a, b, c)) {
            return r;
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r as c_long
}

unsafe fn futex(k: usize, a: usize, b: usize, c: usize) -> Option<c_long> {
    {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        let addr = a as *mut u32;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if (*(addr as *const AtomicU32)).load(SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return Some(-1);
            }
            SLOTS[k].waits_on.store(addr, SeqCst);
            set(k, BLOCKED);
            wait_for_turn(k);
            return Some(0);
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            let mut woken = 0;
            for s in &SLOTS {
                if woken < c && s.state.load(SeqCst) == BLOCKED && s.waits_on.load(SeqCst) == addr {
                    s.waits_on.store(std::ptr::null_mut(), SeqCst);
                    s.state.store(PARKED, SeqCst);
                    woken += 1;
                }
            }
            return Some(woken as c_long);
        }
    }
    None
}

// ------------------------------------------------------------------------------------ bump heap

const AREA: usize = 4 << 20;
static mut HEAP: [u8; AREA] = [0; AREA];
static USED: AtomicUsize = AtomicUsize::new(0);

/// Memory for code being stepped; null: not stepping.
pub fn bump(size: usize, align: usize) -> *mut u8 {
    if !INSIDE.with(|i| i.get()) {
        return std::ptr::null_mut();
    }
    // only one thread runs at a time, but it may be switched off anywhere in here
    let at = USED.fetch_add(size + align, SeqCst);
    if at + size + align > AREA {
        return std::ptr::null_mut();
    }
    let p = unsafe { (&raw mut HEAP as *mut u8).add(at) };
    let off = p.align_offset(align);
    unsafe { p.add(off) }
}

pub fn stepping() -> bool {
    INSIDE.with(|i| i.get())
}

pub fn bumped(p: *mut u8) -> bool {
    let base = &raw const HEAP as usize;
    (p as usize) >= base && (p as usize) < base + AREA
}

// ----------------------------------------------------------------------------------- controller

/// Runs code under test so that the thread can be switched off after any instruction of it.
pub fn stepped<R>(f: impl FnOnce() -> R) -> R {
    INSIDE.with(|i| i.set(true));
    if ME.with(|m| m.get() < MAX && SLOTS[m.get()].budget.load(SeqCst) < ALL) {
        trap_on();
    }
    let r = f();
    trap_off();
    r
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum End {
    Finished,
    Deadlock,
    Endless,
}

pub struct Run {
    pub end: End,
    /// Instructions each thread executed.
    pub steps: Vec<u64>,
    /// Did every segment of the schedule run for its whole length?
    pub followed: bool,
}

fn install() {
    if INSTALLED.swap(true, SeqCst) {
        return;
    }
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

/// Lets thread k run for so many instructions; how it stands afterwards.
fn turn(k: usize, budget: u32, step: bool) -> u32 {
    let s = &SLOTS[k];
    s.budget.store(budget, SeqCst);
    s.spun.store(false, SeqCst);
    let seen = EVENTS.load(SeqCst);
    s.state.store(RUNNING, SeqCst);
    wake(s.state.as_ptr());
    let start = Instant::now();
    let mut last = seen;
    loop {
        let st = s.state.load(SeqCst);
        if st != RUNNING {
            return st;
        }
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000_000 };
        unsafe { raw(libc::SYS_futex, EVENTS.as_ptr() as usize, libc::FUTEX_WAIT as usize, last as u32 as usize, &ts as *const _ as usize, 0, 0) };
        last = EVENTS.load(SeqCst);
        if step && budget == ALL && s.budget.load(SeqCst) == ALL && start.elapsed() > Duration::from_millis(20) {
            // perhaps it spins: step it after all
            unsafe { raw(libc::SYS_tgkill, libc::getpid() as usize, s.tid.load(SeqCst) as usize, libc::SIGTRAP as usize, 0, 0, 0) };
        }
        if start.elapsed() > Duration::from_secs(10) {
            crate::runner::die_engine("a stepped thread blocks outside of futex");
        }
    }
}

fn reset(n: usize) {
    assert!(n <= MAX);
    for s in &SLOTS[..n] {
        s.state.store(PARKED, SeqCst);
        s.steps.store(0, SeqCst);
        s.waits_on.store(std::ptr::null_mut(), SeqCst);
    }
    for s in &SLOTS[n..] {
        s.state.store(FINISHED, SeqCst);
    }
    FREE.store(false, SeqCst);
}

/// A file system call of the code under test: others may go first.
pub fn point() {
    let k = ME.with(|m| m.get());
    if k < MAX && COARSE.with(|c| c.get()) && !FREE.load(SeqCst) {
        set(k, PARKED);
        wait_for_turn(k);
    }
}

/// Runs the operations on a thread each, one at a time; before each file system call `pick`
/// chooses (among the threads that can go on, the current one first) who goes on.
pub fn coarse<'a>(ops: Vec<Box<dyn FnOnce() + Send + 'a>>, mut pick: impl FnMut(&[usize], bool) -> usize) {
    let n = ops.len();
    reset(n);
    std::thread::scope(|sc| {
        for (k, op) in ops.into_iter().enumerate() {
            std::thread::Builder::new()
                .spawn_scoped(sc, move || {
                    ME.with(|m| m.set(k));
                    SLOTS[k].tid.store(unsafe { libc::gettid() }, SeqCst);
                    wait_for_turn(k);
                    COARSE.with(|c| c.set(true));
                    op();
                    COARSE.with(|c| c.set(false));
                    ME.with(|m| m.set(MAX));
                    set(k, FINISHED);
                })
                .expect("thread");
        }
        // up to the first call of each
        for k in 0..n {
            turn(k, ALL, false);
        }
        let mut current = usize::MAX;
        for turns in 0.. {
            if (0..n).all(|k| SLOTS[k].state.load(SeqCst) == FINISHED) {
                return;
            }
            let mut able: Vec<usize> = (0..n).filter(|k| SLOTS[*k].state.load(SeqCst) == PARKED).collect();
            if able.is_empty() || turns > TURNS {
                // the threads cannot be ended
                crate::runner::die_violation(if able.is_empty() { "deadlock" } else { "never returns (livelock)" }, "of concurrent workers");
            }
            let goes_on = able.contains(&current) && !SLOTS[current].spun.load(SeqCst);
            if current < n {
                // a thread that spins goes last
                able.sort_by_key(|k| ((*k == current) != goes_on, *k));
            }
            current = able[pick(&able, goes_on)];
            turn(current, ALL, false);
        }
    });
}

/// Runs the operations on a thread each, switching as the schedule of (thread, instructions) says;
/// what is left afterwards runs in the order of the threads, stepped only to `measure` it.
pub fn run<'a>(ops: Vec<Box<dyn FnOnce() + Send + 'a>>, schedule: &[(usize, u32)], measure: bool) -> Run {
    let rest = if measure { TURN } else { ALL };
    install();
    let n = ops.len();
    reset(n);
    let mut end = End::Finished;
    let mut followed = true;
    std::thread::scope(|sc| {
        for (k, op) in ops.into_iter().enumerate() {
            std::thread::Builder::new()
                .stack_size(256 << 10)
                .spawn_scoped(sc, move || {
                    ME.with(|m| m.set(k));
                    SLOTS[k].tid.store(unsafe { libc::gettid() }, SeqCst);
                    wait_for_turn(k);
                    op();
                    ME.with(|m| m.set(MAX));
                    set(k, FINISHED);
                })
                .expect("thread");
        }
        for (k, budget) in schedule {
            if *budget == 0 {
                continue;
            }
            match SLOTS[*k].state.load(SeqCst) {
                PARKED => followed &= turn(*k, if *budget == ALL { rest } else { *budget }, true) == PARKED && !SLOTS[*k].spun.load(SeqCst),
                _ => followed = false,
            }
        }
        let mut turns = 0;
        let mut next = 0;
        loop {
            if (0..n).all(|k| SLOTS[k].state.load(SeqCst) == FINISHED) {
                break;
            }
            let Some(k) = (0..n).map(|i| (next + i) % n).find(|k| SLOTS[*k].state.load(SeqCst) == PARKED) else {
                end = End::Deadlock;
                break;
            };
            turns += 1;
            if turns > TURNS {
                end = End::Endless;
                break;
            }
            // a thread that used up its turn or blocked lets the next one run
            next = if turn(k, rest, true) == FINISHED { 0 } else { k + 1 };
        }
        if end != End::Finished {
            // the threads cannot be ended
            crate::runner::die_violation(
                if end == End::Deadlock { "deadlock" } else { "never returns (livelock)" },
                &format!("after schedule {schedule:?}"),
            );
        }
    });
    USED.store(0, SeqCst);
    Run { end, steps: SLOTS[..n].iter().map(|s| s.steps.load(SeqCst)).collect(), followed }
}
