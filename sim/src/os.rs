//! The operating system seen by the code under test.
//!
//! The libc entry points that Rust's std (and mio) use for stream sockets, datagram sockets, files,
//! sleeping and reading the clock are defined here, in the checker's own executable, so the
//! production code runs unchanged and every answer of its environment is decided by the checker:
//! TCP peers are in-process models on a virtual clock, UDP trackers answer over loopback at virtual
//! times, disk writes are confined to a scratch root, counted, and can fail, be cut short, or be
//! dropped from a crash point on. Threads without an active `Os` get plain system calls.

use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, sockaddr, socklen_t, ssize_t};
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::net::{Ipv4Addr, SocketAddrV4};

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// Virtual time starts here (seconds), so that subtracting timeouts never underflows.
const BASE_SEC: u64 = 1_000_000;

// ---------------------------------------------------------------------------------------------
// Stream sockets

/// What a peer model can do on its connection.
#[derive(Default)]
pub struct Wire {
    pub now: u64,
    /// Bytes on their way to the client: (arrival time, bytes).
    segs: VecDeque<(u64, Vec<u8>)>,
    last_arrival: u64,
    /// Total bytes ever sent to the client.
    pub sent: usize,
    /// Split the inbound stream at these absolute offsets, delaying everything after by the time.
    pub cuts: Vec<(usize, u64)>,
    closed: Option<(u64, bool)>,
    /// Bytes sent to the client that it has not read yet.
    pub unread: usize,
}

impl Wire {
    pub fn send(&mut self, bytes: &[u8]) {
        self.send_after(0, bytes)
    }

    pub fn send_after(&mut self, delay: u64, bytes: &[u8]) {
        if self.closed.is_some() {
            return;
        }
        let mut at = self.last_arrival.max(self.now + delay);
        let mut rest = bytes;
        let mut pos = self.sent;
        let cuts = self.cuts.clone();
        for (off, d) in cuts {
            if off > pos && off < pos + rest.len() {
                let (a, b) = rest.split_at(off - pos);
                self.segs.push_back((at, a.to_vec()));
                rest = b;
                pos = off;
                at += d;
            } else if off == pos && pos > 0 && !rest.is_empty() {
                at += d;
            }
        }
        if !rest.is_empty() {
            self.segs.push_back((at, rest.to_vec()));
        }
        self.last_arrival = at;
        self.sent += bytes.len();
    }

    /// Orderly end of the peer's side.
    pub fn close(&mut self) {
        if self.closed.is_none() {
            self.closed = Some((self.last_arrival.max(self.now), false));
        }
    }

    /// Connection reset.
    pub fn reset(&mut self) {
        if self.closed.is_none() {
            self.closed = Some((self.last_arrival.max(self.now), true));
        }
    }

    pub fn is_closed(&self) -> bool {
        self.closed.is_some()
    }

    /// When everything sent so far will have arrived.
    pub fn arrival(&self) -> u64 {
        self.last_arrival
    }

    /// Takes what is on its way (for carrying a peer model over a real socket): the segments and,
    /// if the connection ends after them, when and whether by reset.
    pub fn drain(&mut self) -> (Vec<(u64, Vec<u8>)>, Option<(u64, bool)>) {
        (std::mem::take(&mut self.segs).into_iter().collect(), self.closed)
    }

    pub fn idle(&self) -> bool {
        self.segs.is_empty() && self.closed.is_none()
    }
}

/// A remote endpoint of a TCP connection.
pub trait Peer {
    fn on_open(&mut self, _w: &mut Wire) {}
    /// The client wrote these bytes.
    fn on_data(&mut self, bytes: &[u8], w: &mut Wire);
    /// The client wants to read, nothing is readable and nothing is on its way.
    fn on_wait(&mut self, _w: &mut Wire) {}
    /// The client closed the connection.
    fn on_client_close(&mut self) {}
}

pub enum Connect {
    Accept(Box<dyn Peer>),
    /// Accepted after that time.
    Slow(u64, Box<dyn Peer>),
    Refused,
    /// Nothing ever answers.
    TimedOut,
}

/// When the kernel gives up on a connection that nobody answers.
const SYN_PATIENCE: u64 = 127 * SEC;

pub trait Net {
    fn connect(&mut self, addr: SocketAddrV4, now: u64) -> Connect;
}

struct Sock {
    peer: Option<Box<dyn Peer>>,
    wire: Wire,
    readable: Vec<u8>,
    nonblocking: bool,
    rcv_timeout: Option<u64>,
    addr: SocketAddrV4,
    write_shut: bool,
    /// When the connection is there (or given up).
    open_at: u64,
}

// ---------------------------------------------------------------------------------------------
// Datagram sockets

#[derive(Default)]
pub struct UdpWire {
    pub now: u64,
    out: Vec<(u64, Vec<u8>, bool)>,
    /// Makes the send fail with this error number.
    pub fail: Option<i32>,
}

impl UdpWire {
    pub fn reply_after(&mut self, delay: u64, bytes: &[u8]) {
        self.out.push((self.now + delay, bytes.to_vec(), false));
    }
    /// A datagram from another address than the one the client talks to.
    pub fn stray_after(&mut self, delay: u64, bytes: &[u8]) {
        self.out.push((self.now + delay, bytes.to_vec(), true));
    }
}

pub trait UdpServer {
    /// The client fixed its remote address; Err(errno) makes connect() fail.
    fn on_connect(&mut self, _to: SocketAddrV4) -> Result<(), i32> {
        Ok(())
    }
    fn on_datagram(&mut self, to: SocketAddrV4, bytes: &[u8], w: &mut UdpWire);
}

struct UdpSock {
    to: SocketAddrV4,
    server_fd: c_int,
    stray_fd: c_int,
    client: libc::sockaddr_in,
}

// ---------------------------------------------------------------------------------------------
// Disk

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FsOp {
    pub kind: &'static str,
    pub path: String,
    pub off: i64,
    pub len: usize,
}

pub enum FsAnswer {
    Normal,
    /// Only this many bytes of the write are taken (0 < n < len).
    Short(usize),
    Errno(i32),
}

#[derive(Default)]
pub struct Fs {
    pub root: String,
    pub escapes: Vec<String>,
    /// Mutating operations attempted so far.
    pub ops: u64,
    pub log: Vec<FsOp>,
    pub keep_log: bool,
    /// Crash just before mutating operation number n (0-based) takes effect ...
    pub crash_at: Option<u64>,
    /// ... except that this many bytes of it (if it is a write) reach the disk.
    pub torn: usize,
    pub crashed: bool,
    pub fault: Option<Box<dyn FnMut(&FsOp) -> FsAnswer>>,
    fds: HashMap<c_int, String>,
}

impl Fs {
    pub fn new(root: &str) -> Self {
        Fs { root: root.to_string(), ..Default::default() }
    }

    fn normalize(&self, path: &str) -> String {
        let full = if path.starts_with('/') {
            path.to_string()
        } else {
            format!("{}/{}", self.root, path)
        };
        let mut parts: Vec<&str> = vec![];
        for p in full.split('/') {
            match p {
                "" | "." => {}
                ".." => {
                    parts.pop();
                }
                x => parts.push(x),
            }
        }
        format!("/{}", parts.join("/"))
    }

    fn inside(&self, norm: &str) -> bool {
        norm == self.root || norm.starts_with(&format!("{}/", self.root))
    }

    /// Returns None if the operation may go ahead, or the answer to give instead.
    fn gate(&mut self, op: FsOp) -> Gate {
        if !self.inside(&op.path) {
            self.escapes.push(format!("{} {}", op.kind, op.path));
            return Gate::Errno(libc::EACCES);
        }
        if self.crashed {
            return Gate::Drop;
        }
        let n = self.ops;
        self.ops += 1;
        let answer = match self.fault.as_mut() {
            Some(f) => f(&op),
            None => FsAnswer::Normal,
        };
        if self.keep_log {
            self.log.push(op);
        }
        if self.crash_at == Some(n) {
            self.crashed = true;
            return if self.torn > 0 { Gate::Torn(self.torn) } else { Gate::Drop };
        }
        match answer {
            FsAnswer::Normal => Gate::Go,
            FsAnswer::Short(k) => Gate::Short(k),
            FsAnswer::Errno(e) => Gate::Errno(e),
        }
    }
}

enum Gate {
    Go,
    /// Pretend success, change nothing.
    Drop,
    /// Apply only k bytes, pretend full success.
    Torn(usize),
    /// Apply only k bytes and say so.
    Short(usize),
    Errno(i32),
}

// ---------------------------------------------------------------------------------------------

/// How a checker's scheduler learns that a single-threaded async runtime has nothing left to do.
#[derive(Default)]
pub struct Idle {
    /// The scheduler, waiting for the runtime to become idle.
    pub waker: Option<std::task::Waker>,
    pub idle: bool,
    /// The earliest timer or datagram, if any, as seen when the runtime became idle.
    pub next: Option<u64>,
    /// Let virtual time pass up to that event.
    pub advance: bool,
}

/// What a system call may do besides doing all it was asked to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hiccup {
    /// A signal came first.
    Interrupted,
    /// Only so many bytes (at least one) are taken or given.
    Short(usize),
}

/// The environment of one execution.
#[derive(Default)]
pub struct Os {
    pub idle: Option<Idle>,
    pub now: u64,
    pub calls: u64,
    pub call_limit: u64,
    pub time_limit: u64,
    pub net: Option<Box<dyn Net>>,
    pub udp: Option<Box<dyn UdpServer>>,
    pub fs: Option<Fs>,
    socks: HashMap<c_int, Sock>,
    usocks: HashMap<c_int, UdpSock>,
    uqueue: Vec<(u64, c_int, Vec<u8>, bool)>,
    /// What happens at the n-th read or write of a TCP connection.
    pub hiccups: Vec<(u64, Hiccup)>,
    reads_and_writes: u64,
    /// Total virtual time spent and system calls made are limits on the execution; what to report.
    pub context: String,
}

impl Os {
    pub fn new() -> Self {
        Os {
            call_limit: 2_000_000,
            time_limit: 3600 * SEC,
            ..Default::default()
        }
    }

    fn tick(&mut self) {
        self.calls += 1;
        if self.calls > self.call_limit {
            crate::runner::die_violation(
                "livelock",
                &format!("still busy after {} system calls{}", self.call_limit, self.context),
            );
        }
        if self.now > self.time_limit {
            crate::runner::die_violation(
                "hang",
                &format!("not finished after {} s of virtual time{}", self.time_limit / SEC, self.context),
            );
        }
    }

    fn hiccup(&mut self) -> Option<Hiccup> {
        let n = self.reads_and_writes;
        self.reads_and_writes += 1;
        self.hiccups.iter().find(|h| h.0 == n).map(|h| h.1)
    }

    fn deliver_udp(&mut self) {
        let now = self.now;
        let mut i = 0;
        let mut due = vec![];
        while i < self.uqueue.len() {
            if self.uqueue[i].0 <= now {
                due.push(self.uqueue.remove(i));
            } else {
                i += 1;
            }
        }
        due.sort_by_key(|d| d.0);
        for (_, fd, bytes, stray) in due {
            if let Some(u) = self.usocks.get(&fd) {
                let from = if stray { u.stray_fd } else { u.server_fd };
                unsafe {
                    libc::syscall(
                        libc::SYS_sendto,
                        from,
                        bytes.as_ptr(),
                        bytes.len(),
                        0,
                        &u.client as *const _,
                        std::mem::size_of::<libc::sockaddr_in>(),
                    );
                }
            }
        }
    }

    fn next_udp(&self) -> Option<u64> {
        self.uqueue.iter().map(|d| d.0).min()
    }
}

thread_local! {
    static OS: Cell<*mut Os> = const { Cell::new(std::ptr::null_mut()) };
}

/// Waits until everything else on this thread's async runtime waits for time to pass or for the
/// network; resolves to the time of the next event, if there is one.
pub async fn quiet() -> Option<u64> {
    std::future::poll_fn(|cx| {
        active(|os| {
            let idle = os.idle.as_mut().expect("Os::idle");
            if idle.idle {
                idle.idle = false;
                idle.waker = None;
                return std::task::Poll::Ready(idle.next);
            }
            idle.waker = Some(cx.waker().clone());
            std::task::Poll::Pending
        })
        .expect("active Os")
    })
    .await
}

thread_local! {
    static FIXED_RANDOM: Cell<Option<u64>> = const { Cell::new(None) };
}

/// Makes this thread's hash seeds the same in every execution.
pub fn fix_random() {
    FIXED_RANDOM.with(|c| c.set(Some(0x2545f4914f6cdd1d)));
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if let Ok(Some(mut x)) = FIXED_RANDOM.try_with(|c| c.get()) {
        for i in 0..len {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            *(buf as *mut u8).add(i) = x as u8;
        }
        FIXED_RANDOM.with(|c| c.set(Some(x)));
        return len as ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as ssize_t
}

/// Runs `f` with `os` as this thread's operating system.
pub fn with_os<R>(os: &mut Os, f: impl FnOnce() -> R) -> R {
    struct Reset(*mut Os);
    impl Drop for Reset {
        fn drop(&mut self) {
            OS.with(|c| c.set(self.0));
        }
    }
    let prev = OS.with(|c| c.replace(os as *mut Os));
    let _r = Reset(prev);
    f()
}

/// Runs harness code with the real operating system.
pub fn real<R>(f: impl FnOnce() -> R) -> R {
    let prev = OS.with(|c| c.replace(std::ptr::null_mut()));
    let r = f();
    OS.with(|c| c.set(prev));
    r
}

/// Access to the active `Os` (for checkers that step an execution).
pub fn active<R>(f: impl FnOnce(&mut Os) -> R) -> Option<R> {
    enter(f)
}

fn enter<R>(f: impl FnOnce(&mut Os) -> R) -> Option<R> {
    let p = OS.try_with(|c| c.replace(std::ptr::null_mut())).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        return None;
    }
    let r = f(unsafe { &mut *p });
    let _ = OS.try_with(|c| c.set(p));
    Some(r)
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e };
}

unsafe fn sys_ret(r: i64) -> i64 {
    r // libc::syscall already sets errno
}

fn parse_addr(addr: *const sockaddr) -> Option<SocketAddrV4> {
    unsafe {
        if addr.is_null() || (*addr).sa_family as i32 != libc::AF_INET {
            return None;
        }
        let a = &*(addr as *const libc::sockaddr_in);
        Some(SocketAddrV4::new(
            Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr)),
            u16::from_be(a.sin_port),
        ))
    }
}

fn fill_addr(a: SocketAddrV4, addr: *mut sockaddr, len: *mut socklen_t) {
    unsafe {
        if addr.is_null() || len.is_null() {
            return;
        }
        let s = libc::sockaddr_in {
            sin_family: libc::AF_INET as u16,
            sin_port: a.port().to_be(),
            sin_addr: libc::in_addr { s_addr: u32::from(*a.ip()).to_be() },
            sin_zero: [0; 8],
        };
        let n = (*len as usize).min(std::mem::size_of::<libc::sockaddr_in>());
        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, addr as *mut u8, n);
        *len = std::mem::size_of::<libc::sockaddr_in>() as socklen_t;
    }
}

fn loopback_sock() -> (c_int, libc::sockaddr_in) {
    unsafe {
        let fd = libc::syscall(libc::SYS_socket, libc::AF_INET, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0) as c_int;
        let mut a = libc::sockaddr_in {
            sin_family: libc::AF_INET as u16,
            sin_port: 0,
            sin_addr: libc::in_addr { s_addr: u32::from(Ipv4Addr::LOCALHOST).to_be() },
            sin_zero: [0; 8],
        };
        let mut len = std::mem::size_of::<libc::sockaddr_in>() as socklen_t;
        let r = libc::syscall(libc::SYS_bind, fd, &a as *const _, len);
        let r2 = libc::syscall(libc::SYS_getsockname, fd, &mut a as *mut _, &mut len as *mut _);
        if fd < 0 || r < 0 || r2 < 0 {
            crate::runner::die_engine("cannot create loopback datagram socket");
        }
        (fd, a)
    }
}

// ------------------------------------------------------------------------------------- sockets

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    let r = enter(|os| {
        let a = parse_addr(addr)?;
        os.tick();
        let mut ty: c_int = 0;
        let mut l: socklen_t = 4;
        libc::syscall(
            libc::SYS_getsockopt,
            fd,
            libc::SOL_SOCKET,
            libc::SO_TYPE,
            &mut ty as *mut _,
            &mut l as *mut _,
        );
        if ty == libc::SOCK_STREAM && os.net.is_some() {
            let now = os.now;
            let (after, peer) = match os.net.as_mut().unwrap().connect(a, now) {
                Connect::Accept(peer) => (0, Some(peer)),
                Connect::Slow(after, peer) => (after, Some(peer)),
                Connect::Refused => return Some(-libc::ECONNREFUSED),
                Connect::TimedOut => (SYN_PATIENCE, None),
            };
            let (nonblocking, rcv_timeout) = os
                .socks
                .get(&fd)
                .map(|s| (s.nonblocking, s.rcv_timeout))
                .unwrap_or((false, None));
            let open_at = now + after;
            if !nonblocking {
                os.now = open_at;
                if peer.is_none() {
                    return Some(-libc::ETIMEDOUT);
                }
            }
            let mut wire = Wire { now: open_at, ..Default::default() };
            let mut peer = peer;
            if let Some(p) = peer.as_mut() {
                p.on_open(&mut wire);
            }
            os.socks.insert(
                fd,
                Sock {
                    peer,
                    wire,
                    readable: vec![],
                    nonblocking,
                    rcv_timeout,
                    addr: a,
                    write_shut: false,
                    open_at,
                },
            );
            return Some(if nonblocking && after > 0 { -libc::EINPROGRESS } else { 0 });
        }
        if ty == libc::SOCK_DGRAM && os.udp.is_some() {
            if let Err(e) = os.udp.as_mut().unwrap().on_connect(a) {
                return Some(-e);
            }
            return Some(udp_attach(os, fd, a));
        }
        None
    });
    match r {
        Some(Some(0)) => 0,
        Some(Some(e)) => {
            set_errno(-e);
            -1
        }
        _ => sys_ret(libc::syscall(libc::SYS_connect, fd, addr, len)) as c_int,
    }
}

unsafe fn udp_attach(os: &mut Os, fd: c_int, to: SocketAddrV4) -> c_int {
    let (sfd, saddr) = loopback_sock();
    let (stray, _) = loopback_sock();
    let l = std::mem::size_of::<libc::sockaddr_in>() as socklen_t;
    if libc::syscall(libc::SYS_connect, fd, &saddr as *const _, l) < 0 {
        crate::runner::die_engine("cannot connect datagram socket to loopback");
    }
    let mut client: libc::sockaddr_in = std::mem::zeroed();
    let mut cl = l;
    libc::syscall(libc::SYS_getsockname, fd, &mut client as *mut _, &mut cl as *mut _);
    if let Some(old) = os.usocks.insert(fd, UdpSock { to, server_fd: sfd, stray_fd: stray, client }) {
        libc::syscall(libc::SYS_close, old.server_fd);
        libc::syscall(libc::SYS_close, old.stray_fd);
    }
    0
}

unsafe fn sock_read(os: &mut Os, fd: c_int, buf: *mut c_void, mut len: usize, flags: c_int) -> isize {
    match os.hiccup() {
        Some(Hiccup::Interrupted) => {
            os.tick();
            return -(libc::EINTR as isize);
        }
        Some(Hiccup::Short(n)) => len = len.min(n.max(1)),
        None => {}
    }
    loop {
        os.tick();
        let now = os.now;
        let s = os.socks.get_mut(&fd).unwrap();
        if s.peer.is_none() || s.open_at > now {
            return -(libc::ENOTCONN as isize);
        }
        s.wire.now = now;
        while let Some((at, _)) = s.wire.segs.front() {
            if *at > now {
                break;
            }
            let (_, b) = s.wire.segs.pop_front().unwrap();
            s.readable.extend_from_slice(&b);
        }
        if !s.readable.is_empty() {
            let n = len.min(s.readable.len());
            std::ptr::copy_nonoverlapping(s.readable.as_ptr(), buf as *mut u8, n);
            if flags & libc::MSG_PEEK == 0 {
                s.readable.drain(..n);
            }
            return n as isize;
        }
        if s.wire.segs.is_empty() {
            if let Some((at, rst)) = s.wire.closed {
                if at <= now {
                    return if rst { -(libc::ECONNRESET as isize) } else { 0 };
                }
            }
        }
        if s.wire.segs.is_empty() && s.wire.closed.is_none() {
            let mut peer = s.peer.take().unwrap();
            peer.on_wait(&mut s.wire);
            s.peer = Some(peer);
            if !s.wire.segs.is_empty() || s.wire.closed.is_some() {
                continue;
            }
        }
        if s.nonblocking || flags & libc::MSG_DONTWAIT != 0 {
            return -(libc::EAGAIN as isize);
        }
        let next = match s.wire.segs.front() {
            Some((at, _)) => Some(*at),
            None => s.wire.closed.map(|c| c.0),
        };
        let deadline = s.rcv_timeout.map(|t| now + t);
        match (next, deadline) {
            (Some(t), Some(d)) if t <= d => os.now = t,
            (Some(t), None) => os.now = t,
            (_, Some(d)) => {
                os.now = d;
                return -(libc::EAGAIN as isize);
            }
            (None, None) => crate::runner::die_violation(
                "hang",
                &format!("waits forever for a silent peer (no read timeout){}", os.context),
            ),
        }
    }
}

unsafe fn sock_write(os: &mut Os, fd: c_int, buf: *const c_void, mut len: usize) -> isize {
    os.tick();
    match os.hiccup() {
        Some(Hiccup::Interrupted) => return -(libc::EINTR as isize),
        Some(Hiccup::Short(n)) => len = len.min(n.max(1)),
        None => {}
    }
    let now = os.now;
    let s = os.socks.get_mut(&fd).unwrap();
    if s.peer.is_none() || s.open_at > now {
        return -(libc::ENOTCONN as isize);
    }
    if s.write_shut {
        return -(libc::EPIPE as isize);
    }
    if let Some((at, rst)) = s.wire.closed {
        if at <= now && rst {
            return -(libc::ECONNRESET as isize);
        }
    }
    s.wire.now = now;
    s.wire.unread = s.readable.len() + s.wire.segs.iter().map(|x| x.1.len()).sum::<usize>();
    let bytes = std::slice::from_raw_parts(buf as *const u8, len);
    let mut peer = s.peer.take().unwrap();
    peer.on_data(bytes, &mut s.wire);
    s.peer = Some(peer);
    len as isize
}

fn is_sock(os: &Os, fd: c_int) -> bool {
    os.socks.get(&fd).map(|s| s.peer.is_some() || s.open_at > 0).unwrap_or(false)
}

fn ret(r: isize) -> ssize_t {
    if r < 0 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}

/// A connection of an execution that is over: the other side is gone.
fn left_over(r: ssize_t) -> ssize_t {
    if r < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::ENOTCONN) && enter(|os| os.net.is_some()) == Some(true) {
        return 0;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    let r = enter(|os| {
        if is_sock(os, fd) {
            Some(sock_read(os, fd, buf, len, flags))
        } else {
            None
        }
    });
    match r {
        Some(Some(x)) => ret(x),
        _ => left_over(libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, 0usize, 0usize) as ssize_t),
    }
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(
    fd: c_int,
    buf: *mut c_void,
    len: size_t,
    flags: c_int,
    addr: *mut sockaddr,
    alen: *mut socklen_t,
) -> ssize_t {
    let r = enter(|os| {
        if is_sock(os, fd) {
            let x = sock_read(os, fd, buf, len, flags);
            fill_addr(os.socks[&fd].addr, addr, alen);
            return Some(x);
        }
        if os.usocks.contains_key(&fd) {
            os.tick();
            os.deliver_udp();
        }
        None
    });
    match r {
        Some(Some(x)) => ret(x),
        _ => libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, addr, alen) as ssize_t,
    }
}

unsafe fn udp_send(os: &mut Os, fd: c_int, bytes: &[u8]) -> isize {
    os.tick();
    let to = os.usocks[&fd].to;
    let mut w = UdpWire { now: os.now, ..Default::default() };
    os.udp.as_mut().unwrap().on_datagram(to, bytes, &mut w);
    for (at, b, stray) in w.out {
        os.uqueue.push((at, fd, b, stray));
    }
    os.deliver_udp();
    match w.fail {
        Some(e) => -(e as isize),
        None => bytes.len() as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    sendto(fd, buf, len, flags, std::ptr::null(), 0)
}

#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: c_int,
    buf: *const c_void,
    len: size_t,
    flags: c_int,
    addr: *const sockaddr,
    alen: socklen_t,
) -> ssize_t {
    let r = enter(|os| {
        if is_sock(os, fd) {
            return Some(sock_write(os, fd, buf, len));
        }
        if os.udp.is_some() {
            if let Some(to) = parse_addr(addr) {
                if os.usocks.get(&fd).map(|u| u.to) != Some(to) {
                    udp_attach(os, fd, to);
                }
            }
            if os.usocks.contains_key(&fd) {
                let b = std::slice::from_raw_parts(buf as *const u8, len).to_vec();
                return Some(udp_send(os, fd, &b));
            }
        }
        None
    });
    match r {
        Some(Some(x)) => ret(x),
        _ => libc::syscall(libc::SYS_sendto, fd, buf, len, flags, addr, alen) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    crate::step::point();
    let r = enter(|os| {
        if is_sock(os, fd) {
            Some(sock_read(os, fd, buf, len, 0))
        } else {
            None
        }
    });
    match r {
        Some(Some(x)) => ret(x),
        _ => libc::syscall(libc::SYS_read, fd, buf, len) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let r = enter(|os| {
        if is_sock(os, fd) && n > 0 {
            let v = std::slice::from_raw_parts(iov, n as usize);
            let first = v.iter().find(|v| v.iov_len > 0).unwrap_or(&v[0]);
            Some(sock_read(os, fd, first.iov_base, first.iov_len, 0))
        } else {
            None
        }
    });
    match r {
        Some(Some(x)) => ret(x),
        _ => libc::syscall(libc::SYS_readv, fd, iov, n) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let r = enter(|os| {
        let mut all = vec![];
        if is_sock(os, fd) || os.fs.as_ref().map(|f| f.fds.contains_key(&fd)).unwrap_or(false) {
            for v in std::slice::from_raw_parts(iov, n as usize) {
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
        } else {
            return None;
        }
        if is_sock(os, fd) {
            Some(sock_write(os, fd, all.as_ptr() as *const c_void, all.len()))
        } else {
            Some(fs_write(os, fd, &all, None))
        }
    });
    match r {
        Some(Some(x)) => ret(x),
        _ => libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    let r = enter(|os| {
        if is_sock(os, fd) {
            return Some(sock_write(os, fd, buf, len));
        }
        if os.fs.as_ref().map(|f| f.fds.contains_key(&fd)).unwrap_or(false) {
            let b = std::slice::from_raw_parts(buf as *const u8, len);
            return Some(fs_write(os, fd, b, None));
        }
        if os.usocks.contains_key(&fd) {
            let b = std::slice::from_raw_parts(buf as *const u8, len).to_vec();
            return Some(udp_send(os, fd, &b));
        }
        None
    });
    match r {
        Some(Some(x)) => ret(x),
        _ => libc::syscall(libc::SYS_write, fd, buf, len) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(
    fd: c_int,
    level: c_int,
    name: c_int,
    val: *const c_void,
    len: socklen_t,
) -> c_int {
    let r = enter(|os| {
        if let Some(s) = os.socks.get_mut(&fd) {
            if level == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO {
                let tv = &*(val as *const libc::timeval);
                let ns = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * 1000;
                s.rcv_timeout = if ns == 0 { None } else { Some(ns) };
            }
            return Some(0);
        }
        None
    });
    match r {
        Some(Some(x)) => x,
        _ => libc::syscall(libc::SYS_setsockopt, fd, level, name, val, len as usize) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(
    fd: c_int,
    level: c_int,
    name: c_int,
    val: *mut c_void,
    len: *mut socklen_t,
) -> c_int {
    let r = enter(|os| {
        if let Some(s) = os.socks.get(&fd) {
            if level == libc::SOL_SOCKET && name == libc::SO_ERROR {
                *(val as *mut c_int) = 0;
                *len = 4;
                return Some(0);
            }
            if level == libc::SOL_SOCKET && (name == libc::SO_RCVTIMEO || name == libc::SO_SNDTIMEO) {
                let t = if name == libc::SO_RCVTIMEO { s.rcv_timeout.unwrap_or(0) } else { 0 };
                *(val as *mut libc::timeval) = libc::timeval {
                    tv_sec: (t / SEC) as i64,
                    tv_usec: ((t % SEC) / 1000) as i64,
                };
                *len = std::mem::size_of::<libc::timeval>() as socklen_t;
                return Some(0);
            }
        }
        None
    });
    match r {
        Some(Some(x)) => x,
        _ => libc::syscall(libc::SYS_getsockopt, fd, level, name, val, len) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    let r = enter(|os| {
        if let Some(s) = os.socks.get_mut(&fd) {
            if req == libc::FIONBIO as libc::c_ulong {
                s.nonblocking = *(arg as *const c_int) != 0;
            } else if req == libc::FIONREAD as libc::c_ulong {
                let now = os.now;
                let due: usize = s.wire.segs.iter().filter(|x| x.0 <= now).map(|x| x.1.len()).sum();
                *(arg as *mut c_int) = (s.readable.len() + due) as c_int;
            }
            return Some(0);
        }
        None
    });
    match r {
        Some(Some(x)) => x,
        _ => libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int,
    }
}

unsafe fn fcntl_impl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = enter(|os| {
        if let Some(s) = os.socks.get_mut(&fd) {
            if cmd == libc::F_SETFL {
                s.nonblocking = arg as c_int & libc::O_NONBLOCK != 0;
                return Some(0);
            }
            if cmd == libc::F_GETFL {
                return Some(libc::O_RDWR | if s.nonblocking { libc::O_NONBLOCK } else { 0 });
            }
        }
        None
    });
    match r {
        Some(Some(x)) => x,
        _ => libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl_impl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl_impl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let r = enter(|os| {
        if let Some(s) = os.socks.get_mut(&fd) {
            if how != libc::SHUT_RD {
                s.write_shut = true;
            }
            if how != libc::SHUT_WR && s.wire.closed.is_none() {
                // what is queued stays readable, then end of stream (as Linux does)
                s.wire.closed = Some((s.wire.last_arrival.max(s.wire.now), false));
            }
            return Some(0);
        }
        None
    });
    match r {
        Some(Some(x)) => x,
        _ => libc::syscall(libc::SYS_shutdown, fd, how) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, addr: *mut sockaddr, len: *mut socklen_t) -> c_int {
    let r = enter(|os| {
        if let Some(s) = os.socks.get(&fd) {
            fill_addr(s.addr, addr, len);
            return Some(0);
        }
        if let Some(u) = os.usocks.get(&fd) {
            fill_addr(u.to, addr, len);
            return Some(0);
        }
        None
    });
    match r {
        Some(Some(x)) => x,
        _ => libc::syscall(libc::SYS_getpeername, fd, addr, len) as c_int,
    }
}

/// Readiness of simulated sockets, or the real call when none is involved.
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let r = enter(|os| {
        let v = std::slice::from_raw_parts_mut(fds, n as usize);
        if !v.iter().any(|p| is_sock(os, p.fd)) {
            return None;
        }
        let deadline = if timeout < 0 { None } else { Some(os.now + timeout as u64 * MS) };
        loop {
            os.tick();
            let now = os.now;
            let mut ready = 0;
            let mut next: Option<u64> = None;
            for p in v.iter_mut() {
                p.revents = 0;
                if let Some(s) = os.socks.get_mut(&p.fd) {
                    if s.open_at > now {
                        next = Some(next.map_or(s.open_at, |x: u64| x.min(s.open_at)));
                        continue;
                    }
                    s.wire.now = now;
                    if s.readable.is_empty() && s.wire.idle() && p.events & libc::POLLIN != 0 {
                        if let Some(mut peer) = s.peer.take() {
                            peer.on_wait(&mut s.wire);
                            s.peer = Some(peer);
                        }
                    }
                    let due = s.wire.segs.front().map(|x| x.0).or(s.wire.closed.map(|c| c.0));
                    if !s.readable.is_empty() || due.map(|t| t <= now).unwrap_or(false) {
                        p.revents |= p.events & libc::POLLIN;
                    } else if let Some(t) = due {
                        next = Some(next.map_or(t, |x| x.min(t)));
                    }
                    p.revents |= p.events & libc::POLLOUT;
                    if s.peer.is_none() {
                        p.revents |= libc::POLLERR | libc::POLLHUP;
                    }
                }
                if p.revents != 0 {
                    ready += 1;
                }
            }
            if ready > 0 {
                return Some(ready);
            }
            match (next, deadline) {
                (Some(t), Some(d)) if t <= d => os.now = t,
                (Some(t), None) => os.now = t,
                (_, Some(d)) => {
                    os.now = d;
                    return Some(0);
                }
                (None, None) => crate::runner::die_violation("hang", "polls forever on a silent peer"),
            }
        }
    });
    match r {
        Some(Some(x)) => x,
        _ => libc::syscall(libc::SYS_poll, fds, n, timeout) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(
    epfd: c_int,
    evs: *mut libc::epoll_event,
    max: c_int,
    timeout: c_int,
) -> c_int {
    let raw = |t: c_int| -> c_int {
        libc::syscall(libc::SYS_epoll_pwait, epfd, evs, max, t, 0usize, 8usize) as c_int
    };
    let r = enter(|os| {
        if os.udp.is_none() && os.idle.is_none() {
            return None;
        }
        let deadline = if timeout < 0 { None } else { Some(os.now + timeout as u64 * MS) };
        loop {
            os.tick();
            os.deliver_udp();
            let n = raw(0);
            if n != 0 || timeout == 0 {
                return Some(n);
            }
            let next = [os.next_udp(), deadline].into_iter().flatten().min();
            if let Some(idle) = os.idle.as_mut() {
                if idle.waker.is_some() {
                    if idle.advance && next.is_some() {
                        idle.advance = false;
                        os.now = os.now.max(next.unwrap());
                        if deadline.map(|d| d <= os.now).unwrap_or(false) {
                            os.deliver_udp();
                            return Some(raw(0));
                        }
                        continue;
                    }
                    idle.advance = false;
                    idle.idle = true;
                    idle.next = next;
                    idle.waker.take().unwrap().wake();
                    return Some(raw(0));
                }
            }
            match (os.next_udp(), deadline) {
                (Some(t), Some(d)) if t <= d => os.now = t,
                (Some(t), None) => os.now = t,
                (_, Some(d)) => {
                    os.now = d;
                    return Some(0);
                }
                (None, None) => {
                    // other threads of the runtime may still wake us up: give them real time
                    let n = raw(300);
                    if n != 0 {
                        return Some(n);
                    }
                    crate::runner::die_violation(
                        "hang",
                        &format!("waits forever for a datagram that never comes{}", os.context),
                    )
                }
            }
        }
    });
    match r {
        Some(Some(x)) => x,
        _ => raw(timeout),
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    enter(|os| {
        if let Some(mut s) = os.socks.remove(&fd) {
            if let Some(p) = s.peer.as_mut() {
                p.on_client_close();
            }
        }
        if let Some(u) = os.usocks.remove(&fd) {
            libc::syscall(libc::SYS_close, u.server_fd);
            libc::syscall(libc::SYS_close, u.stray_fd);
        }
        if let Some(f) = os.fs.as_mut() {
            f.fds.remove(&fd);
        }
    });
    libc::syscall(libc::SYS_close, fd) as c_int
}

/// A socket created while an Os is active is registered so that options set before connect() stick.
#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    let fd = libc::syscall(libc::SYS_socket, domain, ty, proto) as c_int;
    if fd >= 0 && domain == libc::AF_INET && ty & 0xf == libc::SOCK_STREAM {
        enter(|os| {
            if os.net.is_some() {
                os.socks.insert(
                    fd,
                    Sock {
                        peer: None,
                        wire: Wire::default(),
                        readable: vec![],
                        nonblocking: ty & libc::SOCK_NONBLOCK != 0,
                        rcv_timeout: None,
                        addr: SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0),
                        write_shut: false,
                        open_at: 0,
                    },
                );
            }
        });
    }
    fd
}

// --------------------------------------------------------------------------------------- clock

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let r = enter(|os| {
        if id == libc::CLOCK_PROCESS_CPUTIME_ID || id == libc::CLOCK_THREAD_CPUTIME_ID {
            return false;
        }
        os.calls += 1;
        // reading the clock takes a little time: busy-waiting loops terminate
        os.now += 200;
        (*ts).tv_sec = (BASE_SEC + os.now / SEC) as i64;
        (*ts).tv_nsec = (os.now % SEC) as i64;
        if os.calls > os.call_limit {
            os.tick();
        }
        true
    });
    if r == Some(true) {
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int
}

unsafe fn vsleep(req: *const libc::timespec) -> bool {
    enter(|os| {
        os.tick();
        os.now += (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
    })
    .is_some()
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if vsleep(req) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    let r = enter(|os| {
        os.tick();
        let t = (*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            os.now = os.now.max(t.saturating_sub(BASE_SEC * SEC));
        } else {
            os.now += t;
        }
    });
    if r.is_some() {
        return 0;
    }
    let x = libc::syscall(libc::SYS_clock_nanosleep, id, flags, req, rem);
    if x < 0 {
        *libc::__errno_location()
    } else {
        0
    }
}

// ---------------------------------------------------------------------------------------- disk

unsafe fn path_str(p: *const c_char) -> String {
    String::from_utf8_lossy(std::ffi::CStr::from_ptr(p).to_bytes()).into_owned()
}

unsafe fn fs_write(os: &mut Os, fd: c_int, bytes: &[u8], off: Option<i64>) -> isize {
    crate::step::point();
    let fs = os.fs.as_mut().unwrap();
    let path = fs.fds[&fd].clone();
    let raw = |n: usize| -> isize {
        let r = match off {
            Some(o) => libc::syscall(libc::SYS_pwrite64, fd, bytes.as_ptr(), n, o),
            None => libc::syscall(libc::SYS_write, fd, bytes.as_ptr(), n),
        };
        if r < 0 {
            -(*libc::__errno_location() as isize)
        } else {
            r as isize
        }
    };
    match fs.gate(FsOp { kind: "write", path, off: off.unwrap_or(-1), len: bytes.len() }) {
        Gate::Go => raw(bytes.len()),
        Gate::Drop => bytes.len() as isize,
        Gate::Torn(k) => {
            raw(k.min(bytes.len()));
            bytes.len() as isize
        }
        Gate::Short(k) => raw(k.min(bytes.len())),
        Gate::Errno(e) => -(e as isize),
    }
}

unsafe fn open_impl(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    crate::step::point();
    let r = enter(|os| {
        let fs = os.fs.as_mut()?;
        let p = path_str(path);
        if !p.starts_with('/') && dirfd != libc::AT_FDCWD {
            return None;
        }
        let norm = fs.normalize(&p);
        let acc = flags & libc::O_ACCMODE;
        let mutating = acc != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
        if !mutating {
            if fs.inside(&norm) {
                let fd = libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as usize) as c_int;
                return Some(if fd < 0 { -*libc::__errno_location() } else { fd });
            }
            return None;
        }
        // opening for writing an existing file without truncation changes nothing by itself
        Some(match fs.gate(FsOp { kind: "open", path: norm.clone(), off: 0, len: 0 }) {
            Gate::Go | Gate::Short(_) | Gate::Torn(_) => {
                let fd = libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as usize) as c_int;
                if fd < 0 {
                    -*libc::__errno_location()
                } else {
                    fs.fds.insert(fd, norm);
                    fd
                }
            }
            Gate::Drop => {
                let name = b"gone\0";
                let fd = libc::syscall(libc::SYS_memfd_create, name.as_ptr(), 1) as c_int;
                fs.fds.insert(fd, norm);
                fd
            }
            Gate::Errno(e) => -e,
        })
    });
    match r {
        Some(Some(fd)) if fd >= 0 => fd,
        Some(Some(e)) => {
            set_errno(-e);
            -1
        }
        _ => libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as usize) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(d, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let r = enter(|os| {
        if os.fs.as_ref().map(|f| f.fds.contains_key(&fd)).unwrap_or(false) {
            let b = std::slice::from_raw_parts(buf as *const u8, n);
            return Some(fs_write(os, fd, b, Some(off)));
        }
        None
    });
    match r {
        Some(Some(x)) => ret(x),
        _ => libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}

/// Gate for operations that name one or two paths; returns None to go ahead with the real call.
unsafe fn path_gate(kind: &'static str, paths: &[*const c_char]) -> Option<c_int> {
    crate::step::point();
    enter(|os| {
        let fs = os.fs.as_mut()?;
        for (i, p) in paths.iter().enumerate() {
            let norm = fs.normalize(&path_str(*p));
            let op = FsOp { kind, path: norm, off: 0, len: 0 };
            if i > 0 {
                if !fs.inside(&op.path) {
                    fs.escapes.push(format!("{} {}", kind, op.path));
                    return Some(libc::EACCES);
                }
                continue;
            }
            match fs.gate(op) {
                Gate::Go | Gate::Short(_) => {}
                Gate::Drop | Gate::Torn(_) => return Some(0),
                Gate::Errno(e) => return Some(e),
            }
        }
        None
    })
    .flatten()
}

fn gated(r: Option<c_int>, go: impl FnOnce() -> c_int) -> c_int {
    match r {
        Some(0) => 0,
        Some(e) => {
            set_errno(e);
            -1
        }
        None => go(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    // creating a directory that exists (possibly an ancestor of the root) changes nothing
    let exists = enter(|os| {
        let fs = os.fs.as_ref()?;
        let norm = fs.normalize(&path_str(path));
        Some(fs.root.starts_with(&format!("{norm}/")) || fs.root == norm || norm == "/")
    })
    .flatten();
    if exists == Some(true) {
        set_errno(libc::EEXIST);
        return -1;
    }
    gated(path_gate("mkdir", &[path]), || {
        libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode as usize) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    gated(path_gate("rename", &[a, b]), || {
        libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    gated(path_gate("unlink", &[a]), || {
        libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, a, 0) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    gated(path_gate("rmdir", &[a]), || {
        libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, a, libc::AT_REMOVEDIR) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    gated(path_gate("symlink", &[b, a]), || {
        libc::syscall(libc::SYS_symlinkat, a, libc::AT_FDCWD, b) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    gated(path_gate("link", &[b, a]), || {
        libc::syscall(libc::SYS_linkat, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: mode_t) -> c_int {
    gated(path_gate("chmod", &[a]), || {
        libc::syscall(libc::SYS_fchmodat, libc::AT_FDCWD, a, m as usize) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    crate::step::point();
    let r = enter(|os| {
        let fs = os.fs.as_mut()?;
        let path = fs.fds.get(&fd)?.clone();
        match fs.gate(FsOp { kind: "truncate", path, off: len, len: 0 }) {
            Gate::Go | Gate::Short(_) => None,
            Gate::Drop | Gate::Torn(_) => Some(0),
            Gate::Errno(e) => Some(e),
        }
    })
    .flatten();
    gated(r, || libc::syscall(libc::SYS_ftruncate, fd, len) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: c_uint) -> c_int {
    open_impl(libc::AT_FDCWD, path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode as mode_t)
}

/// Referenced by the runner so that the linker always takes this object file.
pub fn linked() -> usize {
    [
        connect as *const () as usize,
        getrandom as *const () as usize,
        recv as *const () as usize,
        send as *const () as usize,
        epoll_wait as *const () as usize,
        open64 as *const () as usize,
        pwrite64 as *const () as usize,
        nanosleep as *const () as usize,
        clock_gettime as *const () as usize,
        mkdir as *const () as usize,
        close as *const () as usize,
        crate::step::syscall as *const () as usize,
        crate::step::sched_yield as *const () as usize,
    ]
    .iter()
    .fold(0, |a, b| a ^ b)
}
