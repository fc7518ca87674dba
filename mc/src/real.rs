//! Runs of the whole real program (its own executable, real threads, sockets and clock) between
//! stand-ins for trackers and peers on the loopback interface. They bind the simulated runs to the
//! program: its main function, its server and its pools of workers are not simulated here.
use crate::swarm::serve_stream;
use crate::util::*;
use crate::world::*;
use sim::os::*;
use sim::runner::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddrV4, TcpListener, TcpStream, UdpSocket};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// One request to the program.
#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub uri: String,
    pub body: Vec<u8>,
}

pub struct Run {
    pub trackers: Vec<SocketAddrV4>,
    /// Whether the n-th tracker answers.
    pub answers: fn(usize) -> bool,
    /// The numbers of the peers the n-th tracker lists for a torrent.
    pub lists: Box<dyn Fn(usize, &[u8]) -> Vec<usize> + Send + Sync>,
    pub shares: Vec<Share>,
    /// Their addresses do not matter; they get some on the loopback interface.
    pub peers: Vec<PeerCfg>,
    pub posts: Vec<Req>,
    /// All posts at once.
    pub together: bool,
    /// Kill the program when it has stored this many bytes, then start it and post everything again.
    pub kills: Vec<usize>,
}

#[derive(Default, Clone)]
pub struct Found {
    pub statuses: Vec<Option<u16>>,
    /// Announces by tracker and info hash.
    pub asked: BTreeMap<(usize, Vec<u8>), usize>,
    /// Handshakes by peer and info hash.
    pub used: Vec<(usize, Vec<u8>)>,
    pub disk: BTreeMap<String, Vec<u8>>,
    pub died: bool,
    pub said: String,
    pub bad: Option<Fail>,
    /// Threads and open files after each torrent.
    pub held: Vec<(usize, usize)>,
}

fn program() -> Option<(String, String)> {
    let dir = std::env::var("VERIF_DIR").ok()?;
    let (p, l) = (format!("{dir}/target/real/debug/rust_bit"), format!("{dir}/target/real/preload.so"));
    (std::path::Path::new(&p).exists() && std::path::Path::new(&l).exists()).then_some((p, l))
}

fn ours(k: u8, port: u16) -> SocketAddrV4 {
    let p = std::process::id();
    SocketAddrV4::new(Ipv4Addr::new(127, 64 + ((p >> 8) % 190) as u8, p as u8, k), port)
}

const HTTP: u16 = 8080;

fn files(dir: &str) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    fn walk(dir: &str, pre: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            match e.file_type() {
                Ok(t) if t.is_dir() => walk(&format!("{dir}/{name}"), &format!("{pre}{name}/"), out),
                Ok(t) if t.is_file() => {
                    out.insert(format!("{pre}{name}"), std::fs::read(format!("{dir}/{name}")).unwrap_or_default());
                }
                _ => {}
            }
        }
    }
    walk(dir, "", &mut out);
    out
}

/// The status line's code, if an answer came.
fn post(r: &Req) -> Option<u16> {
    let mut s = TcpStream::connect_timeout(&ours(1, HTTP).into(), Duration::from_secs(5)).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(20))).ok()?;
    let head = format!("{} {} HTTP/1.1\r\nHost: here\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", r.method, r.uri, r.body.len());
    s.write_all(&[head.as_bytes(), &r.body].concat()).ok()?;
    let mut got = vec![];
    let mut buf = [0u8; 4096];
    while let Ok(n @ 1..) = s.read(&mut buf) {
        got.extend_from_slice(&buf[..n]);
    }
    String::from_utf8_lossy(&got).strip_prefix("HTTP/1.1 ")?.get(..3)?.parse().ok()
}

struct Stage {
    stop: Arc<AtomicBool>,
    found: Arc<Mutex<Found>>,
    /// The longest a sleeping thread overslept, in milliseconds.
    lag: Arc<AtomicU64>,
    threads: Vec<std::thread::JoinHandle<()>>,
}

impl Drop for Stage {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        for t in self.threads.drain(..) {
            let _ = t.join();
        }
    }
}

fn tracker(n: usize, s: UdpSocket, run: &Arc<Run>, found: &Arc<Mutex<Found>>, stop: &Arc<AtomicBool>) -> std::thread::JoinHandle<()> {
    let (run, found, stop) = (run.clone(), found.clone(), stop.clone());
    std::thread::spawn(move || {
        let mut buf = [0u8; 2048];
        while !stop.load(SeqCst) {
            let Ok((len, from)) = s.recv_from(&mut buf) else { continue };
            if !(run.answers)(n) || len < 16 {
                continue;
            }
            let tid = &buf[12..16];
            if buf[8..12] == [0, 0, 0, 0] {
                let _ = s.send_to(&[&[0u8; 4][..], tid, b"conn-id!"].concat(), from);
            } else if buf[8..12] == [0, 0, 0, 1] && len >= 98 && &buf[..8] == b"conn-id!" {
                let hash = buf[16..36].to_vec();
                let mut r = [&[0, 0, 0, 1][..], tid, &[0, 0, 7, 8, 0, 0, 0, 1, 0, 0, 0, 1]].concat();
                for p in (run.lists)(n, &hash) {
                    r.extend(peer_at(p).ip().octets());
                    r.extend(peer_at(p).port().to_be_bytes());
                }
                *found.lock().unwrap().asked.entry((n, hash)).or_insert(0) += 1;
                let _ = s.send_to(&r, from);
            }
        }
    })
}

/// Peers beyond those of the run do not exist.
pub fn peer_at(k: usize) -> SocketAddrV4 {
    ours(100 + (k / 3) as u8, 6881 + (k % 3) as u16)
}

fn peer(k: usize, l: TcpListener, run: &Arc<Run>, found: &Arc<Mutex<Found>>, stop: &Arc<AtomicBool>) -> std::thread::JoinHandle<()> {
    let (run, found, stop) = (run.clone(), found.clone(), stop.clone());
    std::thread::spawn(move || {
        let mut sessions = vec![];
        while !stop.load(SeqCst) {
            let Ok((s, _)) = l.accept() else {
                std::thread::sleep(Duration::from_millis(2));
                continue;
            };
            let _ = s.set_nonblocking(false);
            let (run, found, stop) = (run.clone(), found.clone(), stop.clone());
            sessions.push(std::thread::spawn(move || {
                let log = Rc::new(RefCell::new(Log::default()));
                let mut swarm = Swarm::new(run.peers.clone(), Rc::new(run.shares.clone()), log.clone());
                if let Connect::Accept(p) = swarm.connect(run.peers[k].at, 0) {
                    serve_stream(s, p, &|| stop.load(SeqCst));
                }
                let mut f = found.lock().unwrap();
                for (_, _, s) in &log.borrow().seen {
                    if let Seen::Shake(h) = s {
                        f.used.push((k, h.clone()));
                    }
                }
                let bad = log.borrow_mut().bad.take();
                if let Some(b) = bad {
                    f.bad.get_or_insert(b);
                }
            }));
        }
        for s in sessions {
            let _ = s.join();
        }
    })
}

fn start(dir: &str, run: &Run) -> Option<Child> {
    let (bin, lib) = program()?;
    let map: Vec<String> = run.trackers.iter().enumerate().map(|(n, t)| format!("{t}={}", ours(10 + n as u8, 20000))).collect();
    let mut cmd = Command::new(bin);
    cmd.current_dir(dir).env_clear().env("LD_PRELOAD", lib).env("REAL_MAP", map.join(";")).env("REAL_NONE", ours(250, 9).to_string());
    cmd.env("REAL_HTTP", ours(1, HTTP).to_string()).env("MALLOC_ARENA_MAX", "2").env("RUST_BACKTRACE", "0");
    cmd.stdin(Stdio::null()).stdout(Stdio::null());
    cmd.stderr(std::fs::OpenOptions::new().create(true).append(true).open(format!("{dir}.err")).ok()?);
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    cmd.spawn().ok()
}

fn gone(c: &mut Child) -> bool {
    !matches!(c.try_wait(), Ok(None))
}

/// Trackers and peers.
fn set(run: &Arc<Run>) -> Option<Stage> {
    let found = Arc::new(Mutex::new(Found::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let mut stage = Stage { stop: stop.clone(), found: found.clone(), lag: Default::default(), threads: vec![] };
    for n in 0..run.trackers.len() {
        let s = UdpSocket::bind(ours(10 + n as u8, 20000)).ok()?;
        s.set_read_timeout(Some(Duration::from_millis(20))).ok()?;
        stage.threads.push(tracker(n, s, run, &found, &stop));
    }
    for k in 0..run.peers.len() {
        if run.peers[k].refuse.is_none() {
            let l = TcpListener::bind(peer_at(k)).ok()?;
            l.set_nonblocking(true).ok()?;
            TcpStream::connect_timeout(&peer_at(k).into(), Duration::from_secs(2)).ok()?;
            stage.threads.push(peer(k, l, run, &found, &stop));
        }
    }
    let (s, lag) = (stop.clone(), stage.lag.clone());
    stage.threads.push(std::thread::spawn(move || {
        while !s.load(SeqCst) {
            let t = Instant::now();
            std::thread::sleep(Duration::from_millis(3));
            lag.fetch_max(t.elapsed().as_millis() as u64 - 3, SeqCst);
        }
    }));
    Some(stage)
}

fn listening(child: &mut Child, limit: Instant) {
    while TcpStream::connect_timeout(&ours(1, HTTP).into(), Duration::from_millis(200)).is_err() {
        if Instant::now() > limit || gone(child) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// None: the machine cannot run the program. Otherwise whether all came to pass within the time.
fn attempt(run: &Arc<Run>, done: &dyn Fn(&Found) -> bool, dir: &str, secs: u64) -> Option<(bool, Found, u64)> {
    std::fs::create_dir(dir).ok()?;
    let stage = set(run)?;
    let found = stage.found.clone();
    let mut kills = run.kills.iter();
    let limit = Instant::now() + Duration::from_secs(secs);
    let mut ok = false;
    while Instant::now() < limit {
        let mut child = start(dir, run)?;
        listening(&mut child, limit);
        let statuses: Vec<Option<u16>> = if run.together {
            let all: Vec<_> = run.posts.iter().map(|p| { let p = p.clone(); std::thread::spawn(move || post(&p)) }).collect();
            all.into_iter().map(|t| t.join().unwrap_or(None)).collect()
        } else {
            run.posts.iter().map(post).collect()
        };
        stage.found.lock().unwrap().statuses = statuses;
        let kill = kills.next();
        let mut died = false;
        while Instant::now() < limit {
            died = gone(&mut child);
            let disk = files(dir);
            let n: usize = run.shares.iter().flat_map(|s| s.stored(&disk)).filter(|x| *x).count();
            if kill.is_some_and(|k| n >= *k) {
                break;
            }
            let mut f = stage.found.lock().unwrap();
            f.disk = disk;
            f.died = died;
            ok = kill.is_none() && done(&f);
            drop(f);
            if ok || died {
                break;
            }
            std::thread::sleep(Duration::from_millis(if kill.is_some() { 1 } else { 10 }));
        }
        if ok {
            // a little longer, for what should not come
            std::thread::sleep(Duration::from_millis(300));
            let mut f = stage.found.lock().unwrap();
            f.disk = files(dir);
            f.died = gone(&mut child);
            ok = done(&f);
        }
        let _ = child.kill();
        let _ = child.wait();
        if kill.is_none() || died {
            break;
        }
    }
    let lag = stage.lag.load(SeqCst);
    drop(stage);
    let mut f = found.lock().unwrap().clone();
    f.said = std::fs::read_to_string(format!("{dir}.err")).unwrap_or_default();
    Some((ok, f, lag))
}

/// Runs the program until `done`; a failure counts when it comes three times on a machine that is
/// not too busy for the client's timeouts.
pub fn real(run: Run, done: &dyn Fn(&Found) -> bool, why: &dyn Fn(&Found) -> String, c: &mut Case) -> Result<(), Fail> {
    let run = Arc::new(run);
    confirm(&run, &|dir| attempt(&run, done, dir, 20), why, c)
}

fn confirm(run: &Run, attempt: &dyn Fn(&str) -> Option<(bool, Found, u64)>, why: &dyn Fn(&Found) -> String, c: &mut Case) -> Result<(), Fail> {
    if program().is_none() || run.trackers.is_empty() {
        c.outcome("the real program is not there");
        return Ok(());
    }
    c.nontrivial(sim::fnv(c.text_bytes()));
    let (mut failed, mut last) = (0, None);
    for n in 0..6 {
        let dir = format!("{}/real{n}", cwd());
        let r = attempt(&dir);
        let _ = std::fs::remove_dir_all(&dir);
        let _ = std::fs::remove_file(format!("{dir}.err"));
        match r {
            None => {
                c.outcome("the real program cannot be run here");
                return Ok(());
            }
            Some((true, f, _)) if f.bad.is_none() && !f.said.contains("panicked at") => {
                c.conformance(1);
                c.steps(f.used.len() as u64 + f.asked.len() as u64);
                c.outcome("as simulated");
                return Ok(());
            }
            Some((ok, f, lag)) => {
                if lag < 100 {
                    failed += 1;
                }
                let what = match (&f.bad, f.said.lines().find(|l| l.contains("panicked at")), f.died) {
                    (Some(b), ..) => b.msg.clone(),
                    (_, Some(l), _) => l.to_string(),
                    (_, _, true) => "the program ended".into(),
                    _ if ok => "?".into(),
                    _ => why(&f),
                };
                last = Some(what);
                if failed == 3 {
                    return fail("the real program fails", last.unwrap());
                }
            }
        }
    }
    c.outcome(format!("not confirmed with the real program: {}", last.unwrap_or_default()));
    Ok(())
}

fn magnets(shares: &[Share]) -> Vec<Req> {
    shares.iter().enumerate().map(|(k, s)| good(crate::trackers::link(k, &s.t.hash).as_bytes())).collect()
}

pub fn good(body: &[u8]) -> Req {
    Req { method: "POST".into(), uri: "/add/magnet".into(), body: body.to_vec() }
}

fn menu() -> Vec<Share> {
    vec![
        Share::new("m", 8, &[("a", 5), ("d/b", 9), ("z", 0), ("c", 7)], false),
        Share::single("f", 8, 21),
        Share::single("g", 20000, 145000),
        Share::new("e", 4, &[("z0", 0), ("x/y/a", 4), ("x/y/b", 9), ("z1", 0)], false),
        Share::single("h", 4, 129),
        Share::new("s", 16, &[("s/1", 3), ("s/2", 30), ("s/3", 1), ("s/4", 14)], false),
    ]
}

fn at(mut p: PeerCfg, k: usize, serves: Vec<usize>) -> PeerCfg {
    p.at = peer_at(k);
    p.serves = serves;
    p
}

fn finished(shares: &[Share], f: &Found) -> Result<(), String> {
    shares.iter().try_for_each(|s| s.finished(&f.disk))
}

/// For C32: from the post to the files.
pub fn downloads(ctx: &mut Ctx) {
    let counts = [1usize, 2, 6];
    let rad = [counts.len(), 4, 2];
    ctx.enumerate("the real program", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let n = counts[d[0]];
        let mut shares = menu();
        shares.rotate_left((i % 6) as usize);
        shares.truncate(n);
        let hashes: Vec<Vec<u8>> = shares.iter().map(|s| s.t.hash.clone()).collect();
        c.text(format!("{n} torrents, {}, added {}", ["good peers", "unreachable peers too", "peers that falsify too", "one tracker alone"][d[1]], ["in turn", "together"][d[2]]));
        let bad = [None, Some(Mood::Good), Some(Mood::Corrupt), None][d[1]];
        let mut peers: Vec<PeerCfg> = (0..n).map(|k| at(PeerCfg::good(0), k, vec![k])).collect();
        peers.extend(bad.map(|m| PeerCfg {
            refuse: (m == Mood::Good).then_some(false),
            meta: Moods::Always(m),
            ..at(PeerCfg::with(0, Moods::Always(m)), n, (0..n).collect())
        }));
        let (hs, extra) = (hashes.clone(), peers.len() > n);
        let one = d[1] == 3;
        let run = Run {
            trackers: crate::trackers::configured(),
            answers: if one { |n| n == 1 } else { |_| true },
            lists: Box::new(move |_, h| hs.iter().position(|x| x == h).into_iter().flat_map(|k| [n].into_iter().filter(|_| extra).chain([k])).collect()),
            posts: magnets(&shares),
            shares: shares.clone(),
            peers,
            together: d[2] == 1,
            kills: vec![],
        };
        let wrong = |f: &Found| f.used.iter().any(|(k, h)| *k < n && hashes[*k] != *h);
        let done = |f: &Found| f.statuses.iter().all(|s| *s == Some(200)) && !f.died && !wrong(f) && finished(&shares, f).is_ok();
        let why = |f: &Found| match finished(&shares, f) {
            _ if wrong(f) => format!("peer used for a torrent it was not announced for: {:?}", f.used.iter().map(|u| u.0).collect::<Vec<_>>()),
            Err(e) => format!("{e}; statuses {:?}", f.statuses),
            Ok(()) => format!("statuses {:?}", f.statuses),
        };
        real(run, &done, &why, c)
    });
}

/// For C29: killed while it downloads, once or twice.
pub fn kills(ctx: &mut Ctx) {
    let rad = [3usize, 4];
    ctx.enumerate("the real program killed", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let shares = vec![menu().swap_remove([0, 2, 4][d[0]])];
        let kills = [vec![0], vec![1], vec![2], vec![1, 2]][d[1]].clone();
        c.text(format!("files {:?}, killed when it has stored {kills:?} pieces", shares[0].files));
        let run = Run {
            trackers: crate::trackers::configured(),
            answers: |_| true,
            lists: Box::new(|_, _| vec![0, 1]),
            posts: magnets(&shares),
            shares: shares.clone(),
            peers: (0..2).map(|k| at(PeerCfg::good(0), k, vec![0])).collect(),
            together: false,
            kills,
        };
        let done = |f: &Found| !f.died && finished(&shares, f).is_ok();
        real(run, &done, &|f| finished(&shares, f).err().unwrap_or_default(), c)
    });
}

/// Torrents one after the other; what the program holds when each is done and the trackers have
/// answered.
#[cfg(feature = "kept")]
fn one_by_one(run: &Arc<Run>, dir: &str) -> Option<(bool, Found, u64)> {
    std::fs::create_dir(dir).ok()?;
    let stage = set(run)?;
    let limit = Instant::now() + Duration::from_secs(40);
    let mut child = start(dir, run)?;
    listening(&mut child, limit);
    let proc = format!("/proc/{}", child.id());
    let count = |d: &str| std::fs::read_dir(format!("{proc}/{d}")).map(|d| d.count()).unwrap_or(0);
    let mut held: Vec<(usize, usize)> = vec![];
    for (k, p) in run.posts.iter().enumerate() {
        let status = post(p);
        stage.found.lock().unwrap().statuses.push(status);
        let hash = &run.shares[k].t.hash;
        while Instant::now() < limit && !gone(&mut child) {
            let asked = stage.found.lock().unwrap().asked.keys().filter(|a| a.1 == *hash).count();
            if asked == run.trackers.len() && run.shares[k].finished(&files(dir)).is_ok() {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        // time to end what is to end: until no more than before is left
        let mut least = (usize::MAX, usize::MAX);
        let patience = Instant::now() + Duration::from_millis(if k == 0 { 1000 } else { 5000 });
        while Instant::now() < patience.min(limit) && !held.last().is_some_and(|h| least.0 <= h.0 && least.1 <= h.1) {
            least = (least.0.min(count("task")), least.1.min(count("fd")));
            std::thread::sleep(Duration::from_millis(10));
        }
        held.push(least);
    }
    let died = gone(&mut child);
    let _ = child.kill();
    let _ = child.wait();
    let lag = stage.lag.load(SeqCst);
    let found = stage.found.clone();
    drop(stage);
    let mut f = found.lock().unwrap().clone();
    f.died = died;
    f.disk = files(dir);
    f.said = std::fs::read_to_string(format!("{dir}.err")).unwrap_or_default();
    let grows = |g: &dyn Fn(&(usize, usize)) -> usize| held.windows(2).all(|w| g(&w[1]) > g(&w[0]));
    let ok = !grows(&|h| h.0) && !grows(&|h| h.1);
    f.held = held;
    Some((ok, f, lag))
}

/// For C33: torrent after torrent.
#[cfg(feature = "kept")]
pub fn kept(ctx: &mut Ctx) {
    ctx.enumerate("torrent after torrent in the real program", 4, |i, c| {
        let mut shares = menu();
        shares.rotate_left((i % 6) as usize);
        shares.truncate(3);
        let n = shares.len();
        let hashes: Vec<Vec<u8>> = shares.iter().map(|s| s.t.hash.clone()).collect();
        c.text(format!("{n} torrents one after the other, {}", ["good peers", "unreachable peers too", "peers that falsify too", "peers that hang up too"][i as usize]));
        let bad = [None, Some(Mood::Good), Some(Mood::Corrupt), Some(Mood::Close)][i as usize];
        let mut peers: Vec<PeerCfg> = (0..n).map(|k| at(PeerCfg::good(0), k, vec![k])).collect();
        peers.extend(bad.map(|m| PeerCfg {
            refuse: (m == Mood::Good).then_some(false),
            meta: Moods::Always(m),
            ..at(PeerCfg::with(0, Moods::Always(m)), n, (0..n).collect())
        }));
        let (hs, extra) = (hashes.clone(), peers.len() > n);
        let run = Arc::new(Run {
            trackers: crate::trackers::configured(),
            answers: |_| true,
            lists: Box::new(move |_, h| hs.iter().position(|x| x == h).into_iter().flat_map(|k| [n].into_iter().filter(|_| extra).chain([k])).collect()),
            posts: magnets(&shares),
            shares,
            peers,
            together: false,
            kills: vec![],
        });
        confirm(&run, &|dir| one_by_one(&run, dir), &|f| format!("threads and open files after each torrent: {:?}", f.held), c)
    });
}
