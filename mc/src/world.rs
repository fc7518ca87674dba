//! The whole client (real actors, real actix) in a simulated world: every delivery order of its
//! workers' results, every peer and disk behaviour is decided by the explorer.
use crate::swarm::*;
use crate::util::*;
use actix::prelude::*;
#[cfg(feature = "actors")]
use rust_bit::verif::actors::*;
#[cfg(feature = "actors")]
use rust_bit::verif::tracker::PeerEndpoint;
use sim::explore;
use sim::os::*;
use sim::runner::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::rc::Rc;

/// A torrent with its files as they must end up below the working directory.
#[derive(Clone)]
pub struct Share {
    pub t: Torrent,
    pub files: Vec<(String, usize)>,
}

/// Bytes without zeros, so that what was never written can be told from what was.
pub fn content(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 32) as u8 | 1
        })
        .collect()
}

impl Share {
    /// `files`: path and length of each; None: a single file called `name`.
    pub fn new(name: &str, pl: usize, lens: &[(&str, usize)], single: bool) -> Share {
        let total: usize = lens.iter().map(|f| f.1).sum();
        let content = content(sim::fnv(name.as_bytes()), total);
        let pieces: Vec<u8> = content.chunks(pl).flat_map(sha1).collect();
        let mut d = vec![];
        if single {
            d.push((b"length".to_vec(), Ben::Int(total as u64)));
        } else {
            let list = lens
                .iter()
                .map(|(p, n)| {
                    Ben::Dict(vec![
                        (b"length".to_vec(), Ben::Int(*n as u64)),
                        (b"path".to_vec(), Ben::List(p.split('/').map(Ben::s).collect())),
                    ])
                })
                .collect();
            d.push((b"files".to_vec(), Ben::List(list)));
        }
        d.push((b"name".to_vec(), Ben::s(name)));
        d.push((b"piece length".to_vec(), Ben::Int(pl as u64)));
        d.push((b"pieces".to_vec(), Ben::Str(pieces)));
        d.sort();
        let info = Ben::Dict(d).enc();
        let hash = sha1(&info);
        let files = if single {
            vec![(name.to_string(), total)]
        } else {
            lens.iter().map(|(p, n)| (p.to_string(), *n)).collect()
        };
        Share { t: Torrent { pl: pl as u64, total: total as u64, content, from: 0, info, hash }, files }
    }

    pub fn single(name: &str, pl: usize, total: usize) -> Share {
        Share::new(name, pl, &[(name, total)], true)
    }

    pub fn cache(&self) -> String {
        let mut s = String::from("downloads/");
        for b in &self.t.hash {
            if b.is_ascii_alphanumeric() || b"-._~".contains(b) {
                s.push(*b as char);
            } else {
                s.push_str(&format!("%{b:02X}"));
            }
        }
        s
    }

    pub fn expected(&self) -> Vec<(String, Vec<u8>)> {
        let mut at = 0;
        self.files
            .iter()
            .map(|(p, n)| {
                at += n;
                (p.clone(), self.t.content[at - n..at].to_vec())
            })
            .collect()
    }

    /// Are all the files there, with exactly the right bytes?
    pub fn finished(&self, disk: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
        for (p, want) in self.expected() {
            match disk.get(&p) {
                None => return Err(format!("file {p} is missing")),
                Some(have) if *have != want => {
                    let at = (0..want.len().max(have.len())).find(|i| have.get(*i) != want.get(*i)).unwrap();
                    return Err(format!("file {p} has {} bytes (should be {}) and differs at {at}", have.len(), want.len()));
                }
                _ => {}
            }
        }
        Ok(())
    }

    /// Every byte in its files is the right one or was never written.
    pub fn clean(&self, disk: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
        for (p, want) in self.expected() {
            if let Some(have) = disk.get(&p) {
                if have.len() > want.len() {
                    return Err(format!("file {p} has {} bytes, more than {}", have.len(), want.len()));
                }
                if let Some(i) = (0..have.len()).find(|i| have[*i] != 0 && have[*i] != want[*i]) {
                    return Err(format!("byte {i} of file {p} is not the torrent's"));
                }
            }
        }
        Ok(())
    }

    /// Pieces whose bytes are all in place.
    pub fn stored(&self, disk: &BTreeMap<String, Vec<u8>>) -> Vec<bool> {
        let mut have = vec![];
        for (p, want) in self.expected() {
            let f = disk.get(&p);
            have.extend((0..want.len()).map(|i| f.and_then(|f| f.get(i)) == Some(&want[i])));
        }
        have.chunks(self.t.pl as usize).map(|c| c.iter().all(|x| *x)).collect()
    }
}

/// What a peer does when asked for a piece (or the metadata).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mood {
    Good,
    Close,
    Corrupt,
    Silent,
    Reset,
    Short,
    OtherPiece,
    Choke,
    /// The content of another piece of the torrent.
    Another,
}

/// How a peer comes to its mood for each request.
#[derive(Clone, Debug)]
pub enum Moods {
    Always(Mood),
    /// The explorer decides at every request (the first one costs nothing).
    Explore(&'static [Mood]),
    /// The first n requests for each piece end badly, the rest well.
    First(usize, Mood),
    /// The first n requests of all end badly.
    Warm(usize, Mood),
    /// These pieces always end badly.
    Pieces(&'static [usize], Mood),
    /// So many requests of all end like this, then so many like that, and so on; the last for ever.
    Turns(Vec<(usize, Mood)>),
}

#[derive(Clone)]
pub struct PeerCfg {
    pub at: SocketAddrV4,
    pub serves: Vec<usize>,
    pub meta: Moods,
    pub piece: Moods,
    pub refuse: Option<bool>, // Some(false): refused, Some(true): times out
}

/// Neighbours share an address or a port with another, or are written alike.
pub fn addr(i: usize) -> SocketAddrV4 {
    let alike = [([10, 0, 0, 1], 6881), ([10, 0, 0, 1], 688), ([110, 0, 0, 1], 6881), ([10, 0, 0, 11], 6881), ([10, 0, 0, 1], 68)];
    if let Some((ip, port)) = alike.get(i) {
        return SocketAddrV4::new(Ipv4Addr::from(*ip), *port);
    }
    let k = i / 2 + 20;
    SocketAddrV4::new(Ipv4Addr::new(10, 0, (k / 200) as u8, (k % 200) as u8 + 1), 6881 + (i % 3) as u16)
}

impl PeerCfg {
    pub fn good(i: usize) -> PeerCfg {
        PeerCfg { at: addr(i), serves: vec![0], meta: Moods::Always(Mood::Good), piece: Moods::Always(Mood::Good), refuse: None }
    }
    pub fn with(i: usize, piece: Moods) -> PeerCfg {
        PeerCfg { piece, ..PeerCfg::good(i) }
    }
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Seen {
    Connect,
    Shake(Vec<u8>),
    Meta(usize),
    /// Asked for this piece of this torrent; the answer it is going to get.
    Piece(usize, usize, Mood),
}

#[derive(Default)]
pub struct Log {
    pub step: usize,
    pub seen: Vec<(usize, SocketAddrV4, Seen)>,
    pub bad: Option<Fail>,
}

struct SeedPeer {
    cfg: PeerCfg,
    shares: Rc<Vec<Share>>,
    log: Rc<RefCell<Log>>,
    counts: Rc<RefCell<HashMap<(SocketAddrV4, usize, usize), usize>>>,
    mon: Monitor,
    share: Option<usize>,
    client_ut: u8,
    mood: HashMap<usize, Mood>,
    dead: bool,
}

const META: usize = usize::MAX;

impl SeedPeer {
    fn note(&self, s: Seen) {
        let mut l = self.log.borrow_mut();
        let step = l.step;
        l.seen.push((step, self.cfg.at, s));
    }

    fn decide(&mut self, what: usize) -> Mood {
        if let Some(m) = self.mood.get(&what) {
            return *m;
        }
        let how = if what == META { self.cfg.meta.clone() } else { self.cfg.piece.clone() };
        let share = self.share.unwrap();
        let mut c = self.counts.borrow_mut();
        let total: usize = c.iter().filter(|(k, _)| k.0 == self.cfg.at && (k.2 == META) == (what == META)).map(|(_, n)| *n).sum();
        let n = c.entry((self.cfg.at, share, what)).or_insert(0);
        let m = match how {
            Moods::Always(m) => m,
            Moods::Explore(v) => v[explore::choose(v.len())],
            Moods::First(k, m) if *n < k => m,
            Moods::Warm(k, m) if total < k => m,
            Moods::Turns(v) => {
                let mut left = total;
                v.iter().find(|(k, _)| left < *k || { left -= k; false }).or(v.last()).unwrap().1
            }
            Moods::Pieces(v, m) if v.contains(&what) => m,
            _ => Mood::Good,
        };
        *n += 1;
        drop(c);
        self.mood.insert(what, m);
        if what == META {
            self.note(Seen::Meta(share));
        } else {
            self.note(Seen::Piece(share, what, m));
        }
        m
    }

    fn answer(&mut self, what: usize, truth: Vec<u8>, another: Option<&[u8]>, frame_of: &dyn Fn(usize, &[u8]) -> Vec<u8>, w: &mut Wire) {
        match self.decide(what) {
            Mood::Good => w.send(&frame_of(what, &truth)),
            Mood::Close => {
                self.dead = true;
                w.close()
            }
            Mood::Reset => {
                self.dead = true;
                w.reset()
            }
            Mood::Silent => self.dead = true,
            Mood::Choke => {
                self.dead = true;
                w.send(&frame(0, &[]))
            }
            Mood::Another if another.is_some_and(|b| b != truth) => w.send(&frame_of(what, another.unwrap())),
            Mood::Corrupt | Mood::Another => {
                let mut b = truth;
                if let Some(x) = b.last_mut() {
                    *x ^= 0x40;
                }
                w.send(&frame_of(what, &b))
            }
            Mood::Short => {
                self.dead = true;
                w.send(&frame_of(what, &truth[..truth.len() / 2]));
                w.close()
            }
            Mood::OtherPiece => {
                let b: Vec<u8> = truth.iter().map(|x| !x).collect();
                w.send(&frame_of(what.wrapping_add(1), &b))
            }
        }
    }
}

impl Peer for SeedPeer {
    fn on_data(&mut self, bytes: &[u8], w: &mut Wire) {
        if self.dead {
            return;
        }
        for s in self.mon.feed(bytes) {
            if self.dead {
                return;
            }
            match s {
                Said::Handshake { hash, .. } => {
                    self.note(Seen::Shake(hash.clone()));
                    self.share = self.cfg.serves.iter().copied().find(|i| self.shares[*i].t.hash == hash);
                    let Some(i) = self.share else {
                        self.dead = true;
                        w.close();
                        return;
                    };
                    let t = &self.shares[i].t;
                    w.send(&handshake(&t.hash));
                    let n = t.count();
                    let mut bits = vec![0u8; n.div_ceil(8)];
                    (0..n).for_each(|k| bits[k / 8] |= 0x80 >> (k % 8));
                    w.send(&ext_handshake(3, t.info.len() as u64, 0));
                    w.send(&frame(5, &bits));
                    w.send(&frame(1, &[]));
                }
                Said::ExtHandshake { ut_metadata } => self.client_ut = ut_metadata.unwrap_or(0) as u8,
                Said::MetaRequest { piece, .. } => {
                    let Some(i) = self.share else { return };
                    let shares = Rc::clone(&self.shares);
                    let t = &shares[i].t;
                    if let Some(b) = t.meta_block(piece as usize) {
                        let (id, total) = (self.client_ut, t.info.len() as u64);
                        self.answer(META, b.to_vec(), None, &|_, d| meta_data(id, piece, total, d), w);
                    }
                }
                Said::Request(i, begin, len) => {
                    let Some(k) = self.share else { return };
                    let shares = Rc::clone(&self.shares);
                    match shares[k].t.block(i, begin, len) {
                        Some(b) => {
                            let n = shares[k].t.count() as u32;
                            let another = [(i + 1) % n, (i + n - 1) % n].iter().find_map(|j| shares[k].t.block(*j, begin, len));
                            self.answer(i as usize, b.to_vec(), another, &|i, d| piece_msg(i as u32, begin, d), w)
                        }
                        None => {
                            self.dead = true;
                            w.close();
                            return;
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(f) = self.mon.bad.take() {
            self.log.borrow_mut().bad.get_or_insert(f);
        }
    }
}

pub struct Swarm {
    peers: Vec<PeerCfg>,
    shares: Rc<Vec<Share>>,
    log: Rc<RefCell<Log>>,
    counts: Rc<RefCell<HashMap<(SocketAddrV4, usize, usize), usize>>>,
}

impl Swarm {
    pub fn new(peers: Vec<PeerCfg>, shares: Rc<Vec<Share>>, log: Rc<RefCell<Log>>) -> Swarm {
        Swarm { peers, shares, log, counts: Default::default() }
    }
}

impl Net for Swarm {
    fn connect(&mut self, to: SocketAddrV4, _now: u64) -> Connect {
        let mut l = self.log.borrow_mut();
        let step = l.step;
        l.seen.push((step, to, Seen::Connect));
        drop(l);
        match self.peers.iter().find(|p| p.at == to) {
            None => Connect::Refused,
            Some(p) if p.refuse == Some(false) => Connect::Refused,
            Some(p) if p.refuse == Some(true) => Connect::TimedOut,
            Some(p) => Connect::Accept(Box::new(SeedPeer {
                cfg: p.clone(),
                shares: Rc::clone(&self.shares),
                log: Rc::clone(&self.log),
                counts: Rc::clone(&self.counts),
                mon: Monitor::default(),
                share: None,
                client_ut: 0,
                mood: HashMap::new(),
                dead: false,
            })),
        }
    }
}

/// The order in which things happen by default.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// Announcements, then downloads oldest first, then writes.
    Eager,
    /// Writes, then downloads oldest first, with an announcement after every few of them.
    WriterFirst,
    /// Announcements, then downloads newest first, then writes.
    Lifo,
}

pub const POLICIES: [Policy; 3] = [Policy::Eager, Policy::WriterFirst, Policy::Lifo];

pub struct Plan {
    pub shares: Rc<Vec<Share>>,
    pub peers: Vec<PeerCfg>,
    /// Peers announced to torrents, in this order.
    pub found: Vec<(usize, SocketAddrV4)>,
    pub policy: Policy,
    /// Explore the order of events and random choices.
    pub explore: bool,
    /// Explore messages piling up in the torrents' mailboxes.
    pub burst: bool,
    /// Let them pile up at this step.
    pub burst_at: Option<usize>,
    /// After so many announcements, let this many steps pass before the others.
    pub hold: Option<(usize, usize)>,
    pub max_steps: usize,
    pub fs: Option<Fs>,
    /// Keep what is on the disk from an earlier run.
    pub keep: bool,
    pub shuffle: usize,
    /// The metadata is there from an earlier run (which is made once).
    pub cached: bool,
    /// Writers that are busy at the same time run at the same time, in every order of their file
    /// system calls (of more than two: within the bound); what to look at before each call.
    pub together: Option<Box<dyn FnMut()>>,
}

impl Plan {
    pub fn new(shares: Vec<Share>, peers: Vec<PeerCfg>) -> Plan {
        let found = peers.iter().flat_map(|p| p.serves.iter().map(|s| (*s, p.at))).collect();
        Plan {
            shares: Rc::new(shares),
            peers,
            found,
            policy: Policy::Eager,
            explore: true,
            burst: false,
            burst_at: None,
            hold: None,
            max_steps: 300,
            fs: None,
            keep: false,
            shuffle: 0,
            cached: false,
            together: None,
        }
    }
}

/// One thing the scheduler did.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Step {
    Found(usize, SocketAddrV4),
    Download { pool: usize, seq: u64 },
    Write { pool: usize, seq: u64 },
    Burst,
    /// A magnet link was posted (C32).
    Post(usize),
    Time,
    /// So many writers at the same time, and who was let on at each call.
    Writers(usize, Vec<u8>),
}

#[derive(Default)]
pub struct Report {
    pub steps: Vec<Step>,
    /// Messages each pool had been sent after each step.
    pub sent: Vec<Vec<u64>>,
    pub seen: Vec<(usize, SocketAddrV4, Seen)>,
    pub bad: Option<Fail>,
    pub panics: Vec<Panicked>,
    pub disk: BTreeMap<String, Vec<u8>>,
    pub escapes: Vec<String>,
    pub ops: u64,
    pub crashed: bool,
    pub unfinished: bool,
    pub end: u64,
    /// Open files before anything was added and at the end, and the pools that wait for more then.
    pub held: (usize, usize, Vec<&'static str>),
}

impl Report {
    pub fn no_panic(&self) -> Result<(), Fail> {
        match self.panics.first() {
            Some(p) => Err(p.fail()),
            None => Ok(()),
        }
    }

    pub fn trace(&self) -> String {
        let pieces: Vec<String> = self
            .seen
            .iter()
            .filter_map(|(s, a, e)| match e {
                Seen::Piece(k, p, m) => Some(format!("@{s} piece {p} of {k} asked of {a}: {m:?}")),
                _ => None,
            })
            .collect();
        format!("{:?}; {}", self.steps, pieces.join(", "))
    }
}

/// All files below the current directory.
pub fn disk() -> BTreeMap<String, Vec<u8>> {
    fn walk(dir: &str, pre: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            let rel = format!("{pre}{name}");
            let path = format!("{dir}/{name}");
            match e.file_type() {
                Ok(t) if t.is_dir() => walk(&path, &format!("{rel}/"), out),
                Ok(t) if t.is_file() => {
                    out.insert(rel, std::fs::read(&path).unwrap_or_default());
                }
                _ => {
                    out.insert(rel, b"?".to_vec());
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    real(|| walk(".", "", &mut m));
    m
}

pub fn wipe() {
    real(|| {
        for e in std::fs::read_dir(".").into_iter().flatten().flatten() {
            let p = e.path();
            use std::os::unix::fs::PermissionsExt;
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o700));
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    })
}

thread_local! {
    static SHUFFLE: std::cell::Cell<(bool, u64)> = const { std::cell::Cell::new((false, 1)) };
}

/// The client's random choices are made here.
pub fn choose_randomly(explore: bool, shuffle: usize) {
    SHUFFLE.with(|s| s.set((explore, 0x9e3779b97f4a7c15 + shuffle as u64)));
    rand::verif::set_hook(Some(which));
}

/// Which of n: the explorer's choice. The default is drawn from a fixed sequence that favours
/// nobody in the long run, as the client's random choices do.
fn which(n: usize) -> usize {
    let (explore, mut x) = SHUFFLE.with(|s| s.get());
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    SHUFFLE.with(|s| s.set((explore, x)));
    let k = if explore { explore::choose(n) } else { 0 };
    ((x >> 33) as usize + k) % n
}

#[cfg(feature = "actors")]
pub fn endpoint(a: SocketAddrV4) -> PeerEndpoint {
    let mut b = a.ip().octets().to_vec();
    b.extend(a.port().to_be_bytes());
    PeerEndpoint::from_bytes(&b).remove(0)
}

pub fn cwd() -> String {
    real(|| std::env::current_dir().unwrap().to_string_lossy().into_owned())
}

/// Runs `f` in a fresh actor system under the simulated environment; what `f` returns, and panics.
pub fn in_system<R>(os: &mut Os, f: impl FnOnce(&SystemRunner) -> R) -> (Option<R>, Vec<Panicked>) {
    let mut panics = vec![];
    let r = with_os(os, || {
        actix::verif::set_active(true);
        let r = cut(|| {
            let sys = System::new();
            let r = f(&sys);
            actix::verif::set_active(false);
            drop(sys);
            r
        });
        actix::verif::set_active(false);
        r
    });
    let r = match r {
        Ok(r) => Some(r),
        Err(p) => {
            panics.push(p);
            None
        }
    };
    if let Some(p) = take_panic() {
        panics.push(p);
    }
    (r, panics)
}

#[cfg(feature = "actors")]
thread_local! {
    static CACHES: RefCell<HashMap<Vec<u8>, Vec<u8>>> = RefCell::new(HashMap::new());
}

#[cfg(feature = "actors")]
/// What a run with a correct peer leaves in the metadata cache.
fn cache_of(shares: &Rc<Vec<Share>>, k: usize) -> Vec<u8> {
    let hash = shares[k].t.hash.clone();
    if let Some(b) = CACHES.with(|c| c.borrow().get(&hash).cloned()) {
        return b;
    }
    let plan = Plan { explore: false, found: vec![(k, addr(0))], ..Plan::new(vec![], vec![PeerCfg { serves: vec![k], ..PeerCfg::good(0) }]) };
    let r = run(Plan { shares: Rc::clone(shares), ..plan });
    let b = r.disk.get(&shares[k].cache()).cloned().unwrap_or_default();
    CACHES.with(|c| c.borrow_mut().insert(hash, b.clone()));
    b
}

#[cfg(feature = "actors")]
pub fn run(plan: Plan) -> Report {
    if plan.cached {
        let caches: Vec<Vec<u8>> = (0..plan.shares.len()).map(|k| cache_of(&plan.shares, k)).collect();
        wipe();
        real(|| {
            let _ = std::fs::create_dir_all("downloads");
            for (s, b) in plan.shares.iter().zip(&caches) {
                if !b.is_empty() {
                    let _ = std::fs::write(s.cache(), b);
                }
            }
        });
        return explore::on_fresh_thread(|| run_here(Plan { keep: true, ..plan }));
    }
    explore::on_fresh_thread(|| run_here(plan))
}

#[cfg(feature = "actors")]
fn run_here(mut plan: Plan) -> Report {
    if !plan.keep {
        wipe();
    }
    choose_randomly(plan.explore, plan.shuffle);
    let log = Rc::new(RefCell::new(Log::default()));
    let mut os = Os::new();
    os.time_limit = 7 * 24 * 3600 * SEC;
    os.call_limit = 20_000_000;
    os.idle = Some(Idle::default());
    os.net = Some(Box::new(Swarm::new(plan.peers.clone(), Rc::clone(&plan.shares), Rc::clone(&log))));
    os.fs = Some(plan.fs.take().unwrap_or_else(|| Fs::new(&cwd())));
    let mut rep = Report::default();
    let together = plan.together.take();
    let (_, panics) = in_system(&mut os, |sys| sys.block_on(drive(&plan, together, &log, &mut rep)));
    rep.panics.extend(panics);
    rep.end = os.now;
    let fs = os.fs.take().unwrap();
    rep.escapes.extend(fs.escapes.clone());
    rep.ops = fs.ops;
    rep.crashed = fs.crashed;
    rep.disk = disk();
    let mut l = log.borrow_mut();
    rep.seen = std::mem::take(&mut l.seen);
    rep.bad = l.bad.take();
    rep
}

#[cfg(feature = "actors")]
fn is_writer(name: &str) -> bool {
    name.contains("riter")
}

#[cfg(feature = "actors")]
/// Runs busy workers on threads of their own.
fn at_once(jobs: &[actix::verif::Job], look: &mut dyn FnMut(), log: &mut Vec<u8>, rep: &mut Report) {
    let root = cwd();
    let mut out: Vec<(Option<Panicked>, Vec<String>)> = jobs.iter().map(|_| (None, vec![])).collect();
    let ops = jobs
        .iter()
        .zip(out.iter_mut())
        .map(|(j, out)| {
            let job = actix::verif::start(j.pool, j.worker);
            let root = root.clone();
            Box::new(move || {
                let mut os = Os::new();
                os.fs = Some(Fs::new(&root));
                out.0 = cut(|| with_os(&mut os, job)).err();
                out.1 = os.fs.take().unwrap().escapes;
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    sim::step::coarse(ops, |able, goes_on| {
        real(&mut *look);
        let k = if jobs.len() < 3 || !goes_on { explore::choose_free(able.len()) } else { explore::choose(able.len()) };
        log.push(able[k] as u8);
        k
    });
    real(look);
    for (p, e) in out {
        rep.panics.extend(p);
        rep.escapes.extend(e);
    }
}

#[cfg(feature = "actors")]
async fn drive(plan: &Plan, mut together: Option<Box<dyn FnMut()>>, log: &Rc<RefCell<Log>>, rep: &mut Report) {
    let actors: Vec<Addr<TorrentActor>> =
        plan.shares.iter().map(|s| TorrentActor::new(s.t.hash.clone()).start()).collect();
    let mut found: std::collections::VecDeque<_> = plan.found.iter().copied().collect();
    let mut since = 0;
    loop {
        let next = quiet().await;
        if let Some(p) = take_panic() {
            rep.panics.push(p);
        }
        rep.sent.push(actix::verif::sent());
        if active(|os| os.fs.as_ref().map(|f| f.crashed).unwrap_or(false)) == Some(true) {
            return;
        }
        if rep.steps.len() >= plan.max_steps {
            rep.unfinished = true;
            return;
        }
        if rep.steps.len() % 4096 == 4095 {
            alive();
        }
        let mut opts: Vec<Step> = vec![];
        let busy = actix::verif::busy();
        let (writes, mut loads): (Vec<actix::verif::Job>, Vec<actix::verif::Job>) = busy.iter().copied().partition(|j| is_writer(j.name));
        if plan.policy == Policy::Lifo {
            loads.reverse();
        }
        let held = plan.hold.is_some_and(|(n, steps)| plan.found.len() - found.len() >= n && rep.steps.len() < steps && !busy.is_empty());
        let announce = found.front().filter(|_| !held).map(|(t, a)| Step::Found(*t, *a));
        let w = writes.iter().map(|j| Step::Write { pool: j.pool, seq: j.seq });
        let l = loads.iter().map(|j| Step::Download { pool: j.pool, seq: j.seq });
        since += 1;
        match plan.policy {
            Policy::WriterFirst if since % 4 != 0 => opts.extend(w.chain(l).chain(announce)),
            _ => opts.extend(announce.into_iter().chain(l).chain(w)),
        }
        if plan.burst && busy.len() + found.len().min(2) >= 2 {
            opts.push(Step::Burst);
        }
        if opts.is_empty() && next.is_some() {
            opts.push(Step::Time);
        }
        if opts.is_empty() {
            return;
        }
        if together.is_some() && writes.len() > 1 && writes.len() == busy.len() && found.is_empty() {
            opts = vec![Step::Writers(writes.len().min(3), vec![])];
        }
        if plan.burst_at == Some(rep.steps.len()) {
            opts = vec![Step::Burst];
        }
        let k = if plan.explore { explore::choose(opts.len()) } else { 0 };
        let step = opts.swap_remove(k);
        log.borrow_mut().step = rep.steps.len();
        rep.steps.push(step.clone());
        let finish = |pool: usize, seq: u64, rep: &mut Report| {
            let job = actix::verif::busy().into_iter().find(|j| j.pool == pool && j.seq == seq).unwrap();
            if let Err(p) = cut(|| actix::verif::finish(job.pool, job.worker)) {
                rep.panics.push(p);
            }
        };
        match step {
            Step::Found(t, a) => {
                found.pop_front();
                actors[t].do_send(PeerFound { peer: endpoint(a) });
            }
            Step::Download { pool, seq } | Step::Write { pool, seq } => finish(pool, seq, rep),
            Step::Burst => {
                // no actor runs in between: their messages pile up
                for (t, a) in found.drain(..) {
                    actors[t].do_send(PeerFound { peer: endpoint(a) });
                }
                for j in busy {
                    finish(j.pool, j.seq, rep);
                }
            }
            Step::Writers(n, _) => {
                let mut log = vec![];
                at_once(&writes[..n], together.as_mut().unwrap(), &mut log, rep);
                *rep.steps.last_mut().unwrap() = Step::Writers(n, log);
            }
            Step::Post(_) => {}
            Step::Time => {
                active(|os| os.idle.as_mut().unwrap().advance = true);
            }
        }
    }
}
