//! C21 and C25: the HTTP API, the fan-out to trackers and the way of peers back to torrents. Real
//! actors, real HTTP service and real tracker exchanges; sockets and time are simulated.
use crate::swarm::*;
use crate::util::*;
use crate::world::*;
use actix::prelude::*;
#[cfg(feature = "actors")]
use rust_bit::verif::actors::*;
use sim::explore;
use sim::os::*;
use sim::runner::*;
use sim::{ensure, fnv, show};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::rc::Rc;
use url::Url;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C21",
            level: "model_checking",
            rule: "the real HTTP service and tracker actors: all sequences of good and bad posts of a menu up to a length, with every choice of pauses and tracker conduct up to a bound, and bursts of up to 40 posts; non-trivial: an announce reached a tracker",
            assumptions: &["requests are handed to the real HTTP service in process; trackers are simulated datagram peers", "the trackers configured are those of the pinned commit that the sources still name"],
            run: api,
        },
        #[cfg(feature = "actors")]
        Spec {
            id: "C25",
            level: "model_checking",
            rule: "the real tracker and torrent actors with simulated UDP and HTTP trackers: every order of registrations and choice of tracker reactions up to a bound, every pattern of reachable and unreachable peers in short answers, long answers; a peer's hand-over shows as a connection that carries the torrent's info hash; non-trivial: a peer was handed over",
            assumptions: &["a peer counts as reachable if its first connection of the run is accepted at once", "a torrent asks every peer it is given for metadata while it has none"],
            run: results,
        },
    ]
}

// ----------------------------------------------------------------------------------- the world

/// What a tracker does with a request.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Right,
    Late,
    Lost,
    Error,
    Garbage,
    Cut,
    Never,
}

const ACTS: [Act; 7] = [Act::Right, Act::Late, Act::Lost, Act::Error, Act::Garbage, Act::Cut, Act::Never];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Reach {
    Yes,
    /// After a usual round trip.
    Slow,
    Refused,
    TimedOut,
}

#[derive(Default)]
struct Ledger {
    /// Announces by tracker and info hash.
    asked: BTreeMap<(SocketAddrV4, Vec<u8>), usize>,
    connects: BTreeMap<SocketAddrV4, usize>,
    /// Right replies sent, by tracker and info hash.
    given: BTreeMap<(SocketAddrV4, Vec<u8>), usize>,
    /// Connections at peers that carried an info hash.
    handed: BTreeMap<(Vec<u8>, SocketAddrV4), usize>,
    probed: BTreeMap<SocketAddrV4, usize>,
    never: BTreeSet<SocketAddrV4>,
    bad: Option<Fail>,
}

type Book = Rc<RefCell<Ledger>>;

pub struct World {
    book: Book,
    /// Lists by tracker and info hash.
    lists: BTreeMap<(SocketAddrV4, Vec<u8>), Vec<SocketAddrV4>>,
    /// The list of trackers that have none.
    default: Vec<SocketAddrV4>,
    reach: BTreeMap<SocketAddrV4, Reach>,
    act: Box<dyn Fn(SocketAddrV4, bool) -> Act>,
}

pub type Shd = Rc<World>;

fn compact(l: &[SocketAddrV4]) -> Vec<u8> {
    l.iter().flat_map(|a| [&a.ip().octets()[..], &a.port().to_be_bytes()].concat()).collect()
}

impl World {
    fn list(&self, t: SocketAddrV4, hash: &[u8]) -> Vec<SocketAddrV4> {
        self.lists.get(&(t, hash.to_vec())).cloned().unwrap_or_else(|| self.default.clone())
    }

    fn decide(&self, t: SocketAddrV4, announce: bool) -> Act {
        if self.book.borrow().never.contains(&t) {
            return Act::Never;
        }
        let a = (self.act)(t, announce);
        if a == Act::Never {
            self.book.borrow_mut().never.insert(t);
        }
        a
    }

    fn given(&self, t: SocketAddrV4, hash: &[u8]) -> Vec<SocketAddrV4> {
        *self.book.borrow_mut().given.entry((t, hash.to_vec())).or_insert(0) += 1;
        self.list(t, hash)
    }
}

/// Trackers with these lists, for other checks.
pub fn tracker_world(lists: BTreeMap<(SocketAddrV4, Vec<u8>), Vec<SocketAddrV4>>, act: Box<dyn Fn(SocketAddrV4, bool) -> Act>) -> Shd {
    Rc::new(World { book: Default::default(), lists, default: vec![], reach: BTreeMap::new(), act })
}

pub fn udp(w: &Shd) -> Box<dyn UdpServer> {
    Box::new(Udp(w.clone()))
}

pub fn act_menu() -> [Act; 7] {
    ACTS
}

struct Udp(Shd);

impl UdpServer for Udp {
    fn on_connect(&mut self, _to: SocketAddrV4) -> Result<(), i32> {
        Ok(())
    }

    fn on_datagram(&mut self, to: SocketAddrV4, b: &[u8], w: &mut UdpWire) {
        if b.len() < 16 {
            return;
        }
        let action = u32::from_be_bytes(b[8..12].try_into().unwrap());
        let announce = action == 1 && b.len() >= 98;
        let hash = if announce { b[16..36].to_vec() } else { vec![] };
        {
            let mut k = self.0.book.borrow_mut();
            if announce {
                *k.asked.entry((to, hash.clone())).or_insert(0) += 1;
            } else {
                *k.connects.entry(to).or_insert(0) += 1;
            }
        }
        let tx = &b[12..16];
        let right = |w: &Shd| -> Vec<u8> {
            if announce {
                [&1u32.to_be_bytes()[..], tx, &[0, 0, 7, 8, 0, 0, 0, 1, 0, 0, 0, 2], &compact(&w.given(to, &hash))].concat()
            } else {
                [&0u32.to_be_bytes()[..], tx, &[9, 8, 7, 6, 5, 4, 3, 2]].concat()
            }
        };
        match self.0.decide(to, announce) {
            Act::Right => w.reply_after(MS, &right(&self.0)),
            Act::Late => w.reply_after(3 * SEC, &right(&self.0)),
            Act::Lost | Act::Never => {}
            Act::Error => w.reply_after(MS, &[&3u32.to_be_bytes()[..], tx, b"no such torrent, sorry"].concat()),
            Act::Garbage => w.reply_after(MS, &[0xff; 40]),
            Act::Cut => w.reply_after(MS, &[&action.to_be_bytes()[..], tx, &[1, 2]].concat()),
        }
    }
}

struct HttpPeer {
    w: Shd,
    at: SocketAddrV4,
    got: Vec<u8>,
}

impl Peer for HttpPeer {
    fn on_data(&mut self, b: &[u8], w: &mut Wire) {
        self.got.extend(b);
        if !self.got.windows(4).any(|x| x == b"\r\n\r\n") {
            return;
        }
        let req = String::from_utf8_lossy(&self.got).into_owned();
        self.got.clear();
        let hash = req
            .lines()
            .next()
            .and_then(|l| l.split("info_hash=").nth(1))
            .map(|h| unescape(h.split(['&', ' ']).next().unwrap_or("")))
            .unwrap_or_default();
        *self.w.book.borrow_mut().asked.entry((self.at, hash.clone())).or_insert(0) += 1;
        let answer = |status: &str, body: &[u8]| [format!("HTTP/1.1 {status}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).as_bytes(), body].concat();
        let right = |s: &Shd| {
            let p = compact(&s.given(self.at, &hash));
            [format!("d8:completei1e10:incompletei2e8:intervali1800e5:peers{}:", p.len()).as_bytes(), &p, b"e"].concat()
        };
        match self.w.decide(self.at, true) {
            Act::Right => w.send(&answer("200 OK", &right(&self.w))),
            Act::Late => w.send_after(SEC / 5, &answer("200 OK", &right(&self.w))),
            Act::Lost => {}
            Act::Never => w.reset(),
            Act::Error => w.send(&answer("503 Service Unavailable", b"d5:peers6:\x0a\x63\x63\x63\x1a\xe1e")),
            Act::Garbage => w.send(&answer("200 OK", b"<html>d5:peers6:abcdefe</html>")),
            Act::Cut => w.send(&answer("200 OK", b"d8:intervali1800e5:peers600:abcdef")),
        }
        w.close();
    }
}

struct Listed {
    w: Shd,
    at: SocketAddrV4,
    mon: Monitor,
}

impl Peer for Listed {
    fn on_data(&mut self, b: &[u8], w: &mut Wire) {
        for s in self.mon.feed(b) {
            if let Said::Handshake { hash, .. } = s {
                *self.w.book.borrow_mut().handed.entry((hash, self.at)).or_insert(0) += 1;
                w.close();
            }
        }
    }
}

struct Nt {
    w: Shd,
    http: Vec<SocketAddrV4>,
}

impl Net for Nt {
    fn connect(&mut self, a: SocketAddrV4, _now: u64) -> Connect {
        if self.http.contains(&a) {
            return Connect::Accept(Box::new(HttpPeer { w: self.w.clone(), at: a, got: vec![] }));
        }
        let first = {
            let mut k = self.w.book.borrow_mut();
            let n = k.probed.entry(a).or_insert(0);
            *n += 1;
            *n == 1
        };
        // unreachable ones become reachable later: whoever hands them on gives itself away
        let listed = Box::new(Listed { w: self.w.clone(), at: a, mon: Monitor::default() });
        match self.w.reach.get(&a).copied().unwrap_or(Reach::Yes) {
            Reach::Refused if first => Connect::Refused,
            Reach::TimedOut if first => Connect::TimedOut,
            Reach::Slow => Connect::Slow(20 * MS, listed),
            _ => Connect::Accept(listed),
        }
    }
}

fn tracker_at(k: usize) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 200, 0, k as u8 + 1), 1337)
}

/// Neighbours share an address or a port with another.
fn peer(tag: u8, torrent: usize, i: usize) -> SocketAddrV4 {
    let k = i / 2;
    SocketAddrV4::new(Ipv4Addr::new(10, tag, torrent as u8 * 16 + (k / 250) as u8, (k % 250) as u8 + 1), 7000 + (i % 3) as u16)
}

fn hash(k: usize) -> Vec<u8> {
    // with bytes that need care in a URL
    let mut h = sha1(format!("torrent {k}").as_bytes());
    h[..6].copy_from_slice(&[b'&', b' ', b'%', k as u8, 0xff, b'=']);
    h
}

fn settle(os: &mut Os) {
    os.time_limit = 7 * 24 * 3600 * SEC;
    os.call_limit = 20_000_000;
    os.idle = Some(Idle::default());
    os.fs = Some(Fs::new(&cwd()));
}

// ------------------------------------------------------------------------------------ C25

struct Ask {
    http: Vec<bool>,
    torrents: usize,
    /// (tracker, torrent) in the order of registration.
    regs: Vec<(usize, usize)>,
    explore: bool,
}

#[cfg(feature = "actors")]
/// Runs the registrations to their end.
fn ask(a: &Ask, world: World, c: &mut Case) -> Result<Book, Fail> {
    let w = Rc::new(world);
    let mut os = Os::new();
    settle(&mut os);
    os.udp = Some(Box::new(Udp(w.clone())));
    os.net = Some(Box::new(Nt { w: w.clone(), http: (0..a.http.len()).filter(|k| a.http[*k]).map(tracker_at).collect() }));
    let mut trace: Vec<String> = vec![];
    let mut early = vec![];
    let (r, panics) = in_system(&mut os, |sys| {
        sys.block_on(async {
            let torrents: Vec<_> = (0..a.torrents).map(|k| TorrentActor::new(hash(k)).start()).collect();
            let trackers: Vec<_> = (0..a.http.len())
                .map(|k| {
                    let scheme = if a.http[k] { "http" } else { "udp" };
                    TrackerActor { url: Url::parse(&format!("{scheme}://{}/announce", tracker_at(k))).unwrap() }.start()
                })
                .collect();
            let mut regs: VecDeque<_> = a.regs.iter().copied().collect();
            for _ in 0..20_000 {
                let next = quiet().await;
                if let Some(p) = take_panic() {
                    early.push(p);
                    return true;
                }
                let mut opts = vec![];
                if !regs.is_empty() {
                    opts.push(true);
                }
                if next.is_some() {
                    opts.push(false);
                }
                if opts.is_empty() {
                    return true;
                }
                let k = if a.explore { explore::choose(opts.len()) } else { 0 };
                if opts[k] {
                    let (t, k) = regs.pop_front().unwrap();
                    trace.push(format!("register torrent {k} with tracker {t}"));
                    trackers[t].do_send(TorrentRegistered { info_hash: hash(k), torrent_actor_addr: torrents[k].clone() });
                } else {
                    trace.push("time".into());
                    active(|os| os.idle.as_mut().unwrap().advance = true);
                }
            }
            false
        })
    });
    let now = os.now;
    drop(os);
    c.steps(trace.len() as u64);
    c.state(fnv(trace.join(",").as_bytes()));
    if let Some(p) = early.first().or(panics.first()) {
        return Err(p.fail());
    }
    ensure!(r == Some(true), "never comes to rest", "{} s: {}", now / SEC, trace.len());
    if let Some(f) = w.book.borrow_mut().bad.take() {
        return Err(f);
    }
    judge(a, &w, c)?;
    Ok(w.book.clone())
}

fn judge(a: &Ask, w: &World, c: &mut Case) -> Result<(), Fail> {
    let k = w.book.borrow();
    c.state(fnv(format!("{:?}", k.given).as_bytes()));
    // how often each peer may be handed to each torrent, and how often it must be
    let mut most: BTreeMap<(Vec<u8>, SocketAddrV4), usize> = BTreeMap::new();
    for ((t, h), n) in &k.given {
        for p in w.list(*t, h) {
            *most.entry((h.clone(), p)).or_insert(0) += n;
        }
    }
    let name = |h: &[u8]| (0..a.torrents).find(|k| hash(*k) == h).map(|k| format!("torrent {k}")).unwrap_or(show(h));
    for ((h, p), n) in &k.handed {
        let m = most.get(&(h.clone(), *p)).copied().unwrap_or(0);
        ensure!(m > 0, "peer handed to a torrent it was not announced for", "{p} to {}", name(h));
        ensure!(
            w.reach.get(p).is_none_or(|r| matches!(r, Reach::Yes | Reach::Slow)),
            "unreachable peer handed on",
            "{p} to {}",
            name(h)
        );
        ensure!(*n <= m, "peer handed on more than once", "{p} to {}: {n} times, in {m} answers", name(h));
    }
    for ((h, p), m) in &most {
        if w.reach.get(p).is_none_or(|r| matches!(r, Reach::Yes | Reach::Slow)) {
            let n = k.handed.get(&(h.clone(), *p)).copied().unwrap_or(0);
            // (a tracker's repeated answer to one question is one answer)
            ensure!(n >= 1, "reachable peer not handed on", "{p} to {}, in {m} answers", name(h));
        }
    }
    for (t, k_) in &a.regs {
        let at = tracker_at(*t);
        let n = k.asked.get(&(at, hash(*k_))).copied().unwrap_or(0);
        ensure!(
            n > 0 || k.connects.get(&at).copied().unwrap_or(0) > 0 || a.http[*t],
            "tracker not asked",
            "tracker {t} about torrent {k_}"
        );
    }
    if !k.handed.is_empty() {
        c.nontrivial(fnv(format!("{:?} {:?}", k.handed, k.given).as_bytes()));
    }
    Ok(())
}

#[cfg(feature = "actors")]
fn results(ctx: &mut Ctx) {
    // orders and reactions
    let kinds: [&[bool]; 5] = [&[false], &[true], &[false, false], &[false, true], &[false, false, true]];
    let rad = [kinds.len(), 3, 3];
    let bound = ctx.pick(2, 3);
    for i in 0..product(&rad) {
        ctx.dfs_idx("orders and reactions", i, bound, &mut |c| {
            let d = digits(i, &rad);
            let http = kinds[d[0]].to_vec();
            let torrents = d[1] + 1;
            let mut regs: Vec<(usize, usize)> = (0..torrents).flat_map(|k| (0..http.len()).map(move |t| (t, k))).collect();
            match d[2] {
                0 => {}
                1 => regs.sort(),
                _ => regs.reverse(),
            }
            c.text(format!("trackers {:?}, {torrents} torrents, registrations {regs:?}", http.iter().map(|h| if *h { "HTTP" } else { "UDP" }).collect::<Vec<_>>()));
            let mut lists = BTreeMap::new();
            let mut reach = BTreeMap::new();
            for t in 0..http.len() {
                for k in 0..torrents {
                    let l = vec![peer(t as u8 + 1, k, 0), peer(99, 0, 0), peer(t as u8 + 1, k, 1), peer(98, k, 0), peer(t as u8 + 1, k, 2)];
                    reach.insert(l[2], [Reach::Refused, Reach::TimedOut][(t + k) % 2]);
                    lists.insert((tracker_at(t), hash(k)), l);
                }
            }
            let world = World { book: Default::default(), lists, default: vec![], reach, act: Box::new(|_, _| ACTS[explore::choose(ACTS.len())]) };
            ask(&Ask { http, torrents, regs, explore: true }, world, c).map(|_| ())
        });
    }
    // every pattern of reachable and unreachable peers
    let n = ctx.pick(5, 7);
    let all: u64 = (1..=n).map(|l| 4u64.pow(l)).sum();
    ctx.enumerate("reachability", all * 2, |i, c| {
        let (http, mut j) = (i % 2 == 1, i / 2);
        let mut len = 1;
        while j >= 4u64.pow(len) {
            j -= 4u64.pow(len);
            len += 1;
        }
        let d = digits(j, &vec![4; len as usize]);
        let l: Vec<_> = (0..len as usize).map(|x| peer(1, 0, x)).collect();
        let reach: BTreeMap<_, _> = l.iter().zip(&d).map(|(a, r)| (*a, [Reach::Yes, Reach::Refused, Reach::TimedOut, Reach::Slow][*r])).collect();
        c.text(format!("{} tracker, peers {:?}", if http { "HTTP" } else { "UDP" }, reach.values().collect::<Vec<_>>()));
        let lists = [((tracker_at(0), hash(0)), l)].into();
        let world = World { book: Default::default(), lists, default: vec![], reach, act: Box::new(|_, _| Act::Right) };
        ask(&Ask { http: vec![http], torrents: 1, regs: vec![(0, 0)], explore: false }, world, c).map(|_| ())
    });
    // addresses of all kinds, and some that are written alike
    let odd: Vec<SocketAddrV4> = [
        "1.1.1.1:1", "1.1.1.1:11", "11.1.1.1:1", "1.1.1.11:1", "1.1.1.1:111", "11.1.1.1:11", "1.2.3.4:80", "4.3.2.1:80", "8.8.8.8:65535", "255.255.255.254:65534",
        "223.255.255.255:443", "127.0.0.1:256", "127.1.2.3:255", "192.168.1.1:6881", "172.16.0.1:51413", "100.64.0.1:49152", "169.254.1.1:1024", "224.0.0.1:1023", "0.0.0.1:32768", "198.51.100.7:32767",
    ]
    .iter()
    .map(|a| a.parse().unwrap())
    .collect();
    let rad = [2usize, odd.len(), odd.len(), 4];
    ctx.enumerate("addresses", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let (a, b) = (odd[d[1]], odd[d[2]]);
        let l = if a == b { vec![a] } else { vec![a, b] };
        let reach: BTreeMap<_, _> = l.iter().zip([d[3] & 1, d[3] >> 1]).map(|(p, r)| (*p, [Reach::Yes, Reach::Refused][r])).collect();
        c.text(format!("{} tracker, peers {reach:?}", if d[0] == 1 { "HTTP" } else { "UDP" }));
        let lists = [((tracker_at(0), hash(0)), l)].into();
        let world = World { book: Default::default(), lists, default: vec![], reach, act: Box::new(|_, _| Act::Right) };
        ask(&Ask { http: vec![d[0] == 1], torrents: 1, regs: vec![(0, 0)], explore: false }, world, c).map(|_| ())
    });
    // long answers
    let sizes: &[usize] = ctx.pick(&[15, 16, 17, 18, 31, 33, 50, 100, 200], &[15, 16, 17, 18, 31, 33, 50, 64, 100, 128, 200, 250, 400, 600]);
    let rad = [sizes.len(), 2, 3, 3];
    ctx.enumerate("long answers", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let (n, http, trackers) = (sizes[d[0]], d[1] == 1, d[2] + 1);
        let torrents = if d[3] == 2 { 2 } else { 1 };
        let mut lists = BTreeMap::new();
        let mut reach = BTreeMap::new();
        for t in 0..trackers {
            for k in 0..torrents {
                let l: Vec<_> = (0..n).map(|x| peer(t as u8 + 1, k, x)).collect();
                if d[3] == 1 {
                    l.iter().step_by(3).for_each(|a| { reach.insert(*a, Reach::TimedOut); });
                }
                lists.insert((tracker_at(t), hash(k)), l);
            }
        }
        c.text(format!("{trackers} {} trackers, {torrents} torrents, {n} peers in each answer, mood {}", if http { "HTTP" } else { "UDP" }, d[3]));
        let regs = (0..trackers).flat_map(|t| (0..torrents).map(move |k| (t, k))).collect();
        let world = World { book: Default::default(), lists, default: vec![], reach, act: Box::new(|_, _| Act::Right) };
        ask(&Ask { http: vec![http; trackers], torrents, regs, explore: false }, world, c).map(|_| ())
    });
    // a tracker that fails (in one way, all the time or for the first requests) next to a good one
    let rad = [ACTS.len(), ACTS.len(), 4, 3];
    ctx.enumerate("failing trackers", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let (bad, worse, how) = (ACTS[d[0]], ACTS[d[1]], d[3]);
        let http = [[false, false, false], [true, true, true], [false, true, false], [true, false, true]][d[2]].to_vec();
        let lists: BTreeMap<_, _> = (0..3).flat_map(|t| (0..2).map(move |k| ((tracker_at(t), hash(k)), vec![peer(t as u8 + 1, k, 0), peer(97, k, 0), peer(t as u8 + 1, k, 1)]))).collect();
        c.text(format!("trackers {http:?} (HTTP), the first does {bad:?}, the second {worse:?}, {}", ["always", "once", "for the first torrent"][how]));
        let seen = RefCell::new(BTreeMap::<SocketAddrV4, usize>::new());
        let act = move |t: SocketAddrV4, _announce: bool| {
            let mut s = seen.borrow_mut();
            let n = s.entry(t).or_insert(0);
            *n += 1;
            let now = match how {
                0 => true,
                1 => *n == 1,
                _ => *n <= 4,
            };
            if t == tracker_at(0) && now && !(bad == Act::Never && how > 0) {
                bad
            } else if t == tracker_at(1) && now && !(worse == Act::Never && how > 0) {
                worse
            } else {
                Act::Right
            }
        };
        let world = World { book: Default::default(), lists, default: vec![], reach: BTreeMap::new(), act: Box::new(act) };
        let regs = vec![(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)];
        let book = ask(&Ask { http, torrents: 2, regs, explore: false }, world, c)?;
        let k = book.borrow();
        for t in 0..2 {
            ensure!(k.handed.get(&(hash(t), peer(3, t, 0))).is_some(), "a failing tracker disturbs another", "torrent {t} got nothing from the third");
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------ C21

const CONFIGURED: [&str; 18] = [
    "93.158.213.92:1337", "102.223.180.235:6969", "23.134.88.6:1337", "193.189.100.187:6969", "185.243.218.213:80", "91.216.110.52:451",
    "208.83.20.20:6969", "23.157.120.14:6969", "156.234.201.18:80", "185.102.219.163:6969", "185.50.159.149:6969", "209.141.59.16:6969",
    "38.7.201.142:6969", "73.170.204.100:6969", "176.31.250.174:6969", "82.156.24.219:6969", "83.102.180.21:80", "185.230.4.150:1337",
];

/// Those that /repo still names.
pub fn configured() -> Vec<SocketAddrV4> {
    fn text(dir: &std::path::Path, out: &mut String) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                text(&e.path(), out);
            } else if e.path().extension().is_some_and(|x| x == "rs") {
                out.push_str(&std::fs::read_to_string(e.path()).unwrap_or_default());
            }
        }
    }
    let mut s = String::new();
    text(std::path::Path::new("/repo/src"), &mut s);
    CONFIGURED.iter().filter(|a| s.contains(**a)).map(|a| a.parse().unwrap()).collect()
}

#[derive(Clone, Debug)]
enum Post {
    Good(String, Vec<u8>),
    Bad(&'static str, &'static str, Vec<u8>),
}

/// A magnet link for an info hash.
pub fn link(form: usize, h: &[u8]) -> String {
    match form % 6 {
        0 => format!("magnet:?xt=urn:btih:{}", hex(h)),
        1 => format!("magnet:?xt=urn:btih:{}&dn=some+name&tr=udp%3A%2F%2Ftracker.example%3A80", hex(h).to_uppercase()),
        2 => format!("magnet:?xt=urn:btih:{}", base32(h)),
        3 => format!("magnet:?dn=x&xt=urn:btih:{}&xl=10", hex(h)),
        k => {
            let many: String = (0..[70, 1500][k - 4]).map(|k| format!("&tr=udp%3A%2F%2Ftracker{k:04}.example.com%3A80")).collect();
            format!("magnet:?xt=urn:btih:{}&dn=x{many}", hex(h))
        }
    }
}

fn good(form: usize, k: usize) -> Post {
    let h = hash(k);
    Post::Good(link(form, &h), h)
}

fn bad() -> Vec<Post> {
    let h = hex(&hash(7));
    let b = |s: String| Post::Bad("POST", "/add/magnet", s.into_bytes());
    vec![
        b(String::new()),
        b("hello".into()),
        b("magnet:?".into()),
        b("magnet:?dn=x".into()),
        b(format!("magnet:?xt=urn:btih:{}", &h[..39])),
        b(format!("magnet:?xt=urn:btih:{h}0")),
        b(format!("magnet:?xt=urn:btih:{}zz", &h[..38])),
        b(format!("magnet:?xt=urn:sha1:{h}")),
        b("magnet:?xt=urn:btih:\u{e4}\u{4e16}".into()),
        b("x".repeat(300_000)),
        b(format!("http://x/?xt=urn:btih:{h}")),
        Post::Bad("POST", "/add/magnet", vec![0xff, 0xfe, 0, b'm']),
        Post::Bad("GET", "/add/magnet", vec![]),
        Post::Bad("POST", "/add", format!("magnet:?xt=urn:btih:{h}").into_bytes()),
        Post::Bad("DELETE", "/", vec![]),
    ]
}

fn show_post(p: &Post) -> String {
    match p {
        Post::Good(s, _) => s.clone(),
        Post::Bad(m, u, b) => format!("{m} {u} {}", show(&b[..b.len().min(60)])),
    }
}

/// Tracker conduct by number.
fn conduct(m: usize, t: SocketAddrV4) -> Act {
    let i = CONFIGURED.iter().position(|a| a.parse() == Ok(t)).unwrap_or(0);
    match m {
        0 => Act::Right,
        1 => Act::Late,
        2 => [Act::Right, Act::Never][i % 2],
        3 => [Act::Error, Act::Right, Act::Garbage, Act::Late, Act::Cut][i % 5],
        4 => [Act::Never, Act::Right][(i == 17) as usize],
        _ => [Act::Never, Act::Right][(i == 0) as usize],
    }
}

#[cfg(feature = "api")]
/// Posts, with pauses between them: 0 none, 1 until the actors are done, 2 until time passes.
fn serve(posts: &[Post], pause: &dyn Fn(usize) -> usize, mood: usize, want: &[SocketAddrV4], c: &mut Case) -> Result<(), Fail> {
    use actix_web::{test, App};
    let dead = SocketAddrV4::new(Ipv4Addr::new(10, 66, 66, 66), 6881);
    let w = Rc::new(World {
        book: Default::default(),
        lists: BTreeMap::new(),
        default: vec![dead],
        reach: [(dead, Reach::Refused)].into(),
        act: Box::new(move |t, _| conduct(mood, t)),
    });
    // that one never becomes reachable
    struct NoPeers;
    impl Net for NoPeers {
        fn connect(&mut self, _: SocketAddrV4, _: u64) -> Connect {
            Connect::Refused
        }
    }
    let mut os = Os::new();
    settle(&mut os);
    os.udp = Some(Box::new(Udp(w.clone())));
    os.net = Some(Box::new(NoPeers));
    let mut statuses: Vec<u16> = vec![];
    let mut early = vec![];
    let (r, panics) = in_system(&mut os, |sys| {
        sys.block_on(async {
            let hub = TrackersInterfaceActor::new().start();
            let app = test::init_service(App::new().configure(rust_bit::verif::configure_api(hub))).await;
            for (k, p) in posts.iter().enumerate() {
                let req = match p {
                    Post::Good(s, _) => test::TestRequest::post().uri("/add/magnet").set_payload(s.clone()),
                    Post::Bad(m, u, b) => test::TestRequest::default().method(m.parse().unwrap()).uri(u).set_payload(b.clone()),
                };
                statuses.push(match test::try_call_service(&app, req.to_request()).await {
                    Ok(r) => r.status().as_u16(),
                    Err(e) => e.as_response_error().status_code().as_u16(),
                });
                match pause(k) {
                    0 => {}
                    1 => drop(quiet().await),
                    _ => {
                        if quiet().await.is_some() {
                            active(|os| os.idle.as_mut().unwrap().advance = true);
                        }
                    }
                }
            }
            for _ in 0..200_000 {
                let next = quiet().await;
                if let Some(p) = take_panic() {
                    early.push(p);
                    return true;
                }
                if next.is_none() {
                    return true;
                }
                active(|os| os.idle.as_mut().unwrap().advance = true);
            }
            false
        })
    });
    drop(os);
    if let Some(p) = early.first().or(panics.first()) {
        return Err(p.fail());
    }
    ensure!(r == Some(true), "never comes to rest", "{} posts", posts.len());
    let mut count: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for (p, s) in posts.iter().zip(&statuses) {
        match p {
            Post::Good(m, h) => {
                ensure!(*s == 200, "good magnet not answered with 200", "{m}: {s}");
                *count.entry(h.clone()).or_insert(0) += 1;
            }
            Post::Bad(m, u, b) => ensure!((400..500).contains(s), "bad post not answered with a client error", "{m} {u} {}: {s}", show(b)),
        }
    }
    let k = w.book.borrow();
    let mut all: BTreeSet<SocketAddrV4> = want.iter().copied().collect();
    all.extend(k.connects.keys());
    all.extend(k.asked.keys().map(|x| x.0));
    for ((t, h), n) in &k.asked {
        ensure!(count.contains_key(h), "a torrent nobody added was registered", "{} at {t}: {n}", show(h));
    }
    let total: usize = count.values().sum();
    for t in &all {
        let answers = matches!(conduct(mood, *t), Act::Right | Act::Late);
        for (h, n) in &count {
            let m = k.asked.get(&(*t, h.clone())).copied().unwrap_or(0);
            if answers {
                ensure!(m == *n, "not registered exactly once per post", "{} posted {n} times, announced {m} times to {t}; {total} posts", show(h));
            }
        }
        let m = k.connects.get(t).copied().unwrap_or(0);
        if answers {
            ensure!(m == total, "tracker asked more or less often than torrents were added", "{t}: {m} connects, {total} torrents");
        }
        ensure!(m >= total, "tracker not asked for every torrent", "{t}: {m} connects, {total} torrents");
    }
    ensure!(total == 0 || !all.is_empty(), "no tracker asked", "{total} torrents");
    c.steps((posts.len() * all.len().max(1)) as u64);
    c.state(fnv(format!("{statuses:?} {:?}", k.asked).as_bytes()));
    if total > 0 {
        c.nontrivial(fnv(c.text_bytes()));
    }
    Ok(())
}

/// The HTTP service handed the posts in process.
#[cfg(feature = "api")]
fn served(ctx: &mut Ctx, want: &[SocketAddrV4]) {
    // sequences of posts
    let mut menu: Vec<Post> = (0..4).map(|f| good(f, f)).collect();
    menu.push(good(1, 0));
    menu.extend(bad());
    menu.extend([good(4, 4), good(5, 5)]);
    let m = menu.len();
    for n in 1..=2usize {
        let rad = [vec![m; n], vec![3, if n == 1 { 6 } else { 2 }]].concat();
        ctx.enumerate(&format!("sequences of {n} posts"), product(&rad), |i, c| {
            let d = digits(i, &rad);
            // and one more that must still be served
            let mut posts: Vec<Post> = d[..n].iter().map(|k| menu[*k].clone()).collect();
            posts.push(good(0, 9));
            c.text(format!("{:?}, pause {}, trackers {}", posts.iter().map(show_post).collect::<Vec<_>>(), d[n], d[n + 1]));
            serve(&posts, &|_| d[n], d[n + 1], want, c)
        });
    }
    // all short sequences of a small menu with every choice of pauses
    let small = [good(0, 0), good(2, 1), good(0, 2), menu[9].clone()];
    let bound = ctx.pick(1, 3);
    let rad = [vec![small.len(); 4], vec![4]].concat();
    ctx.dfs_family("orders of posts and events", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let posts: Vec<Post> = d[..4].iter().map(|k| small[*k].clone()).collect();
        c.text(format!("{:?}, trackers {}", posts.iter().map(show_post).collect::<Vec<_>>(), d[4]));
        serve(&posts, &|_| explore::choose(3), d[4], want, c)
    });
    // many at once
    let sizes: &[usize] = ctx.pick(&[2, 15, 16, 17, 18, 33, 40], &[2, 8, 15, 16, 17, 18, 19, 31, 32, 33, 34, 40, 64, 80]);
    let rad = [sizes.len(), 6, 3];
    ctx.enumerate("bursts", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let posts: Vec<Post> = (0..sizes[d[0]]).map(|k| good(k % 6, k)).collect();
        c.text(format!("{} posts, trackers {}, pause {}", posts.len(), d[1], d[2]));
        serve(&posts, &|_| d[2], d[1], want, c)
    });
}

fn api(ctx: &mut Ctx) {
    wipe();
    let want = configured();
    #[cfg(feature = "api")]
    served(ctx, &want);
    // the whole program, over real connections
    let rad = [6usize, 2];
    ctx.enumerate("the real program", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let posts: Vec<Post> = match d[0] {
            0 => vec![good(0, 0)],
            1 => (0..6).map(|k| good(k, k)).collect(),
            2 => (0..40).map(|k| good(k % 6, k)).collect(),
            3 => bad().into_iter().flat_map(|b| [b, good(0, 1)]).take(14).collect(),
            4 => bad().into_iter().chain([good(0, 9)]).collect(),
            _ => (0..5).map(|k| good(k, 0)).collect(),
        };
        let posts: Vec<Post> = posts.into_iter().filter(|p| !matches!(p, Post::Bad(_, _, b) if b.len() > 100_000)).collect();
        c.text(format!("{} posts, the first {}, {}", posts.len(), show_post(&posts[0]), ["in turn", "together"][d[1]]));
        let mut count: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
        let reqs = posts
            .iter()
            .map(|p| match p {
                Post::Good(m, h) => {
                    *count.entry(h.clone()).or_insert(0) += 1;
                    crate::real::good(m.as_bytes())
                }
                Post::Bad(m, u, b) => crate::real::Req { method: m.to_string(), uri: u.to_string(), body: b.clone() },
            })
            .collect();
        let plan = crate::real::Run {
            trackers: want.clone(),
            answers: |_| true,
            lists: Box::new(|_, _| vec![300]),
            shares: vec![],
            peers: vec![],
            posts: reqs,
            together: d[1] == 1,
            kills: vec![],
        };
        let asked: BTreeMap<(usize, Vec<u8>), usize> = (0..want.len()).flat_map(|t| count.iter().map(move |(h, n)| ((t, h.clone()), *n))).collect();
        let statuses = |f: &crate::real::Found| {
            posts.iter().zip(&f.statuses).all(|(p, s)| match p {
                Post::Good(..) => *s == Some(200),
                Post::Bad(..) => s.is_some_and(|s| (400..500).contains(&s)),
            })
        };
        let done = |f: &crate::real::Found| !f.died && statuses(f) && f.asked == asked;
        let why = |f: &crate::real::Found| {
            if !statuses(f) {
                return format!("statuses {:?}", f.statuses);
            }
            let n = |a: &BTreeMap<(usize, Vec<u8>), usize>| a.values().sum::<usize>();
            format!("{} announces reached the trackers, should be {}", n(&f.asked), n(&asked))
        };
        crate::real::real(plan, &done, &why, c)
    });
}
