//! Exchanges with trackers: C22 (UDP) and C23 (HTTP). The client's code is real; its sockets and
//! clock are simulated, the tracker is a model.
use crate::swarm::Shared;
use crate::util::*;
use rust_bit::verif::tracker::get_peers_by_tracker;
use sim::explore::choose;
use sim::os::*;
use sim::runner::*;
use sim::{ensure, fnv, show};
use std::cell::RefCell;
use std::net::SocketAddrV4;
use std::rc::Rc;
use url::Url;

pub fn specs() -> Vec<Spec> {
    let s = |id, rule, run| Spec {
        id,
        level: "exploration",
        rule,
        assumptions: &["the simulated sockets behave like Linux's", "trackers are named by IPv4 address (no name service here)"],
        run,
    };
    vec![
        s("C22", "exchanges with a UDP tracker under every bounded choice of lost, late, repeated, mutated, reordered and foreign datagrams and failing sends; every length of each reply; every octet of the info hash; every number of peers; non-trivial: an announce reached the tracker or something went wrong on the way", udp),
        s("C23", "exchanges with an HTTP tracker for every tracker URL and info hash octet of a menu, every framing and compression the client offers, every truncation and split of a reply, every status and malformed body of a menu, slow, endless and refused answers; non-trivial: the tracker got a request", http),
    ]
}

type Peers = Result<Vec<String>, String>;

struct Asked {
    peers: Peers,
    took: u64,
    calls: u64,
}

fn ask(url: &str, hash: &[u8], os: &mut Os) -> Result<Asked, Fail> {
    let url = Url::parse(url).unwrap();
    let start = os.now;
    os.time_limit = start + 600 * SEC;
    os.call_limit = 3_000_000;
    let peers = with_os(os, || {
        cut(|| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            rt.block_on(get_peers_by_tracker(&url, hash))
                .map(|p| p.iter().map(|e| e.endpoint()).collect::<Vec<_>>())
                .map_err(|e| format!("{e:?}"))
        })
    })
    .map_err(|p| p.fail())?;
    Ok(Asked { peers, took: os.now - start, calls: os.calls })
}

/// n distinct peers in compact form, `tag` in their address.
fn compact(tag: u8, n: usize) -> Vec<u8> {
    (0..n)
        .flat_map(|i| {
            let p = 1024 + (i * 97 % 60000) as u16;
            [10, tag, (i >> 8) as u8, i as u8, (p >> 8) as u8, p as u8]
        })
        .collect()
}

fn endpoints(b: &[u8]) -> Vec<String> {
    b.chunks_exact(6)
        .map(|c| format!("{}.{}.{}.{}:{}", c[0], c[1], c[2], c[3], (c[4] as u16) << 8 | c[5] as u16))
        .collect()
}

// ------------------------------------------------------------------------------------------ UDP

const CONNECT_MAGIC: u64 = 0x41727101980;

#[derive(Clone, Copy, PartialEq, Debug)]
enum React {
    Right,
    Lost,
    After(u64),
    Twice,
    Error,
    Cut(usize),
    Empty,
    OtherTransaction,
    OtherAction,
    NoiseFirst,
    Foreign,
    Replay,
    Unreachable,
}
use React::*;

const MENU: [React; 18] = [
    Right,
    Lost,
    After(400),
    After(4000),
    After(6000),
    After(11000),
    Twice,
    Error,
    Cut(0),
    Cut(7),
    Cut(15),
    Empty,
    OtherTransaction,
    OtherAction,
    NoiseFirst,
    Foreign,
    Replay,
    Unreachable,
];

struct UdpTracker {
    hash: Vec<u8>,
    addr: SocketAddrV4,
    n: usize,
    plan: Box<dyn FnMut(u32, usize) -> React>,
    fault: Option<Fail>,
    connects: usize,
    announces: usize,
    given: Vec<[u8; 8]>,
    /// Peer lists of matching announce replies sent.
    lists: Vec<Vec<u8>>,
    /// Was a right reply sent at once to one of the first two requests of the phase?
    served: [bool; 2],
    wrecked: bool,
    said: Vec<String>,
    last: Vec<Vec<u8>>,
    tag: u8,
    /// Overrides the right reply.
    length: [Option<usize>; 2],
    /// The connection id to give out.
    id: Option<[u8; 8]>,
    /// Interval, leechers and seeders.
    head: [u32; 3],
}

impl UdpTracker {
    fn new(hash: Vec<u8>, n: usize, plan: Box<dyn FnMut(u32, usize) -> React>) -> UdpTracker {
        UdpTracker {
            hash,
            addr: "10.9.8.7:1337".parse().unwrap(),
            n,
            plan,
            fault: None,
            connects: 0,
            announces: 0,
            given: vec![],
            lists: vec![],
            served: [false; 2],
            wrecked: false,
            said: vec![],
            last: vec![],
            tag: 0,
            length: [None; 2],
            id: None,
            head: [1800, 1, 2],
        }
    }

    fn bad(&mut self, sig: &str, msg: String) {
        if self.fault.is_none() {
            self.fault = Some(Fail { sig: sig.into(), msg });
        }
    }
}

struct Tracked(Rc<RefCell<UdpTracker>>);

impl UdpServer for Tracked {
    fn on_datagram(&mut self, to: SocketAddrV4, b: &[u8], w: &mut UdpWire) {
        let mut t = self.0.borrow_mut();
        let t = &mut *t;
        if to != t.addr {
            t.bad("datagram to another address", format!("sent to {to}"));
        }
        if b.len() < 16 {
            return t.bad("malformed request", show(b));
        }
        let action = u32::from_be_bytes(b[8..12].try_into().unwrap());
        let tx = b[12..16].to_vec();
        let mut right = [&action.to_be_bytes()[..], &tx].concat();
        t.tag += 1;
        let phase = match action {
            0 => {
                if b.len() != 16 || b[..8] != CONNECT_MAGIC.to_be_bytes() {
                    t.bad("malformed connect request", show(b));
                }
                t.connects += 1;
                let id = [0xc0, 0xff, t.connects as u8, 0, 0x80, 0x7f, 1, t.tag];
                right.extend(t.id.unwrap_or(id));
                if let Some(l) = t.length[0] {
                    right.resize(l, 0x77);
                }
                0
            }
            1 => {
                if b.len() < 98 {
                    return t.bad("malformed announce", show(b));
                }
                if !t.given.iter().any(|g| g[..] == b[..8]) {
                    t.bad("announce without a received connection id", show(&b[..8]));
                }
                if b[16..36] != t.hash[..] {
                    t.bad("announce for another torrent", show(&b[16..36]));
                }
                if !b[36..56].iter().all(|c| (0x20..0x7f).contains(c)) {
                    t.bad("malformed peer id", show(&b[36..56]));
                }
                if b.len() != 98 {
                    t.bad("announce of the wrong length", format!("{} bytes", b.len()));
                }
                if u32::from_be_bytes(b[92..96].try_into().unwrap()) == 0 {
                    t.bad("announce asks for no peers", show(b));
                }
                t.announces += 1;
                t.head.iter().for_each(|x| right.extend(x.to_be_bytes()));
                right.extend(compact(t.tag, t.n));
                if let Some(l) = t.length[1] {
                    right.resize(l, 0x77);
                }
                1
            }
            _ => return t.bad("unknown action", show(b)),
        };
        let k = if phase == 0 { t.connects } else { t.announces };
        let how = (t.plan)(phase, k);
        t.said.push(format!("{}{k}:{how:?}", ["connect", "announce"][phase as usize]));
        let note = |t: &mut UdpTracker, r: &[u8]| {
            if r.len() >= 8 && r[4..8] == tx[..] {
                if r[..4] == [0, 0, 0, 0] && r.len() >= 16 {
                    t.given.push(r[8..16].try_into().unwrap());
                }
                if r[..4] == [0, 0, 0, 1] && r.len() >= 20 {
                    t.lists.push(r[20..].to_vec());
                }
            }
        };
        let mut out: Vec<(u64, Vec<u8>, bool)> = vec![];
        match how {
            Right => out.push((10, right.clone(), false)),
            Lost => {}
            After(ms) => out.push((ms, right.clone(), false)),
            Twice => {
                out.push((10, right.clone(), false));
                out.push((20, right.clone(), false));
            }
            Error => {
                out.push((10, [&[0, 0, 0, 3], &tx[..], b"go away, you are not welcome here"].concat(), false));
                t.wrecked = true;
            }
            Cut(n) => out.push((10, right[..n.min(right.len())].to_vec(), false)),
            Empty => out.push((10, vec![], false)),
            OtherTransaction => {
                let mut r = right.clone();
                r[7] ^= 1;
                out.push((10, r, false));
            }
            OtherAction => {
                let mut r = right.clone();
                r[3] ^= 1;
                r.resize(32, 0x66);
                out.push((10, r, false));
            }
            NoiseFirst => {
                let mut r = right.clone();
                r[5] ^= 0x80;
                out.push((10, r, false));
                let mut r = right.clone();
                r[0] ^= 0x80;
                out.push((20, r, false));
                out.push((30, vec![1, 2, 3], false));
                out.push((40, right.clone(), false));
            }
            Foreign => {
                let mut r = right.clone();
                if r.len() > 26 {
                    r[21] = 0xee;
                }
                out.push((5, r, true));
                out.push((40, right.clone(), false));
            }
            Replay => {
                // everything sent so far comes again, then the answer
                for r in t.last.clone() {
                    out.push((5, r, false));
                }
                out.push((40, right.clone(), false));
            }
            Unreachable => {
                w.fail = Some(libc::ENETUNREACH);
                return;
            }
        }
        for (ms, r, foreign) in out {
            if foreign {
                w.stray_after(ms * MS, &r);
            } else {
                note(t, &r);
                t.last.push(r.clone());
                w.reply_after(ms * MS, &r);
                if r == right && ms <= 1000 && k <= 2 {
                    t.served[phase as usize] = true;
                }
            }
        }
    }
}

fn udp_once(t: UdpTracker, url: &str, must: Option<bool>, c: &mut Case) -> Result<Peers, Fail> {
    let hash = t.hash.clone();
    let t = Rc::new(RefCell::new(t));
    let mut os = Os::new();
    os.udp = Some(Box::new(Tracked(t.clone())));
    let r = ask(url, &hash, &mut os)?;
    drop(os);
    c.steps(r.calls);
    let t = t.borrow();
    c.text(format!("{url}: {}", t.said.join(", ")));
    c.state(fnv(c.text_bytes()));
    if let Some(f) = &t.fault {
        return fail(f.sig.clone(), f.msg.clone());
    }
    ensure!(r.took < 130 * SEC, "takes too long", "{} s for {:?}", r.took / SEC, t.said);
    if t.announces > 0 || t.said.iter().any(|s| !s.ends_with("Right")) {
        c.nontrivial(fnv(c.text_bytes()));
    }
    match &r.peers {
        Ok(p) => {
            let allowed: Vec<Vec<String>> = t.lists.iter().map(|l| endpoints(l)).collect();
            ensure!(
                allowed.contains(p) || (p.is_empty() && allowed.iter().any(|a| a.is_empty())),
                "peers no matching reply contained",
                "{} peers {:?}; replies {:?}",
                p.len(),
                p.iter().take(5).collect::<Vec<_>>(),
                t.said
            );
            c.outcome(format!("{} peers", if p.len() > 3 { "many".into() } else { p.len().to_string() }));
        }
        Err(e) => {
            let served = must.unwrap_or(t.served[0] && t.served[1] && !t.wrecked);
            ensure!(!served, "no peers from a tracker that answered", "{e} after {:?}", t.said);
            let given_up = t.said.last().is_some_and(|s| s == "connect1:Lost" || s == "announce1:Lost");
            ensure!(!given_up, "unanswered request not sent again", "{e} after {:?}", t.said);
            c.outcome(format!("error {e}"));
        }
    }
    Ok(r.peers.clone())
}

const UDP_URL: &str = "udp://10.9.8.7:1337/announce";

fn udp(ctx: &mut Ctx) {
    let hash: Vec<u8> = (0..20).map(|i| i * 13 + 5).collect();
    let bound = ctx.pick(4, 6);
    for n in [1usize, 3] {
        ctx.dfs(&format!("exchange, {n} peers"), if n == 1 { 3 } else { bound }, |c| {
            let t = UdpTracker::new(hash.clone(), n, Box::new(|_, _| MENU[choose(MENU.len())]));
            udp_once(t, UDP_URL, None, c).map(|_| ())
        });
    }
    ctx.enumerate("number of peers", 601, |i, c| {
        let t = UdpTracker::new(hash.clone(), i as usize, Box::new(|_, _| Right));
        c.text(format!("{i} peers"));
        let p = udp_once(t, UDP_URL, Some(i > 0), c)?;
        ensure!(i == 0 || p.as_ref().map(|p| p.len()) == Ok(i as usize), "wrong number of peers", "{p:?}");
        Ok(())
    });
    // every length of either reply, filled with rubbish
    ctx.enumerate("length of the connect reply", 200, |i, c| {
        let mut t = UdpTracker::new(hash.clone(), 2, Box::new(|_, _| Right));
        t.length[0] = Some(i as usize);
        let p = udp_once(t, UDP_URL, Some(i == 16), c)?;
        ensure!(i >= 16 || p.is_err(), "peers without a connection", "{p:?}");
        Ok(())
    });
    ctx.enumerate("length of the announce reply", 3621, |i, c| {
        let mut t = UdpTracker::new(hash.clone(), 2, Box::new(|_, _| Right));
        t.length[1] = Some(i as usize);
        let p = udp_once(t, UDP_URL, Some(i >= 26), c)?;
        if i >= 26 {
            ensure!(p.as_ref().map(|p| p.len()) == Ok((i as usize - 20) / 6), "wrong number of peers", "{p:?}");
        }
        Ok(())
    });
    ctx.enumerate("info hash octets", 256 * 20, |i, c| {
        let mut h = hash.clone();
        h[(i / 256) as usize] = i as u8;
        let t = UdpTracker::new(h, 2, Box::new(|_, _| Right));
        udp_once(t, UDP_URL, Some(true), c).map(|_| ())
    });
    ctx.enumerate("connection ids", 256 * 9, |i, c| {
        let mut id = [0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88];
        match i / 256 {
            8 => id = [i as u8; 8],
            k => id[k as usize] = i as u8,
        }
        let mut t = UdpTracker::new(hash.clone(), 2, Box::new(|_, _| Right));
        t.id = Some(id);
        udp_once(t, UDP_URL, Some(true), c).map(|_| ())
    });
    let odd = [0u32, 1, 255, 256, 65536, 1 << 31, u32::MAX];
    let rad = [7usize, 7, 7, 4];
    ctx.enumerate("announce reply heads", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let mut t = UdpTracker::new(hash.clone(), [1, 2, 50, 600][d[3]], Box::new(|_, _| Right));
        t.head = [odd[d[0]], odd[d[1]], odd[d[2]]];
        udp_once(t, UDP_URL, Some(true), c).map(|_| ())
    });
    let urls = [
        ("udp://10.9.8.7:1337", true),
        ("udp://10.9.8.7:1337/", true),
        ("udp://10.9.8.7:1337/a/b?c=d", true),
        ("udp://10.9.8.7:80/announce", true),
        ("udp://10.9.8.7:65535/announce", true),
        ("udp://10.9.8.7/announce", false),
        ("udp://10.9.8.7:0/announce", false),
        ("udp:10.9.8.7", false),
        ("udp:/announce", false),
        ("udp://[::1]:1337/announce", false),
        ("ftp://10.9.8.7:1337/announce", false),
        ("wss://10.9.8.7:1337/announce", false),
    ];
    ctx.enumerate("tracker addresses", urls.len() as u64, |i, c| {
        let (url, good) = urls[i as usize];
        let mut t = UdpTracker::new(hash.clone(), 2, Box::new(|_, _| Right));
        if let Some(p) = Url::parse(url).unwrap().port() {
            t.addr.set_port(p);
        }
        c.text(url);
        let p = udp_once(t, url, Some(good), c)?;
        c.text(url);
        ensure!(good || i == 6 || p.is_err(), "peers from no tracker", "{p:?}");
        Ok(())
    });
}

// ----------------------------------------------------------------------------------------- HTTP

#[derive(Clone)]
struct Reply {
    head: String,
    body: Vec<u8>,
    /// 0 length header, 1 chunked, 2 ends with the connection
    framing: usize,
    coding: usize,
    /// Total bytes sent before the connection ends (None: all).
    cut: Option<usize>,
    end: usize,
    delay: u64,
    splits: Vec<(usize, u64)>,
    endless: bool,
}

impl Reply {
    fn ok(body: Vec<u8>) -> Reply {
        Reply {
            head: "HTTP/1.1 200 OK".into(),
            body,
            framing: 0,
            coding: 0,
            cut: None,
            end: 0,
            delay: 1,
            splits: vec![],
            endless: false,
        }
    }
}

struct HttpTracker {
    reply: Reply,
    got: Vec<u8>,
    requests: Vec<String>,
    connects: Vec<SocketAddrV4>,
    coded: bool,
}

fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}

fn adler(b: &[u8]) -> u32 {
    let (mut x, mut y) = (1u32, 0u32);
    for c in b {
        x = (x + *c as u32) % 65521;
        y = (y + x) % 65521;
    }
    y << 16 | x
}

fn stored(b: &[u8]) -> Vec<u8> {
    let last = b.len().div_ceil(65_535).max(1) - 1;
    (0..=last)
        .flat_map(|k| {
            let part = &b[k * 65_535..b.len().min((k + 1) * 65_535)];
            let n = part.len() as u16;
            [&[(k == last) as u8][..], &n.to_le_bytes(), &(!n).to_le_bytes(), part].concat()
        })
        .collect()
}

/// The body in one of the codings a server may pick if the client accepts it.
fn code(b: &[u8], coding: &str) -> Vec<u8> {
    match coding {
        "gzip" => [
            &[0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255][..],
            &stored(b),
            &crc32(b).to_le_bytes(),
            &(b.len() as u32).to_le_bytes(),
        ]
        .concat(),
        "deflate" => [&[0x78, 1][..], &stored(b), &adler(b).to_be_bytes()].concat(),
        "br" => {
            // not last, 4 nibbles of length, uncompressed; the first one tells of a window of 16 bits
            let part = |(k, b): (usize, &[u8])| {
                let m = (b.len() - 1) as u32;
                let bits = if k == 0 { m << 4 | 1 << 20 } else { m << 3 | 1 << 19 };
                [&bits.to_le_bytes()[..3], b].concat()
            };
            b.chunks(65_536).enumerate().flat_map(part).chain([3]).collect()
        }
        _ => b.to_vec(),
    }
}

const CODINGS: [&str; 4] = ["identity", "gzip", "deflate", "br"];

impl Peer for HttpTracker {
    fn on_data(&mut self, b: &[u8], w: &mut Wire) {
        self.got.extend(b);
        let Some(end) = self.got.windows(4).position(|x| x == b"\r\n\r\n") else { return };
        let req = String::from_utf8_lossy(&self.got[..end]).into_owned();
        self.got.drain(..end + 4);
        self.requests.push(req.clone());
        let r = self.reply.clone();
        let accepts = req
            .lines()
            .filter_map(|l| l.split_once(':'))
            .find(|(k, _)| k.trim().eq_ignore_ascii_case("accept-encoding"))
            .map(|(_, v)| v.split(',').map(|x| x.trim().to_lowercase()).collect::<Vec<_>>())
            .unwrap_or_default();
        let coding = CODINGS[r.coding];
        self.coded = r.coding > 0 && accepts.iter().any(|a| a == coding);
        let body = if self.coded { code(&r.body, coding) } else { r.body.clone() };
        let mut m = format!("{}\r\nServer: t\r\n", r.head).into_bytes();
        if self.coded {
            m.extend(format!("Content-Encoding: {coding}\r\n").bytes());
        }
        match r.framing {
            0 => m.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes()),
            1 => m.extend(b"Transfer-Encoding: chunked\r\n\r\n"),
            _ => m.extend(b"Connection: close\r\n\r\n"),
        }
        match r.framing {
            1 => {
                for ch in body.chunks(7.max(body.len() / 5)) {
                    m.extend(format!("{:x}\r\n", ch.len()).bytes());
                    m.extend(ch);
                    m.extend(b"\r\n");
                }
                m.extend(b"0\r\n\r\n");
            }
            _ => m.extend(&body),
        }
        w.cuts = r.splits.clone();
        w.now += r.delay * MS;
        if r.endless {
            w.send(&m[..m.len() - 1]);
            for _ in 0..20_000 {
                w.send_after(MS, &[b'0'; 100]);
                w.now += MS;
            }
            return;
        }
        let n = r.cut.unwrap_or(m.len()).min(m.len());
        w.send(&m[..n]);
        if r.framing == 2 || r.cut.is_some() {
            match r.end {
                0 => w.close(),
                1 => w.reset(),
                _ => {}
            }
        }
    }
}

struct Http {
    asked: Asked,
    t: Rc<RefCell<HttpTracker>>,
}

struct HttpNet {
    t: Rc<RefCell<HttpTracker>>,
    answer: usize,
}

impl Net for HttpNet {
    fn connect(&mut self, a: SocketAddrV4, _now: u64) -> Connect {
        self.t.borrow_mut().connects.push(a);
        match self.answer {
            0 => {
                self.t.borrow_mut().got.clear();
                Connect::Accept(Box::new(Shared(self.t.clone())))
            }
            1 => Connect::Refused,
            _ => Connect::TimedOut,
        }
    }
}

fn http_once(url: &str, hash: &[u8], reply: Reply, answer: usize, c: &mut Case) -> Result<Http, Fail> {
    let t = Rc::new(RefCell::new(HttpTracker { reply, got: vec![], requests: vec![], connects: vec![], coded: false }));
    let mut os = Os::new();
    os.net = Some(Box::new(HttpNet { t: t.clone(), answer }));
    let asked = ask(url, hash, &mut os)?;
    drop(os);
    c.steps(asked.calls);
    ensure!(asked.took < 10 * SEC, "takes too long", "{} ms", asked.took / MS);
    // (what a redirect leads to is not judged)
    if let (Some(req), Some(a)) = (t.borrow().requests.first(), t.borrow().connects.first()) {
        c.state(fnv(format!("{req} {:?}", asked.peers).as_bytes()));
        http_request(url, hash, req, a)?;
        c.nontrivial(fnv(c.text_bytes()));
    }
    Ok(Http { asked, t })
}

fn http_request(url: &str, hash: &[u8], req: &str, to: &SocketAddrV4) -> Result<(), Fail> {
    let u = Url::parse(url).unwrap();
    let line = req.lines().next().unwrap_or("");
    let f: Vec<&str> = line.split(' ').collect();
    ensure!(f.len() == 3 && f[0] == "GET" && f[2].starts_with("HTTP/1."), "malformed request line", "{line}");
    ensure!(
        Some(to.ip().to_string().as_str()) == u.host_str() && to.port() == u.port().unwrap_or(80),
        "connected to another address",
        "{to} for {url}"
    );
    let (path, query) = f[1].split_once('?').unwrap_or((f[1], ""));
    ensure!(path == u.path(), "wrong path", "{line} for {url}");
    let host = req
        .lines()
        .filter_map(|l| l.split_once(':'))
        .filter(|(k, _)| k.eq_ignore_ascii_case("host"))
        .map(|(_, v)| v.trim().to_string())
        .collect::<Vec<_>>();
    let want = match u.port() {
        Some(p) => format!("{}:{p}", u.host_str().unwrap()),
        None => u.host_str().unwrap().to_string(),
    };
    ensure!(host == [want.clone()] || host == [format!("{want}:80")], "wrong Host header", "{host:?} for {url}");
    let mut pairs: Vec<(String, Vec<u8>)> = query
        .split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            (k.to_string(), unescape(v))
        })
        .collect();
    for p in u.query().unwrap_or("").split('&').filter(|p| !p.is_empty()) {
        let (k, v) = p.split_once('=').unwrap_or((p, ""));
        let at = pairs.iter().position(|x| x.0 == k && x.1 == unescape(v));
        match at {
            Some(i) => {
                pairs.remove(i);
            }
            None => return fail("query of the tracker lost", format!("{p} missing in {line}")),
        }
    }
    let of = |k: &str| pairs.iter().filter(|p| p.0 == k).map(|p| p.1.clone()).collect::<Vec<_>>();
    ensure!(of("info_hash") == [hash.to_vec()], "wrong info hash", "{line}");
    let id = of("peer_id");
    ensure!(id.len() == 1 && id[0].len() == 20, "malformed peer id", "{line}");
    ensure!(query.bytes().all(|c| c.is_ascii_graphic()), "characters that do not belong in a URL", "{line}");
    Ok(())
}

const HTTP_URL: &str = "http://10.9.8.7:6969/announce";

fn body(n: usize) -> (Vec<u8>, Vec<String>) {
    let list = compact(3, n);
    (
        Ben::Dict(vec![
            (b"complete".to_vec(), Ben::Int(4)),
            (b"downloaded".to_vec(), Ben::Neg(1)),
            (b"interval".to_vec(), Ben::Int(1800)),
            (b"peers".to_vec(), Ben::Str(list.clone())),
        ])
        .enc(),
        endpoints(&list),
    )
}

fn http(ctx: &mut Ctx) {
    let hash: Vec<u8> = (0..20).map(|i| i * 13 + 5).collect();
    let expect = |h: &Http, want: &[String], c: &mut Case| -> Result<(), Fail> {
        match &h.asked.peers {
            Ok(p) => ensure!(p == want, "wrong peers", "{} instead of {}: {:?}", p.len(), want.len(), p.iter().take(4).collect::<Vec<_>>()),
            Err(e) => return fail("no peers from a tracker that answered", format!("{e}")),
        }
        c.outcome(format!("{} peers", want.len().min(4)));
        Ok(())
    };
    let refuse = |h: &Http, c: &mut Case| -> Result<(), Fail> {
        if let Ok(p) = &h.asked.peers {
            return fail("peers from no proper answer", format!("{p:?}"));
        }
        c.outcome("error");
        Ok(())
    };
    ctx.enumerate("info hash octets", 256 * 20, |i, c| {
        let mut h = hash.clone();
        h[(i / 256) as usize] = i as u8;
        c.text(format!("hash {}", show(&h)));
        let (b, want) = body(2);
        expect(&http_once(HTTP_URL, &h, Reply::ok(b), 0, c)?, &want, c)
    });
    let hosts = ["10.9.8.7", "10.9.8.7:80", "10.9.8.7:6969", "10.9.8.7:1", "10.9.8.7:65535"];
    let paths = ["", "/", "/announce", "/announce.php", "/a/b/c", "/0123abcdef/announce", "/a%20b", "/a+b", "/announce/", "/~x;y=1", "//announce"];
    let queries = ["", "?", "?a=b", "?passkey=0a1b2c", "?a=b&c=d", "?a=%26%3D%20", "?flag", "?a=b&", "?x=1?2"];
    let radix = [hosts.len(), paths.len(), queries.len(), 3];
    ctx.enumerate("tracker URLs", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let url = format!("http://{}{}{}", hosts[d[0]], paths[d[1]], queries[d[2]]);
        let h = [hash.clone(), b"&=?%+ #/\\\"<>^`{|}~-_.".to_vec()[..20].to_vec(), vec![0xff; 20]][d[3]].clone();
        c.text(url.clone());
        let (b, want) = body(2);
        expect(&http_once(&url, &h, Reply::ok(b), 0, c)?, &want, c)
    });
    ctx.enumerate("number of peers", 601 * 12, |i, c| {
        let d = digits(i, &[601, 3, 4]);
        let (b, want) = body(d[0]);
        c.text(format!("{} peers, framing {}, coding {}", d[0], d[1], CODINGS[d[2]]));
        let r = Reply { framing: d[1], coding: d[2], ..Reply::ok(b) };
        let h = http_once(HTTP_URL, &hash, r, 0, c)?;
        expect(&h, &want, c)
    });
    // long lists
    let counts = [1000usize, 1666, 1700, 2730, 5000, 10_922, 10_923, 20_000, 43_691, 100_000, 174_763, 400_000];
    ctx.enumerate("very many peers", counts.len() as u64 * 12, |i, c| {
        let d = digits(i, &[counts.len(), 3, 4]);
        let (b, want) = body(counts[d[0]]);
        c.text(format!("{} peers, framing {}, coding {}", counts[d[0]], d[1], CODINGS[d[2]]));
        let r = Reply { framing: d[1], coding: d[2], ..Reply::ok(b) };
        expect(&http_once(HTTP_URL, &hash, r, 0, c)?, &want, c)
    });
    // every truncation and split, for all framings
    let whole: Vec<usize> = (0..3)
        .map(|f| {
            let (b, _) = body(2);
            let t = Rc::new(RefCell::new(HttpTracker {
                reply: Reply { framing: f, ..Reply::ok(b) },
                got: vec![],
                requests: vec![],
                connects: vec![],
                coded: false,
            }));
            let mut w = Wire::default();
            t.borrow_mut().on_data(b"GET / HTTP/1.1\r\n\r\n", &mut w);
            w.sent
        })
        .collect();
    let max = *whole.iter().max().unwrap();
    ctx.enumerate("truncated replies", (max * 9) as u64, |i, c| {
        let d = digits(i, &[max, 3, 3]);
        let (b, want) = body(2);
        c.text(format!("reply cut after {} bytes, framing {}, then {}", d[0], d[1], ["close", "reset", "silence"][d[2]]));
        let r = Reply { framing: d[1], cut: Some(d[0]), end: d[2], ..Reply::ok(b) };
        let h = http_once(HTTP_URL, &hash, r, 0, c)?;
        // the end of a chunked body, or of one that ends with the connection, may be missing
        let must = match d[1] {
            0 => d[0] >= whole[0],
            1 => d[0] >= whole[1],
            _ => d[0] >= whole[2] && d[2] == 0,
        };
        let may = match d[1] {
            0 => d[0] >= whole[0],
            1 => d[0] + 7 >= whole[1],
            _ => d[0] >= whole[2],
        };
        if must || (may && h.asked.peers.is_ok()) {
            expect(&h, &want, c)
        } else {
            refuse(&h, c)
        }
    });
    ctx.enumerate("split replies", (max * 3 * 4) as u64, |i, c| {
        let d = digits(i, &[max, 3, 4]);
        if d[0] == 0 || d[0] >= whole[d[1]] {
            c.outcome("no split");
            return Ok(());
        }
        let ms = [0u64, 1, 50, 200][d[2]];
        let (b, want) = body(2);
        c.text(format!("reply split at {} for {ms} ms, framing {}", d[0], d[1]));
        let r = Reply { framing: d[1], splits: vec![(d[0], ms * MS)], ..Reply::ok(b) };
        expect(&http_once(HTTP_URL, &hash, r, 0, c)?, &want, c)
    });
    if ctx.thorough() {
        ctx.enumerate("pairs of splits", (max * max * 3) as u64, |i, c| {
            let d = digits(i, &[max, max, 3]);
            if d[0] == 0 || d[0] >= d[1] || d[1] >= whole[d[2]] {
                c.outcome("no split");
                return Ok(());
            }
            let (b, want) = body(2);
            c.text(format!("reply split at {} and {}, framing {}", d[0], d[1], d[2]));
            let r = Reply { framing: d[2], splits: vec![(d[0], 30 * MS), (d[1], 30 * MS)], ..Reply::ok(b) };
            expect(&http_once(HTTP_URL, &hash, r, 0, c)?, &want, c)
        });
    }
    let (good, good_peers) = body(2);
    let heads = [
        "HTTP/1.1 400 Bad Request", "HTTP/1.1 403 Forbidden", "HTTP/1.1 404 Not Found", "HTTP/1.1 500 Oops", "HTTP/1.1 503 Busy",
        "HTTP/1.1 301 Moved\r\nLocation: http://10.9.8.7:6969/announce", "HTTP/1.1 302 Found\r\nLocation: ::::", "HTTP/1.1 302 Found",
        "HTTP/1.1 999 What", "HTTP/1.1 -1 What", "HTTP/1.1", "HTTP/9.9 200 OK", "ICY 200 OK", "", "\0\0\0", "220 smtp ready",
        "HTTP/1.1 200 OK\r\nContent-Length: 5", "HTTP/1.1 200 OK\r\nContent-Length: x", "HTTP/1.1 200 OK\r\nbad header", "HTTP/1.0 200 OK", "HTTP/1.1 200",
        "HTTP/1.1 200 \u{e9}\u{e9}", "HTTP/1.1 200 OK\r\nContent-Encoding: gzip", "HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999",
    ];
    ctx.enumerate("status lines and headers", (heads.len() * 3) as u64, |i, c| {
        let d = digits(i, &[heads.len(), 3]);
        c.text(format!("{:?}, framing {}", heads[d[0]], d[1]));
        let r = Reply { head: heads[d[0]].into(), framing: d[1], ..Reply::ok(good.clone()) };
        let h = http_once(HTTP_URL, &hash, r, 0, c)?;
        if d[0] <= 4 {
            return refuse(&h, c);
        }
        match &h.asked.peers {
            Ok(p) => ensure!(*p == good_peers, "wrong peers", "{p:?}"),
            Err(_) => ensure!(d[0] != 20 && (d[0] != 19 || d[1] == 1), "no peers from a tracker that answered", "{:?}", h.asked.peers),
        }
        c.outcome(if h.asked.peers.is_ok() { "peers" } else { "error" });
        Ok(())
    });
    // bodies: all short strings over the alphabet of bencode, and malformed replies
    let letters: Vec<&[u8]> = vec![b"d", b"e", b"i", b"l", b"0", b"6", b":", b"5:peers", b"abcdef", b"1"];
    let len = ctx.pick(4, 5);
    let of_body = |b: &[u8]| -> Option<Option<Vec<String>>> {
        // None: not judged; Some(None): refuse
        match ref_decode(b) {
            Ref::Good(Ben::Dict(d), n) => match d.iter().find(|e| e.0 == b"peers") {
                Some((_, Ben::Str(s))) if n == b.len() => Some(Some(endpoints(s))),
                Some((_, Ben::Str(_))) => None,
                _ => Some(None),
            },
            Ref::Loose(_) => None,
            _ => Some(None),
        }
    };
    ctx.enumerate("short bodies", strings(letters.len() as u64, len), |i, c| {
        let b = string_at(&letters, i);
        c.text(format!("body {}", show(&b)));
        let r = Reply { framing: (i % 2) as usize * 2, ..Reply::ok(b.clone()) };
        let h = http_once(HTTP_URL, &hash, r, 0, c)?;
        match of_body(&b) {
            Some(Some(want)) => expect(&h, &want, c),
            Some(None) => refuse(&h, c),
            None => Ok(()),
        }
    });
    let bodies: Vec<Vec<u8>> = vec![
        b"".to_vec(),
        b"<html>no</html>".to_vec(),
        b"d14:failure reason7:bananase".to_vec(),
        b"d5:peersi6ee".to_vec(),
        b"d5:peersleled2:ip1:xee".to_vec(),
        b"d5:peerslee".to_vec(),
        b"d5:peersdee".to_vec(),
        b"d5:peers99999999999999999999:e".to_vec(),
        b"d5:peers18446744073709551615:e".to_vec(),
        b"d5:peers4294967296:e".to_vec(),
        b"d5:peers-6:abcdefe".to_vec(),
        b"de".to_vec(),
        b"5:peers".to_vec(),
        b"i1e".to_vec(),
        vec![b'l'; 100_000],
        vec![b'd'; 100_000],
        [&b"d1:"[..], &vec![0xff; 70000]].concat(),
        vec![0; 65536],
        vec![0xff; 3],
    ];
    ctx.enumerate("bad bodies", bodies.len() as u64 * 3, |i, c| {
        let d = digits(i, &[bodies.len(), 3]);
        c.text(format!("body {}", show(&bodies[d[0]])));
        let r = Reply { framing: d[1], ..Reply::ok(bodies[d[0]].clone()) };
        refuse(&http_once(HTTP_URL, &hash, r, 0, c)?, c)
    });
    ctx.enumerate("changed bodies", good.len() as u64 * 256, |i, c| {
        let mut b = good.clone();
        b[i as usize / 256] = i as u8;
        c.text(format!("body {}", show(&b)));
        let h = http_once(HTTP_URL, &hash, Reply::ok(b.clone()), 0, c)?;
        match of_body(&b) {
            Some(Some(want)) => expect(&h, &want, c),
            Some(None) => refuse(&h, c),
            None => Ok(()),
        }
    });
    // time: answers within 300 ms are taken; silence, drips and endless bodies end soon
    ctx.enumerate("slow answers", 12, |i, c| {
        let ms = [0u64, 1, 100, 200, 300, 5000, 60_000, 3_600_000, 86_400_000, 0, 0, 0][i as usize];
        c.text(format!("answer after {ms} ms ({i})"));
        let r = Reply { delay: ms, endless: i >= 9, framing: [0, 1, 2][i as usize % 3], ..Reply::ok(good.clone()) };
        let h = http_once(HTTP_URL, &hash, r, 0, c)?;
        if i <= 4 {
            expect(&h, &good_peers, c)
        } else {
            refuse(&h, c)
        }
    });
    ctx.enumerate("no connection", 2, |i, c| {
        c.text(["refused", "timed out"][i as usize]);
        let h = http_once(HTTP_URL, &hash, Reply::ok(good.clone()), 1 + i as usize, c)?;
        c.nontrivial(i);
        ensure!(!h.t.borrow().connects.is_empty(), "no connection was tried", "");
        refuse(&h, c)
    });
}

// -------------------------------------------------------------------------------------- kept (C33)

#[cfg(feature = "kept")]
pub fn kept(ctx: &mut Ctx) {
    use crate::kept::given_back;
    let hash: Vec<u8> = (0..20).map(|i| i * 13 + 5).collect();
    let radix = [MENU.len(), MENU.len(), MENU.len()];
    ctx.enumerate("exchanges with a UDP tracker", product(&radix), |i, c| {
        let d = digits(i, &radix);
        c.text(format!("connect {:?}, announces {:?} and {:?}", MENU[d[0]], MENU[d[1]], MENU[d[2]]));
        given_back(c, &mut || {
            let d = d.clone();
            let plan = move |phase: u32, k: usize| match (phase, k) {
                (0, 1) => MENU[d[0]],
                (1, 1) => MENU[d[1]],
                (1, 2) => MENU[d[2]],
                _ if d[2] % 2 == 0 => Right,
                _ => Lost,
            };
            let t = Rc::new(RefCell::new(UdpTracker::new(hash.clone(), 3, Box::new(plan))));
            let mut os = Os::new();
            os.udp = Some(Box::new(Tracked(t)));
            ask(UDP_URL, &hash, &mut os).map(drop)
        })
    });
    let (good, _) = body(3);
    let radix = [3usize, 400, 3, 4];
    ctx.enumerate("exchanges with an HTTP tracker", product(&radix), |i, c| {
        let d = digits(i, &radix);
        c.text(format!("connection {}, reply cut after {} bytes, framing {}, end {}", d[0], d[1], d[2], d[3]));
        if d[0] > 0 && i as usize / 3 > 0 || d[1] % 10 > 0 && d[3] == 3 {
            c.outcome("skipped");
            return Ok(());
        }
        given_back(c, &mut || {
            let reply = Reply { framing: d[2], cut: Some(d[1]), end: d[3], coding: d[1] % 4, endless: d[3] == 3, ..Reply::ok(good.clone()) };
            let t = Rc::new(RefCell::new(HttpTracker { reply, got: vec![], requests: vec![], connects: vec![], coded: false }));
            let mut os = Os::new();
            os.net = Some(Box::new(HttpNet { t, answer: d[0] }));
            ask(HTTP_URL, &hash, &mut os).map(drop)
        })
    });
}
