//! A torrent, models of its peers, and a monitor of what the client says to them.
use crate::util::*;
#[cfg(feature = "sessions")]
use rust_bit::verif::peer::manager;
use rust_bit::verif::torrent::Info;
use sim::explore;
use sim::os::*;
use sim::runner::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::net::SocketAddrV4;
use std::rc::Rc;

pub const BLOCK: u64 = 16384;

#[derive(Clone)]
pub struct Torrent {
    pub pl: u64,
    pub total: u64,
    pub content: Vec<u8>,
    /// Where in the torrent `content` begins (0 but for parts of very large torrents).
    pub from: usize,
    pub info: Vec<u8>,
    pub hash: Vec<u8>,
}

impl Torrent {
    /// Content of `total` bytes in one file; `meta`: size of the metadata in bytes (padded up to).
    pub fn new(seed: u64, pl: u64, total: u64, meta: usize) -> Torrent {
        let mut content = Vec::with_capacity(total as usize + 8);
        let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
        while (content.len() as u64) < total {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            content.extend_from_slice(&x.to_le_bytes());
        }
        content.truncate(total as usize);
        let pieces: Vec<u8> = content.chunks(pl as usize).flat_map(sha1).collect();
        let make = |pad: usize| {
            let mut d = vec![
                (b"length".to_vec(), Ben::Int(total)),
                (b"name".to_vec(), Ben::s(&format!("file{seed}"))),
                (b"piece length".to_vec(), Ben::Int(pl)),
                (b"pieces".to_vec(), Ben::Str(pieces.clone())),
            ];
            if pad > 0 {
                let body: Vec<u8> = (0..pad).map(|i| (i * 7 + i / 250) as u8).collect();
                d.push((b"x".to_vec(), Ben::Str(body)));
            }
            Ben::Dict(d).enc()
        };
        let mut info = make(0);
        if info.len() < meta {
            let mut pad = meta - info.len();
            loop {
                let b = make(pad);
                if b.len() <= meta {
                    info = b;
                    break;
                }
                pad -= 1;
            }
        }
        let hash = sha1(&info);
        Torrent { pl, total, content, from: 0, info, hash }
    }
    /// A torrent too large to be held, of which only piece `k` is known.
    pub fn part(seed: u64, pl: u64, total: u64, k: usize) -> Torrent {
        let from = k * pl as usize;
        let content = Torrent::new(seed, pl, pl.min(total - from as u64), 0).content;
        let mut pieces: Vec<u8> = (0..total.div_ceil(pl) as u32).flat_map(|i| [i.to_be_bytes(), (!i).to_le_bytes(), [7; 4], [1; 4], [9; 4]].concat()).collect();
        pieces[20 * k..20 * k + 20].copy_from_slice(&sha1(&content));
        let info = Ben::Dict(vec![
            (b"length".to_vec(), Ben::Int(total)),
            (b"name".to_vec(), Ben::s("large")),
            (b"piece length".to_vec(), Ben::Int(pl)),
            (b"pieces".to_vec(), Ben::Str(pieces)),
        ])
        .enc();
        let hash = sha1(&info);
        Torrent { pl, total, content, from, info, hash }
    }
    pub fn count(&self) -> usize {
        self.total.div_ceil(self.pl) as usize
    }
    pub fn piece(&self, i: usize) -> &[u8] {
        let a = i * self.pl as usize;
        let b = (a + self.pl as usize).min(self.total as usize);
        if a < self.from || b > self.from + self.content.len() {
            return &[];
        }
        &self.content[a - self.from..b - self.from]
    }
    pub fn block(&self, i: u32, begin: u32, len: u32) -> Option<&[u8]> {
        if i as usize >= self.count() {
            return None;
        }
        self.piece(i as usize).get(begin as usize..(begin as usize).checked_add(len as usize)?)
    }
    /// Puts another hash for a piece in the list.
    pub fn set_hash(&mut self, k: usize, hash: &[u8]) {
        let old = sha1(self.piece(k));
        let at = self.info.windows(20).position(|w| w == old).unwrap();
        self.info[at..at + 20].copy_from_slice(hash);
        self.hash = sha1(&self.info);
    }
    pub fn parsed(&self) -> Info {
        match cut(|| Info::from_bytes(self.info.clone()).map_err(|e| e.to_string())) {
            Ok(Ok(i)) => i,
            // other checks are about this; these ones need usable metadata
            Ok(Err(e)) => die_violation("valid metadata refused", &e),
            Err(p) => die_violation("valid metadata refused", &p.msg),
        }
    }
    pub fn meta_block(&self, i: usize) -> Option<&[u8]> {
        let a = i.checked_mul(BLOCK as usize)?;
        if a >= self.info.len() {
            return None;
        }
        Some(&self.info[a..(a + BLOCK as usize).min(self.info.len())])
    }
}

pub fn frame(id: u8, body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32 + 1).to_be_bytes().to_vec();
    v.push(id);
    v.extend_from_slice(body);
    v
}

pub fn handshake(hash: &[u8]) -> Vec<u8> {
    let mut v = b"\x13BitTorrent protocol\0\0\0\0\0\x10\0\x05".to_vec();
    v.extend_from_slice(hash);
    v.extend_from_slice(b"-XX0100-abcdefghijkl");
    v
}

pub fn ext(ext_id: u8, dict: &Ben, data: &[u8]) -> Vec<u8> {
    let mut b = vec![ext_id];
    b.extend(dict.enc());
    b.extend_from_slice(data);
    frame(20, &b)
}

pub fn ext_handshake(ut_metadata: u64, size: u64, variant: usize) -> Vec<u8> {
    let mut m = vec![(b"ut_metadata".to_vec(), Ben::Int(ut_metadata))];
    let mut d = vec![(b"metadata_size".to_vec(), Ben::Int(size))];
    match variant {
        1 => {
            m.push((b"ut_pex".to_vec(), Ben::Int(1)));
            d.push((b"v".to_vec(), Ben::s("\u{b5}Torrent 3.5")));
            d.push((b"yourip".to_vec(), Ben::Str(vec![127, 0, 0, 1])));
            d.push((b"reqq".to_vec(), Ben::Int(255)));
        }
        2 => {
            m.push((b"lt_donthave".to_vec(), Ben::Int(7)));
            m.push((b"upload_only".to_vec(), Ben::Int(0)));
            d.push((b"p".to_vec(), Ben::Int(6881)));
            d.push((b"ipv6".to_vec(), Ben::Str(vec![0xfe; 16])));
            d.push((b"complete_ago".to_vec(), Ben::Neg(1)));
        }
        3 => {
            d.push((b"e".to_vec(), Ben::Int(0)));
            d.push((b"yourip".to_vec(), Ben::Str(vec![0xff, 0xc0, 0x80, 0])));
        }
        // names that look alike
        4 => {
            for (k, n) in ["ut_metadat", "ut_metadata2", "Ut_metadata", "xut_metadata", "metadata_size", "m"].iter().enumerate() {
                m.push((n.as_bytes().to_vec(), Ben::Int(90 + k as u64)));
            }
            for n in ["metadata_siz", "metadata_size2", "ut_metadata", "mm"] {
                d.push((n.as_bytes().to_vec(), Ben::Int(77)));
            }
        }
        // much of everything
        5 => {
            for k in 0..120u64 {
                m.push((format!("x{k}").into_bytes(), Ben::Int(100 + k)));
                d.push((format!("y{k}").into_bytes(), Ben::List(vec![Ben::Int(k), Ben::Dict(vec![(b"m".to_vec(), Ben::Dict(vec![]))]), Ben::s("ut_metadata")])));
            }
        }
        _ => {}
    }
    m.sort();
    d.push((b"m".to_vec(), Ben::Dict(m)));
    d.sort();
    ext(0, &Ben::Dict(d), &[])
}

pub fn meta_data(ext_id: u8, piece: u64, total: u64, data: &[u8]) -> Vec<u8> {
    let d = Ben::Dict(vec![
        (b"msg_type".to_vec(), Ben::Int(1)),
        (b"piece".to_vec(), Ben::Int(piece)),
        (b"total_size".to_vec(), Ben::Int(total)),
    ]);
    ext(ext_id, &d, data)
}

pub fn piece_msg(i: u32, begin: u32, data: &[u8]) -> Vec<u8> {
    let mut b = i.to_be_bytes().to_vec();
    b.extend(begin.to_be_bytes());
    b.extend_from_slice(data);
    frame(7, &b)
}

/// What the client said, as understood by an independent reading of the protocol.
#[derive(Clone, Debug, PartialEq)]
pub enum Said {
    Handshake { hash: Vec<u8>, ext_bit: bool, id: Vec<u8> },
    KeepAlive,
    Interested,
    ExtHandshake { ut_metadata: Option<u64> },
    Request(u32, u32, u32),
    MetaRequest { ext_id: u8, piece: u64 },
    OtherExt(u8),
    Other(u8, usize),
}

#[derive(Default)]
pub struct Monitor {
    rx: Vec<u8>,
    started: bool,
    pub said: Vec<Said>,
    pub bad: Option<Fail>,
    /// Every piece and metadata request came when it was allowed.
    pub closed: bool,
}

impl Monitor {
    fn bad(&mut self, sig: &str, msg: String) {
        if self.bad.is_none() {
            self.bad = Some(Fail { sig: sig.into(), msg });
        }
    }

    pub fn verdict(&self) -> Result<(), Fail> {
        match &self.bad {
            Some(f) => fail(f.sig.clone(), f.msg.clone()),
            None => Ok(()),
        }
    }

    /// The stream ended; were there leftovers?
    pub fn leftover(&self) -> usize {
        self.rx.len()
    }

    /// Feeds bytes; returns the complete messages found in them.
    pub fn feed(&mut self, bytes: &[u8]) -> Vec<Said> {
        self.rx.extend_from_slice(bytes);
        let mut out = vec![];
        loop {
            if !self.started {
                if self.rx.len() < 68 {
                    if !self.rx.is_empty() && !b"\x13BitTorrent protocol".starts_with(&self.rx[..self.rx.len().min(20)]) {
                        self.bad("stream does not start with a handshake", sim::show(&self.rx));
                    }
                    break;
                }
                let h: Vec<u8> = self.rx.drain(..68).collect();
                if &h[..20] != b"\x13BitTorrent protocol" {
                    self.bad("stream does not start with a handshake", sim::show(&h));
                }
                self.started = true;
                out.push(Said::Handshake { hash: h[28..48].to_vec(), ext_bit: h[25] & 0x10 != 0, id: h[48..].to_vec() });
                continue;
            }
            if self.rx.len() < 4 {
                break;
            }
            let n = u32::from_be_bytes(self.rx[..4].try_into().unwrap()) as usize;
            if n > 1 << 20 {
                self.bad("malformed message", format!("length {n}"));
                self.rx.clear();
                break;
            }
            if self.rx.len() < 4 + n {
                break;
            }
            let f: Vec<u8> = self.rx.drain(..4 + n).skip(4).collect();
            let s = match f.first() {
                None => Said::KeepAlive,
                Some(2) if n == 1 => Said::Interested,
                Some(6) if n == 13 => {
                    let w = |k: usize| u32::from_be_bytes(f[k..k + 4].try_into().unwrap());
                    Said::Request(w(1), w(5), w(9))
                }
                Some(0 | 1 | 3) if n == 1 => Said::Other(f[0], n),
                Some(4) if n == 5 => Said::Other(4, n),
                Some(8) if n == 13 => Said::Other(8, n),
                Some(5) => Said::Other(5, n),
                Some(9) if n == 3 => Said::Other(9, n),
                Some(20) if n >= 2 => self.extension(&f[1..]),
                Some(id) => {
                    self.bad("malformed message", format!("id {id}, {n} bytes: {}", sim::show(&f)));
                    Said::Other(*id, n)
                }
            };
            out.push(s);
        }
        self.said.extend(out.iter().cloned());
        out
    }

    fn extension(&mut self, f: &[u8]) -> Said {
        let dict = match ref_decode(&f[1..]) {
            Ref::Good(Ben::Dict(d), n) if n == f.len() - 1 => d,
            _ => {
                self.bad("malformed extension message", sim::show(f));
                return Said::OtherExt(f[0]);
            }
        };
        let get = |k: &str| dict.iter().find(|(q, _)| q == k.as_bytes()).map(|x| &x.1);
        if f[0] == 0 {
            let ut = match get("m") {
                Some(Ben::Dict(m)) => m.iter().find(|(k, _)| k == b"ut_metadata").and_then(|(_, v)| match v {
                    Ben::Int(i) => Some(*i),
                    _ => None,
                }),
                _ => {
                    self.bad("extension handshake without the extensions", sim::show(f));
                    None
                }
            };
            return Said::ExtHandshake { ut_metadata: ut };
        }
        match (get("msg_type"), get("piece")) {
            (Some(Ben::Int(0)), Some(Ben::Int(p))) => Said::MetaRequest { ext_id: f[0], piece: *p },
            _ => Said::OtherExt(f[0]),
        }
    }
}

/// Where a model takes its decisions from.
pub enum Source {
    Explore,
    Fixed(VecDeque<u16>),
}

impl Source {
    fn pick(&mut self, n: usize) -> usize {
        match self {
            Source::Explore => explore::choose(n),
            Source::Fixed(q) if n > 1 => q.pop_front().unwrap_or(0) as usize,
            Source::Fixed(_) => 0,
        }
    }
}

#[derive(Clone)]
pub struct Conduct {
    pub ut_metadata: u8,
    /// Fixed quirk used by all answers (0: none); the explorer may add others.
    pub noise: usize,
    pub delay_ms: u64,
    /// How long it takes to accept the connection.
    pub connect_ms: u64,
    pub cuts: Vec<(usize, u64)>,
    /// Let the explorer decide delays, noise and order.
    pub explore: bool,
    pub variant: usize,
    /// Chokes the client after its answer to the n-th message (0: never), and unchokes it so many ms
    /// later (0: never).
    pub choke: (usize, u64),
    /// What the system calls do.
    pub hiccups: Vec<(u64, Hiccup)>,
}

impl Default for Conduct {
    fn default() -> Self {
        Conduct { ut_metadata: 3, noise: 0, delay_ms: 0, connect_ms: 0, cuts: vec![], explore: false, variant: 0, choke: (0, 0), hiccups: vec![] }
    }
}

pub const DELAYS: [u64; 5] = [0, 60, 110, 250, 490];
pub const NOISE: usize = 15;
/// Including what only comes as steady conduct.
pub const ALL_NOISE: usize = 26;
/// Ways to write the extension handshake.
pub const SHAKES: usize = 6;

/// What a peer says instead of the truth.
pub struct Lie {
    /// Metadata size to announce.
    pub size: u64,
    /// Payloads sent for the n-th data request.
    pub blocks: Vec<Vec<Vec<u8>>>,
}

/// A peer that follows the protocol and has everything.
pub struct Legal {
    pub lie: Option<Lie>,
    /// Payloads sent so far.
    pub told: Vec<Vec<u8>>,
    pub t: Rc<Torrent>,
    pub mon: Rc<RefCell<Monitor>>,
    pub how: Conduct,
    pub src: Source,
    /// Some(i): the client is to fetch this piece; None: the metadata.
    pub goal: Option<usize>,
    ext_sent: bool,
    /// The id the extension handshake gave before a later one changed it.
    old_id: Option<u8>,
    ext_when: usize,
    unchoke_when: usize,
    unchoked_at: Option<u64>,
    /// From when to when the client is choked again.
    choked: Option<(u64, u64)>,
    saw: usize,
    requested: Vec<(u32, u32, u32)>,
    meta_requested: Vec<u64>,
}

impl Legal {
    pub fn new(t: Rc<Torrent>, mon: Rc<RefCell<Monitor>>, how: Conduct, src: Source, goal: Option<usize>) -> Legal {
        Legal {
            lie: None,
            told: vec![],
            t,
            mon,
            how,
            src,
            goal,
            ext_sent: false,
            old_id: None,
            ext_when: 0,
            unchoke_when: 0,
            unchoked_at: None,
            choked: None,
            saw: 0,
            requested: vec![],
            meta_requested: vec![],
        }
    }

    fn pick(&mut self, n: usize) -> usize {
        if self.how.explore {
            self.src.pick(n)
        } else {
            0
        }
    }

    fn meta_size(&self) -> u64 {
        self.lie.as_ref().map(|l| l.size).unwrap_or(self.t.info.len() as u64)
    }

    /// Payloads of the next answer to a data request.
    fn payloads(&mut self, truth: Option<Vec<u8>>) -> Vec<Vec<u8>> {
        let p = match self.lie.as_mut() {
            Some(l) if l.blocks.is_empty() => vec![],
            Some(l) => l.blocks.remove(0),
            None => truth.into_iter().collect(),
        };
        self.told.extend(p.iter().cloned());
        p
    }

    fn delay(&mut self) -> u64 {
        let k = self.pick(DELAYS.len());
        let d = if k > 0 { DELAYS[k] } else { self.how.delay_ms };
        d * MS
    }

    fn noise_bytes(&mut self, k: usize) -> Vec<u8> {
        let have = |i: u32| frame(4, &i.to_be_bytes());
        let n = self.t.count() as u32;
        match k {
            1 => vec![0; 4],
            2 => have(0),
            3 => (0..n.min(3)).flat_map(have).collect(),
            4 => {
                // peer exchange, sent to the id this client gave it
                let d = Ben::Dict(vec![(b"added".to_vec(), Ben::Str(vec![10, 0, 0, 1, 0x1a, 0xe1])), (b"added.f".to_vec(), Ben::Str(vec![1])), (b"dropped".to_vec(), Ben::Str(vec![]))]);
                ext(2, &d, &[])
            }
            5 if self.unchoked_at.is_some() => frame(1, &[]),
            6 if self.ext_sent => ext_handshake(self.how.ut_metadata as u64, self.meta_size(), 1),
            7 => frame(9, &6881u16.to_be_bytes()),
            8 => vec![0; 4 * 30],
            9 => (0..40).flat_map(|i| have(i % n)).collect(),
            10 => [frame(2, &[]), frame(3, &[])].concat(),
            11 => [vec![0; 4], have(0), vec![0; 8], have(n - 1)].concat(),
            12 if self.unchoked_at.is_some() => frame(1, &[]).repeat(12),
            // an update of the extension handshake need not repeat everything
            13 if self.ext_sent => ext(0, &Ben::Dict(vec![(b"m".to_vec(), Ben::Dict(vec![])), (b"upload_only".to_vec(), Ben::Int(1))]), &[]),
            // the extension handshake may come again with other ids
            14 if self.ext_sent && self.old_id.is_none() => {
                self.old_id = Some(self.how.ut_metadata);
                self.how.ut_metadata = if self.how.ut_metadata == 200 { 1 } else { 200 };
                ext_handshake(self.how.ut_metadata as u64, self.meta_size(), 0)
            }
            // only when it is the steady conduct: a lot of it
            15 => (0..3000).flat_map(|i| have(i % n)).collect(),
            16 => vec![0; 4 * 5000],
            17 if self.unchoked_at.is_some() => frame(1, &[]).repeat(1500),
            18 => [frame(2, &[]), frame(3, &[])].concat().repeat(1000),
            19 => self.noise_bytes(4).repeat(400),
            20 if self.ext_sent => self.noise_bytes(6).repeat(300),
            21 => (1..15).filter(|k| *k != 14).flat_map(|k| self.noise_bytes(k)).collect(),
            // choked from the start, and says so
            22 if self.unchoked_at.is_none() => frame(0, &[]),
            // only what has changed: nothing, another extension's id, or our id alone
            23 if self.ext_sent => ext(0, &Ben::Dict(vec![(b"complete_ago".to_vec(), Ben::Neg(1)), (b"metadata_size".to_vec(), Ben::Int(self.meta_size()))]), &[]),
            24 if self.ext_sent => {
                let m = Ben::Dict(vec![(b"ut_pex".to_vec(), Ben::Int(0))]);
                ext(0, &Ben::Dict(vec![(b"m".to_vec(), m), (b"metadata_size".to_vec(), Ben::Int(self.meta_size()))]), &[])
            }
            25 if self.ext_sent && self.old_id.is_none() => {
                self.old_id = Some(self.how.ut_metadata);
                self.how.ut_metadata = if self.how.ut_metadata == 200 { 1 } else { 200 };
                let m = Ben::Dict(vec![(b"ut_metadata".to_vec(), Ben::Int(self.how.ut_metadata as u64))]);
                ext(0, &Ben::Dict(vec![(b"m".to_vec(), m)]), &[])
            }
            _ => vec![],
        }
    }

    fn noise(&mut self, w: &mut Wire) {
        let k = self.pick(NOISE);
        let k = if k > 0 { k } else { self.how.noise };
        let b = self.noise_bytes(k);
        w.send(&b);
    }

    fn send_ext(&mut self, w: &mut Wire, delay: u64) {
        if self.ext_sent {
            return;
        }
        let v = self.pick(SHAKES);
        let v = if v > 0 { v } else { self.how.variant };
        w.send_after(delay, &ext_handshake(self.how.ut_metadata as u64, self.meta_size(), v));
        self.ext_sent = true;
    }

    fn unchoke(&mut self, w: &mut Wire, delay: u64) {
        if self.unchoked_at.is_none() {
            w.send_after(delay, &frame(1, &[]));
            self.unchoked_at = Some(w.arrival());
            self.choked = None;
        }
    }

    fn complain(&self, sig: &str, msg: String) {
        self.mon.borrow_mut().bad(sig, msg);
    }

    fn answer(&mut self, s: Said, w: &mut Wire) {
        self.saw += 1;
        let n = self.saw;
        match s {
            Said::Handshake { hash, ext_bit, id } => {
                if hash != self.t.hash {
                    self.complain("handshake for another torrent", sim::show(&hash));
                    w.close();
                    return;
                }
                if !ext_bit {
                    self.complain("handshake without the extension bit", String::new());
                }
                if id.iter().any(|c| !(0x20..0x7f).contains(c)) {
                    self.complain("peer id is not 20 characters", sim::show(&id));
                }
                let d = self.delay();
                w.send_after(d, &handshake(&self.t.hash));
                let bits = self.t.count();
                if self.pick(2) == 0 {
                    let mut bf = vec![0xffu8; bits.div_ceil(8)];
                    if bits % 8 > 0 {
                        *bf.last_mut().unwrap() = 0xffu8 << (8 - bits % 8);
                    }
                    w.send(&frame(5, &bf));
                }
                self.ext_when = self.pick(3);
                self.unchoke_when = self.pick(3);
                if self.unchoke_when == 1 {
                    self.unchoke(w, 0);
                }
                if self.ext_when == 0 {
                    let d = self.delay();
                    self.send_ext(w, d);
                }
                if self.unchoke_when == 2 {
                    self.unchoke(w, 0);
                }
                self.noise(w);
            }
            Said::Interested => {
                if n != 2 && n != 3 {
                    self.complain("interested out of place", format!("message {n}"));
                }
                self.noise(w);
                if self.ext_when == 1 {
                    self.send_ext(w, 0);
                }
                let d = self.delay();
                self.unchoke(w, d);
            }
            Said::ExtHandshake { ut_metadata } => {
                if n != 2 && n != 3 {
                    self.complain("extension handshake out of place", format!("message {n}"));
                }
                if ut_metadata.is_none() || ut_metadata == Some(0) {
                    self.complain("extension handshake without ut_metadata", String::new());
                }
                self.noise(w);
                let d = self.delay();
                self.send_ext(w, d);
            }
            Said::Request(i, begin, len) => {
                match self.unchoked_at {
                    Some(at) if at <= w.now => {}
                    _ => self.complain("block requested while choked", format!("request {i} {begin} {len}")),
                }
                // (a client that has not read the choke yet may still ask)
                if self.choked.is_some_and(|(at, until)| at <= w.now && w.now < until) && w.unread == 0 {
                    self.complain("block requested while choked", format!("request {i} {begin} {len} after a choke"));
                }
                if Some(i as usize) != self.goal {
                    self.complain("request for another piece", format!("{i} instead of {:?}", self.goal));
                }
                if len == 0 || len as u64 > BLOCK {
                    self.complain("block request of a wrong size", format!("request {i} {begin} {len}"));
                }
                if self.requested.iter().any(|(_, b, l)| begin < b + l && *b < begin.saturating_add(len)) {
                    self.complain("block requested twice", format!("request {i} {begin} {len} after {:?}", self.requested));
                }
                self.requested.push((i, begin, len));
                let t = self.t.clone();
                let b = t.block(i, begin, len).map(|b| b.to_vec());
                if b.is_none() {
                    self.complain("block request outside the piece", format!("request {i} {begin} {len}, piece length {}, total {}", t.pl, t.total));
                }
                let b = self.payloads(b);
                self.noise(w);
                let d = self.delay();
                for b in b {
                    w.send_after(d, &piece_msg(i, begin, &b));
                }
                self.noise(w);
            }
            Said::MetaRequest { ext_id, piece } => {
                // (a client that has not read the change yet may still use the former id)
                let outdated = Some(ext_id) == self.old_id && w.unread > 0;
                if (ext_id != self.how.ut_metadata && !outdated) || !self.ext_sent {
                    self.complain("metadata request with a wrong extension id", format!("{ext_id} instead of {}", self.how.ut_metadata));
                    return;
                }
                if self.meta_requested.contains(&piece) {
                    self.complain("metadata block requested twice", format!("{piece}"));
                }
                self.meta_requested.push(piece);
                let t = self.t.clone();
                let b = t.meta_block(piece as usize).map(|b| b.to_vec());
                if b.is_none() {
                    self.complain("metadata request for a block there is not", format!("{piece} of {} bytes", t.info.len()));
                }
                let b = self.payloads(b);
                if self.goal.is_some() {
                    self.complain("metadata requested while fetching a piece", format!("{piece}"));
                }
                self.noise(w);
                let d = self.delay();
                let size = self.meta_size();
                for b in b {
                    w.send_after(d, &meta_data(1, piece, size, &b));
                }
                self.noise(w);
            }
            _ => {}
        }
    }

    /// After a successful fetch: everything was asked for, exactly once.
    pub fn complete(&self) -> Result<(), Fail> {
        match self.goal {
            Some(i) => {
                let mut r = self.requested.clone();
                r.sort_by_key(|x| x.1);
                let mut at = 0u64;
                for (_, b, l) in &r {
                    if *b as u64 != at {
                        break;
                    }
                    at += *l as u64;
                }
                if at != self.t.piece(i).len() as u64 {
                    return fail("piece not fully requested", format!("{r:?}"));
                }
            }
            None => {
                if self.meta_requested.len() as u64 != (self.t.info.len() as u64).div_ceil(BLOCK) {
                    return fail("metadata not fully requested", format!("{:?}", self.meta_requested));
                }
            }
        }
        Ok(())
    }
}

impl Peer for Legal {
    fn on_open(&mut self, w: &mut Wire) {
        w.cuts = self.how.cuts.clone();
    }
    fn on_data(&mut self, bytes: &[u8], w: &mut Wire) {
        let said = self.mon.borrow_mut().feed(bytes);
        for s in said {
            self.answer(s, w);
            if self.saw == self.how.choke.0 && self.choked.is_none() && self.saw > 0 {
                w.send(&frame(0, &[]));
                let at = w.arrival();
                let mut until = u64::MAX;
                if self.how.choke.1 > 0 {
                    w.send_after(self.how.choke.1 * MS, &frame(1, &[]));
                    until = w.arrival();
                }
                self.choked = Some((at, until));
                if self.unchoked_at.is_none() {
                    // (choked all along)
                    self.unchoked_at = (until < u64::MAX).then_some(until);
                }
            }
        }
    }
    fn on_client_close(&mut self) {
        self.mon.borrow_mut().closed = true;
    }
}

/// A handle of a peer model that the checker keeps while the connection owns another.
pub struct Shared<P>(pub Rc<RefCell<P>>);

impl<P: Peer> Peer for Shared<P> {
    fn on_open(&mut self, w: &mut Wire) {
        self.0.borrow_mut().on_open(w)
    }
    fn on_data(&mut self, b: &[u8], w: &mut Wire) {
        self.0.borrow_mut().on_data(b, w)
    }
    fn on_wait(&mut self, w: &mut Wire) {
        self.0.borrow_mut().on_wait(w)
    }
    fn on_client_close(&mut self) {
        self.0.borrow_mut().on_client_close()
    }
}

/// One endpoint that accepts connections, each answered by a fresh model.
pub struct OnePeer(pub Box<dyn FnMut(u64) -> Connect>);

impl Net for OnePeer {
    fn connect(&mut self, addr: SocketAddrV4, now: u64) -> Connect {
        if addr.to_string() != ENDPOINT {
            return Connect::Refused;
        }
        (self.0)(now)
    }
}

pub const ENDPOINT: &str = "10.1.2.3:6881";

pub enum Got {
    Info(Info),
    Piece(Vec<u8>),
    Nothing(String),
}

/// Fetches the metadata or a piece from the endpoint.
#[cfg(feature = "sessions")]
pub fn fetch(endpoint: &str, t: &Torrent, info: Option<&Info>, goal: Option<usize>) -> Got {
    match goal {
        None => match manager::get_info(&t.hash, endpoint) {
            Ok(i) => Got::Info(i),
            Err(e) => Got::Nothing(format!("{e:?}")),
        },
        Some(k) => match manager::download(endpoint.to_string(), &t.hash, info.unwrap(), k) {
            Ok(d) => Got::Piece(d),
            Err(e) => Got::Nothing(format!("{e:?}")),
        },
    }
}

pub struct Outcome {
    pub got: Got,
    pub took: u64,
    pub calls: u64,
}

/// Runs one fetch against one model under the simulated environment.
#[cfg(feature = "sessions")]
pub fn run(t: &Torrent, info: Option<&Info>, goal: Option<usize>, peer: Box<dyn Peer>, limit: u64) -> Result<Outcome, Fail> {
    run_after(0, vec![], t, info, goal, peer, limit)
}

/// The same with a peer that takes its time to accept the connection.
#[cfg(feature = "sessions")]
pub fn run_after(after: u64, hiccups: Vec<(u64, Hiccup)>, t: &Torrent, info: Option<&Info>, goal: Option<usize>, peer: Box<dyn Peer>, limit: u64) -> Result<Outcome, Fail> {
    let mut peer = Some(peer);
    let mut os = Os::new();
    os.time_limit = os.now + limit;
    os.call_limit = 20_000_000;
    os.hiccups = hiccups;
    os.net = Some(Box::new(OnePeer(Box::new(move |_| match peer.take() {
        Some(p) => Connect::Slow(after, p),
        None => Connect::Refused,
    }))));
    let start = os.now;
    let got = with_os(&mut os, || cut(|| fetch(ENDPOINT, t, info, goal))).map_err(|p| p.fail())?;
    Ok(Outcome { got, took: os.now - start, calls: os.calls })
}

/// Carries a peer model over a real loopback connection.
pub fn serve_real(listener: std::net::TcpListener, peer: impl Peer + 'static) {
    let (s, _) = listener.accept().unwrap();
    serve_stream(s, Box::new(peer), &|| false)
}

/// The same over a connection that was accepted; until `stop`.
pub fn serve_stream(mut s: std::net::TcpStream, mut peer: Box<dyn Peer>, stop: &dyn Fn() -> bool) {
    use std::io::{Read, Write};
    let start = std::time::Instant::now();
    let now = || start.elapsed().as_nanos() as u64;
    let mut w = Wire::default();
    w.unread = 1;
    s.set_nodelay(true).unwrap();
    s.set_read_timeout(Some(std::time::Duration::from_millis(2))).unwrap();
    let mut queue: VecDeque<(u64, Vec<u8>)> = VecDeque::new();
    peer.on_open(&mut w);
    let mut buf = [0u8; 65536];
    loop {
        let (segs, end) = w.drain();
        queue.extend(segs);
        while queue.front().map(|q| q.0 <= now()).unwrap_or(false) {
            let (_, b) = queue.pop_front().unwrap();
            if s.write_all(&b).is_err() {
                return;
            }
        }
        if let Some((at, _)) = end {
            if queue.is_empty() && at <= now() {
                return;
            }
        }
        match s.read(&mut buf) {
            Ok(0) => {
                peer.on_client_close();
                return;
            }
            Ok(n) => {
                w.now = now();
                peer.on_data(&buf[..n], &mut w)
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {}
            Err(_) => return,
        }
        if now() > 60 * SEC || stop() {
            return;
        }
    }
}
