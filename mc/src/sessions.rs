//! Sessions with one peer: C06 to C11 and C13. The client's code is real; its sockets and clock are
//! simulated, the peer is a model.
use crate::swarm::*;
use crate::util::*;
use rust_bit::verif::peer::stream::{read_stream, StreamInterface};
use rust_bit::verif::torrent::Info;
use sim::os::*;
use sim::runner::*;
use sim::{ensure, fnv, show};
use std::cell::RefCell;
use std::rc::Rc;

pub fn specs() -> Vec<Spec> {
    let s = |id, rule, run| Spec {
        id,
        level: "exploration",
        rule,
        assumptions: &["the simulated TCP layer behaves like Linux's (cross-checked by runs over real loopback sockets)"],
        run,
    };
    vec![
        s("C06", "metadata fetches from a peer that serves every single alteration of the metadata (every byte, every truncation, padding, block swaps, repeats, splits, other torrents', wrong sizes) and all bounded histories of a lying peer; accepted only if blocks with exactly the true bytes were served, and then with the true facts; non-trivial: what was served differs from the truth", lying_metadata),
        s("C07", "piece downloads from a peer that serves every single alteration of the piece (every byte, lengths, swaps, repeats, other pieces) and all bounded histories of a lying peer, for first, middle and last pieces; any data returned must be the true piece; non-trivial: what was served differs from the truth", lying_pieces),
        s("C08", "metadata and pieces of boundary sizes fetched from a conforming peer: every split offset, pairs of offsets, byte-wise delivery, and every choice of delays, orders and interleaved legal messages with a bounded number of deviations; must yield the true data; a sample is repeated over real loopback sockets; non-trivial: the peer's stream was split or something deviates from the plainest conduct", correct_peer),
        s("C09", "all boundary torrent sizes and piece lengths, every piece index, extension ids, and every bounded choice of legal conduct; all bytes the client sends are parsed by an independent protocol monitor; non-trivial: at least one data request was made", requests),
        s("C10", "all hostile frame sequences of a menu up to a depth from three starting points, every truncation of a good session, endless chatter of every kind, refused and silent connections; must end in bounded virtual time without a panic and within a memory bound; non-trivial: the peer deviates from the protocol", hostile),
        s("C11", "all single-byte alterations and truncations of the peer's handshake and all bounded histories around it; first bytes sent for all info hash bytes; nothing may be requested without a matching handshake; non-trivial: no matching handshake was sent first", handshakes),
        s("C13", "all sequences of frames of a menu up to a length, with every single split position, pairs of split positions, delays, byte-wise delivery and every truncation; the messages read must be exactly those sent; non-trivial: the stream was split inside a frame or truncated", segmentation),
    ]
}

/// A named torrent together with what to fetch from it.
struct Scene {
    name: &'static str,
    t: Rc<Torrent>,
    info: Info,
    goal: Option<usize>,
}

fn scene(name: &'static str, t: Torrent, goal: Option<usize>) -> Scene {
    let info = t.parsed();
    Scene { name, t: Rc::new(t), info, goal }
}

fn tiny() -> Torrent {
    Torrent::new(7, 20, 50, 0)
}

fn two_blocks() -> Torrent {
    Torrent::new(9, 20000, 50000, 0)
}

fn long_meta(n: usize) -> Torrent {
    Torrent::new(11, 100, 300, n)
}

fn scenes() -> Vec<Scene> {
    vec![
        scene("small metadata", tiny(), None),
        scene("small piece", tiny(), Some(0)),
        scene("last small piece", tiny(), Some(2)),
        scene("metadata of 2 blocks", long_meta(16500), None),
        scene("piece of 2 blocks", two_blocks(), Some(1)),
        scene("last piece of 1 block", two_blocks(), Some(2)),
    ]
}

fn facts_equal(i: &Info, t: &Torrent) -> Result<bool, Fail> {
    let truth = t.parsed();
    cut(|| {
        i.get_total_length() == truth.get_total_length()
            && i.get_piece_length() == truth.get_piece_length()
            && (0..t.count()).all(|k| i.get_piece(k) == truth.get_piece(k))
            && format!("{:?}", i.get_files().map(|f| f.iter().map(|x| (x.get_path(), x.get_length())).collect::<Vec<_>>()).ok())
                == format!("{:?}", truth.get_files().map(|f| f.iter().map(|x| (x.get_path(), x.get_length())).collect::<Vec<_>>()).ok())
    })
    .map_err(|p| p.fail())
}

/// Is the fetched data the truth? None: nothing was fetched.
fn right(got: &Got, t: &Torrent, goal: Option<usize>) -> Result<Option<bool>, Fail> {
    Ok(match got {
        Got::Info(i) => Some(facts_equal(i, t)?),
        Got::Piece(d) => Some(d == t.piece(goal.unwrap())),
        Got::Nothing(_) => None,
    })
}

// ------------------------------------------------------------------------------ conforming peers

struct LegalRun {
    out: Outcome,
    peer: Rc<RefCell<Legal>>,
    mon: Rc<RefCell<Monitor>>,
}

fn legal(s: &Scene, how: Conduct, src: Source) -> Result<LegalRun, Fail> {
    let mon = Rc::new(RefCell::new(Monitor::default()));
    let after = how.connect_ms * MS;
    let hiccups = how.hiccups.clone();
    let peer = Rc::new(RefCell::new(Legal::new(s.t.clone(), mon.clone(), how, src, s.goal)));
    let out = run_after(after, hiccups, &s.t, Some(&s.info), s.goal, Box::new(Shared(peer.clone())), 3600 * SEC)?;
    Ok(LegalRun { out, peer, mon })
}

#[derive(Clone, Copy, PartialEq)]
enum Judge {
    /// C08: the truth must arrive.
    Data,
    /// C09: the requests must be right.
    Requests,
}

fn judge(j: Judge, s: &Scene, r: &LegalRun, c: &mut Case) -> Result<(), Fail> {
    c.steps(r.out.calls);
    let mon = r.mon.borrow();
    c.state(fnv(format!("{} {:?}", s.name, mon.said).as_bytes()));
    match j {
        Judge::Data => match right(&r.out.got, &s.t, s.goal)? {
            Some(true) => {
                c.outcome("true data");
                Ok(())
            }
            Some(false) => fail("wrong data accepted", ""),
            None => match &r.out.got {
                Got::Nothing(e) => fail("nothing fetched from a correct peer", e.clone()),
                _ => unreachable!(),
            },
        },
        Judge::Requests => {
            mon.verdict()?;
            if mon.said.iter().any(|m| matches!(m, Said::Request(..) | Said::MetaRequest { .. })) {
                c.nontrivial(fnv(format!("{:?}", mon.said).as_bytes()));
            }
            if let Got::Nothing(e) = &r.out.got {
                c.outcome(format!("nothing fetched: {e}"));
                return Ok(());
            }
            ensure!(mon.leftover() == 0, "malformed message", "{} bytes of an unfinished message", mon.leftover());
            // the first three messages, in the stated order
            ensure!(matches!(mon.said.first(), Some(Said::Handshake { .. })), "stream does not start with a handshake", "{:?}", mon.said);
            ensure!(mon.said.contains(&Said::Interested), "never interested", "{:?}", mon.said);
            ensure!(mon.said.iter().any(|m| matches!(m, Said::ExtHandshake { .. })), "no extension handshake", "{:?}", mon.said);
            r.peer.borrow().complete()?;
            c.outcome("complete, well-formed requests");
            Ok(())
        }
    }
}

fn sizes(ctx: &mut Ctx, j: Judge) {
    // metadata sizes
    let mut metas = vec![0usize, 1000, 16382, 16383, 16384, 16385, 16400, 32767, 32768, 32769, 49151, 49152, 49153, 65536, 100_000, 163_840, 163_841, 1 << 20, (1 << 20) + 1];
    metas.push(ctx.pick(2 << 20, 16 << 20));
    let ids = [1u64, 2, 3, 9, 20, 127, 128, 200, 255];
    ctx.enumerate("metadata sizes and extension ids", (metas.len() * ids.len()) as u64, |i, c| {
        let d = digits(i, &[metas.len(), ids.len()]);
        if metas[d[0]] > 200_000 && d[1] != 3 {
            c.outcome("skipped");
            return Ok(());
        }
        let s = scene("metadata", Torrent::new(5, 64, 200, metas[d[0]]), None);
        c.text(format!("metadata of {} bytes, ut_metadata id {}", s.t.info.len(), ids[d[1]]));
        if j == Judge::Data {
            c.nontrivial(fnv(c.text_bytes()));
        }
        let r = legal(&s, Conduct { ut_metadata: ids[d[1]] as u8, variant: i as usize % SHAKES, ..Default::default() }, Source::Explore)?;
        judge(j, &s, &r, c)
    });
    // torrent sizes: piece length x total length
    let pls = [1u64, 2, 100, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 49152, 65535, 65536, 262_144, 1 << 20];
    let mut cases = vec![];
    for pl in pls {
        for whole in 0..=3u64 {
            for r in [0, 1, 2, 99, 16383, 16384, 16385, 20000, 32768, 32769, pl - 1, pl / 2] {
                if r >= pl || whole * pl + r == 0 || whole * pl + r > (2 << 20) + 20000 {
                    continue;
                }
                let total = whole * pl + r;
                let n = total.div_ceil(pl);
                for k in 0..n {
                    if !cases.contains(&(pl, total, k)) {
                        cases.push((pl, total, k));
                    }
                }
            }
        }
    }
    for (pl, n) in [(1u64, 300u64), (3, 257), (16384, 40)] {
        for k in 0..n {
            if ctx.thorough() || k < 3 || k > n - 3 || k % 16 == 0 {
                cases.push((pl, pl * n - if pl > 1 { 1 } else { 0 }, k));
            }
        }
    }
    ctx.enumerate("torrent sizes and pieces", cases.len() as u64, |i, c| {
        let (pl, total, k) = cases[i as usize];
        let s = scene("piece", Torrent::new(6, pl, total, 0), Some(k as usize));
        c.text(format!("piece {k} of {total} bytes in pieces of {pl}"));
        if j == Judge::Data {
            c.nontrivial(fnv(c.text_bytes()));
        }
        let r = legal(&s, Conduct { variant: i as usize % SHAKES, ..Default::default() }, Source::Explore)?;
        judge(j, &s, &r, c)
    });
    // numbers and offsets beyond 16 and 32 bits
    let g = 1u64 << 30;
    let mut large = vec![];
    for (pl, total) in [(1u64, 70_000u64), (3, 200_001), (16384, 5 * g + 3), (20_000, 5 * g), (1 << 20, 9 * g + 1), (16 << 20, 33 * g)] {
        let n = total.div_ceil(pl);
        for at in [4 * g, 8 * g, 32 * g] {
            large.extend([at / pl, at / pl + 1].iter().filter(|k| **k < n).map(|k| (pl, total, *k)));
            large.extend([at / pl].iter().filter(|k| **k > 0 && **k <= n).map(|k| (pl, total, *k - 1)));
        }
        large.extend([65534, 65535, 65536, 65537, 131_072, 262_144, n / 2, n - 1].iter().filter(|k| **k < n).map(|k| (pl, total, *k)));
    }
    large.sort();
    large.dedup();
    ctx.enumerate("large torrents", large.len() as u64 * 2, |i, c| {
        let (pl, total, k) = large[i as usize / 2];
        let s = scene("piece", Torrent::part(6, pl, total, k as usize), Some(k as usize));
        c.text(format!("piece {k} of {total} bytes in pieces of {pl}, answers after {} ms", i % 2));
        if j == Judge::Data {
            c.nontrivial(fnv(c.text_bytes()));
        }
        let r = legal(&s, Conduct { variant: i as usize % SHAKES, delay_ms: i % 2, ..Default::default() }, Source::Explore)?;
        judge(j, &s, &r, c)
    });
}

fn conduct(ctx: &mut Ctx, j: Judge) {
    let ss = scenes();
    for s in &ss {
        let small = s.t.info.len() < 1000 && s.goal.is_none() || s.t.total < 1000;
        let bound = if small { ctx.pick(3, 4) } else { ctx.pick(2, 3) };
        ctx.dfs(&format!("conduct: {}", s.name), bound, |c| {
            let r = legal(s, Conduct { explore: true, ..Default::default() }, Source::Explore)?;
            let ch = sim::explore::current_choices();
            c.text(format!("{} decisions {:?}", s.name, ch));
            if j == Judge::Data && ch.iter().any(|x| *x > 0) {
                c.nontrivial(fnv(c.text_bytes()));
            }
            judge(j, s, &r, c)
        });
    }
    // one kind of noise and one delay throughout
    let radix = [ss.len(), ALL_NOISE, DELAYS.len(), SHAKES];
    ctx.enumerate("steady conduct", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let s = &ss[d[0]];
        c.text(format!("{}: noise {} everywhere, {} ms, extension handshake {}", s.name, d[1], DELAYS[d[2]], d[3]));
        if j == Judge::Data && i > 0 {
            c.nontrivial(fnv(c.text_bytes()));
        }
        let r = legal(s, Conduct { noise: d[1], delay_ms: DELAYS[d[2]], variant: d[3], ..Default::default() }, Source::Explore)?;
        judge(j, s, &r, c)
    });
    // slow to accept the connection
    let accept = [1u64, 20, 60, 110, 250, 490];
    let radix = [ss.len(), accept.len(), DELAYS.len()];
    ctx.enumerate("slow to accept", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let s = &ss[d[0]];
        c.text(format!("{}: accepts after {} ms, answers after {} ms", s.name, accept[d[1]], DELAYS[d[2]]));
        if j == Judge::Data {
            c.nontrivial(fnv(c.text_bytes()));
        }
        let r = legal(s, Conduct { connect_ms: accept[d[1]], delay_ms: DELAYS[d[2]], ..Default::default() }, Source::Explore)?;
        judge(j, s, &r, c)
    });
    // system calls that a signal interrupts or that do less than they were asked to
    let few: Vec<&Scene> = ss.iter().filter(|s| s.t.info.len() < 40_000 && s.t.total < 100_000).collect();
    let kinds = [Hiccup::Interrupted, Hiccup::Short(1), Hiccup::Short(3), Hiccup::Short(67), Hiccup::Short(16000)];
    let radix = [few.len(), 48, kinds.len(), 2, 2];
    ctx.enumerate("interrupted calls", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let s = few[d[0]];
        let delay = [0, 110][d[3]];
        let k = kinds[d[2]];
        // once, or twice in a row
        let hiccups: Vec<_> = (0..=d[4]).map(|x| ((d[1] + x) as u64, k)).collect();
        c.text(format!("{}: answers after {delay} ms, calls {hiccups:?}", s.name));
        if j == Judge::Data {
            c.nontrivial(fnv(c.text_bytes()));
        }
        let r = legal(s, Conduct { delay_ms: delay, hiccups, ..Default::default() }, Source::Explore)?;
        judge(j, s, &r, c)
    });
    let radix = [few.len(), 64, kinds.len()];
    ctx.enumerate("short calls throughout", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let s = few[d[0]];
        let k = kinds[d[2]];
        if k == Hiccup::Interrupted || d[2] < 3 && s.t.total > 1000 && d[1] % 16 > 0 {
            c.outcome("skipped");
            return Ok(());
        }
        c.text(format!("{}: {k:?} for every call from the {}th", s.name, d[1]));
        if j == Judge::Data {
            c.nontrivial(fnv(c.text_bytes()));
        }
        let hiccups = (d[1]..d[1] + 3000).map(|x| (x as u64, k)).collect();
        let r = legal(s, Conduct { hiccups, ..Default::default() }, Source::Explore)?;
        judge(j, s, &r, c)
    });
    // a peer that chokes in between: the fetch may fail, but nothing is asked for meanwhile
    if j == Judge::Requests {
        let radix = [ss.len(), 12, 6, DELAYS.len(), 2];
        ctx.enumerate("chokes in between", product(&radix), |i, c| {
            let d = digits(i, &radix);
            let s = &ss[d[0]];
            let back = [0, 1, 60, 110, 490, 2000][d[2]];
            c.text(format!("{}: chokes after message {}, unchokes after {back} ms; answers after {} ms, noise {}", s.name, d[1] + 1, DELAYS[d[3]], d[4]));
            let r = legal(s, Conduct { delay_ms: DELAYS[d[3]], choke: (d[1] + 1, back), noise: d[4], ..Default::default() }, Source::Explore)?;
            judge(j, s, &r, c)
        });
    }
    // transfers that take minutes though no answer takes half a second
    let long: Vec<Scene> = [
        ("long metadata", Torrent::new(5, 64, 200, 2 << 20), None),
        ("long piece", Torrent::new(6, 150 * 16384, 150 * 16384 + 5, 0), Some(0)),
        ("long last piece", Torrent::new(6, 4 << 20, (8 << 20) - 100, 0), Some(1)),
        ("longer piece", Torrent::new(6, 16 << 20, 16 << 20, 0), Some(0)),
        ("longest metadata", Torrent::new(5, 64, 200, 16 << 20), None),
    ]
    .into_iter()
    .map(|(name, t, goal)| scene(name, t, goal))
    .collect();
    let radix = [long.len(), DELAYS.len(), ALL_NOISE];
    ctx.enumerate("long transfers", product(&radix), |i, c| {
        let d = digits(i, &radix);
        if d[0] >= 3 && d[2] > 2 || d[2] >= 15 && d[1] == 0 {
            c.outcome("skipped");
            return Ok(());
        }
        let s = &long[d[0]];
        c.text(format!("{}: answers after {} ms, noise {}", s.name, DELAYS[d[1]], d[2]));
        if j == Judge::Data {
            c.nontrivial(fnv(c.text_bytes()));
        }
        let r = legal(s, Conduct { delay_ms: DELAYS[d[1]], noise: d[2], ..Default::default() }, Source::Explore)?;
        judge(j, s, &r, c)
    });
}

fn correct_peer(ctx: &mut Ctx) {
    sizes(ctx, Judge::Data);
    let ss = scenes();
    // length of the peer's plain stream
    let lens: Vec<usize> = ss
        .iter()
        .map(|s| {
            let body = match s.goal {
                None => s.t.info.len() + 60 * s.t.info.len().div_ceil(BLOCK as usize),
                Some(k) => s.t.piece(k).len() + 13 * s.t.piece(k).len().div_ceil(BLOCK as usize),
            };
            68 + 6 + 70 + 5 + body
        })
        .collect();
    let delays = [0u64, 1, 99, 101, 240, 490];
    for (s, len) in ss.iter().zip(&lens) {
        let step = |o: usize| -> bool { *len < 1000 || o < 400 || o % 53 == 0 || *len - o < 300 };
        let mut offs: Vec<usize> = (1..*len).filter(|o| ctx.thorough() || step(*o)).collect();
        if *len > 1000 {
            // around the second block's header
            offs.extend(16384..16384 + 260);
        }
        ctx.enumerate(&format!("one split: {}", s.name), (offs.len() * delays.len()) as u64, |i, c| {
            let d = digits(i, &[offs.len(), delays.len()]);
            c.text(format!("{} split at {} for {} ms", s.name, offs[d[0]], delays[d[1]]));
            c.nontrivial(fnv(c.text_bytes()));
            let how = Conduct { cuts: vec![(offs[d[0]], delays[d[1]] * MS)], ..Default::default() };
            judge(Judge::Data, s, &legal(s, how, Source::Explore)?, c)
        });
    }
    for (s, len) in ss.iter().zip(&lens).take(3) {
        let n = *len as u64;
        let stride = 1;
        ctx.enumerate(&format!("two splits: {}", s.name), n * n / 2 / stride, |i, c| {
            let mut k = i * stride;
            let mut a = 1;
            while k >= n - a {
                k -= n - a;
                a += 1;
                if a >= n {
                    c.outcome("skipped");
                    return Ok(());
                }
            }
            let b = a + k + 1;
            let d = [(0u64, 240u64), (240, 240), (101, 0), (99, 140)][(a + b) as usize % 4];
            c.text(format!("{} split at {a} for {} ms and at {b} for {} ms", s.name, d.0, d.1));
            c.nontrivial(fnv(c.text_bytes()));
            let how = Conduct { cuts: vec![(a as usize, d.0 * MS), (b as usize, d.1 * MS)], ..Default::default() };
            judge(Judge::Data, s, &legal(s, how, Source::Explore)?, c)
        });
    }
    // every k-th byte separately, with a gap
    let radix = [ss.len(), 6, 4];
    ctx.enumerate("many splits", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let (s, len) = (&ss[d[0]], lens[d[0]]);
        let every = [1usize, 2, 3, 7, 100, 1448][d[1]];
        let gap = [0u64, 10, 1000, 30_000][d[2]] * 1000; // ns
        if (len / every) as u64 * gap > 8 * SEC {
            c.outcome("skipped: too slow to be within the answer time");
            return Ok(());
        }
        c.text(format!("{} split every {every} bytes, {} us apart", s.name, gap / 1000));
        c.nontrivial(fnv(c.text_bytes()));
        let how = Conduct { cuts: (1..len / every).map(|k| (k * every, gap)).collect(), ..Default::default() };
        judge(Judge::Data, s, &legal(s, how, Source::Explore)?, c)
    });
    conduct(ctx, Judge::Data);
    real_runs(ctx, &ss);
}

/// The same decisions under the simulated environment and over real loopback sockets.
fn real_runs(ctx: &mut Ctx, ss: &[Scene]) {
    let n = ctx.pick(32, 96);
    ctx.enumerate("real sockets", n, |i, c| {
        let s = &ss[i as usize % ss.len()];
        let mut plan = vec![0u16; 40];
        let mut x = i * 2654435761 + 17;
        for p in plan.iter_mut() {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if (x >> 40) % 3 == 0 {
                *p = ((x >> 50) % 3) as u16;
            }
        }
        let cuts = vec![(1 + (i as usize * 37) % 90, 3 * MS), (100 + (i as usize * 53) % 120, 20 * MS)];
        let how = Conduct { explore: true, cuts, ..Default::default() };
        c.text(format!("{} decisions {plan:?}", s.name));
        c.nontrivial(fnv(c.text_bytes()));
        let sim = legal(s, how.clone(), Source::Fixed(plan.clone().into()))?;
        judge(Judge::Data, s, &sim, c)?;
        let expect: Vec<Said> = sim.mon.borrow().said.iter().map(anon).collect();
        for attempt in 0..3 {
            let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
            let ep = l.local_addr().unwrap().to_string();
            let (t, goal) = (s.t.clone(), s.goal);
            let (seed, pl, total, meta) = match s.name {
                "metadata of 2 blocks" => (11, 100, 300, 16500),
                "piece of 2 blocks" | "last piece of 1 block" => (9, 20000, 50000, 0),
                _ => (7, 20, 50, 0),
            };
            let (p, h) = (plan.clone(), how.clone());
            let server = std::thread::spawn(move || {
                let mon = Rc::new(RefCell::new(Monitor::default()));
                let t = Rc::new(Torrent::new(seed, pl, total, meta));
                let peer = Legal::new(t, mon.clone(), h, Source::Fixed(p.into()), goal);
                serve_real(l, peer);
                let said: Vec<Said> = mon.borrow().said.iter().map(anon).collect();
                said
            });
            let got = cut(|| fetch(&ep, &t, Some(&s.info), goal)).map_err(|p| p.fail())?;
            let said = server.join().unwrap();
            let ok = right(&got, &t, goal)?;
            if ok == Some(false) {
                return fail("wrong data accepted", "over real sockets");
            }
            if ok == Some(true) && said == expect {
                c.conformance(1);
                c.outcome("same over real sockets");
                return Ok(());
            }
            if attempt == 2 {
                // only evidence is affected: the machine may be too slow for the client's timeouts
                c.outcome(format!("not confirmed over real sockets: {}", if let Got::Nothing(e) = got { e } else { format!("{said:?}") }));
            }
        }
        Ok(())
    });
}

fn anon(s: &Said) -> Said {
    match s {
        Said::Handshake { hash, ext_bit, .. } => Said::Handshake { hash: hash.clone(), ext_bit: *ext_bit, id: vec![] },
        x => x.clone(),
    }
}

fn requests(ctx: &mut Ctx) {
    sizes(ctx, Judge::Requests);
    conduct(ctx, Judge::Requests);
}

// ----------------------------------------------------------------------------------- lying peers

/// Can the truth be put together from some of the payloads, in order?
fn can_make(payloads: &[Vec<u8>], truth: &[u8]) -> bool {
    let mut at = vec![0usize];
    for p in payloads {
        for a in at.clone() {
            if truth[a..].starts_with(p) && !at.contains(&(a + p.len())) {
                at.push(a + p.len());
            }
        }
    }
    at.contains(&truth.len())
}

fn lie_case(s: &Scene, lie: Lie, c: &mut Case) -> Result<(), Fail> {
    let mon = Rc::new(RefCell::new(Monitor::default()));
    let mut peer = Legal::new(s.t.clone(), mon, Conduct::default(), Source::Explore, s.goal);
    peer.lie = Some(lie);
    let peer = Rc::new(RefCell::new(peer));
    let out = run(&s.t, Some(&s.info), s.goal, Box::new(Shared(peer.clone())), 3600 * SEC)?;
    c.steps(out.calls);
    let told = peer.borrow().told.clone();
    judge_lie(s, &out.got, &told, c)
}

fn judge_lie(s: &Scene, got: &Got, told: &[Vec<u8>], c: &mut Case) -> Result<(), Fail> {
    let truth: &[u8] = match s.goal {
        None => &s.t.info,
        Some(k) => s.t.piece(k),
    };
    let possible = can_make(told, truth);
    c.state(fnv(&told.concat()));
    if told.concat() != truth && !told.is_empty() {
        c.nontrivial(fnv(&[told.concat(), vec![told.len() as u8]].concat()));
    }
    match right(got, &s.t, s.goal)? {
        Some(false) => fail("wrong data accepted", format!("served {}", show(&told.concat()))),
        Some(true) if !possible => fail("wrong data accepted", format!("although it never got the true bytes: {}", show(&told.concat()))),
        Some(true) => {
            c.outcome("true data");
            Ok(())
        }
        None => {
            c.outcome(if possible && told.concat() == truth { "refused the truth" } else { "refused" });
            Ok(())
        }
    }
}

/// All ways to serve `truth` wrongly (or oddly), as payloads per request.
fn alterations(truth: &[u8], foreign: &[Vec<u8>], every: usize) -> Vec<(String, Vec<Vec<Vec<u8>>>)> {
    let b = BLOCK as usize;
    let split = |d: &[u8]| -> Vec<Vec<Vec<u8>>> { d.chunks(b).map(|x| vec![x.to_vec()]).collect() };
    let mut v = vec![("the truth".to_string(), split(truth))];
    let n = truth.len();
    for o in (0..n).filter(|o| n < 1000 || o % every == 0 || *o < 40 || n - o < 40 || o % b < 20 || o % b > b - 20) {
        for x in [1u8, 0x80, 0xff] {
            let mut d = truth.to_vec();
            d[o] ^= x;
            v.push((format!("byte {o} xor {x}"), split(&d)));
        }
        v.push((format!("cut at {o}"), split(&truth[..o])));
        let mut d = truth.to_vec();
        d.remove(o);
        v.push((format!("without byte {o}"), split(&d)));
        d.push(0);
        v.push((format!("without byte {o}, a zero at the end"), split(&d)));
        let mut d = truth.to_vec();
        d.insert(o, b'0');
        v.push((format!("a byte more at {o}"), split(&d)));
        if o + 1 < n && truth[o] != truth[o + 1] {
            let mut d = truth.to_vec();
            d.swap(o, o + 1);
            v.push((format!("bytes {o} and {} swapped", o + 1), split(&d)));
        }
        // the truth in other portions
        if o > 0 {
            v.push((format!("two messages, cut at {o}"), vec![vec![truth[..o].to_vec(), truth[o..].to_vec()]]));
        }
    }
    for p in [1usize, 2, 20, 64, b - 1, b, b + 1] {
        let mut d = truth.to_vec();
        d.extend(vec![0; p]);
        v.push((format!("{p} bytes more"), split(&d)));
        // the excess inside the last message
        let mut s = split(truth);
        s.last_mut().unwrap()[0].extend(vec![b'e'; p]);
        v.push((format!("last message longer by {p}"), s));
        v.push((format!("only zeros, {p}"), split(&vec![0; n.max(p)])));
    }
    let blocks: Vec<Vec<u8>> = truth.chunks(b).map(|x| x.to_vec()).collect();
    let k = blocks.len();
    // every arrangement of the blocks, an empty one and a foreign one
    let mut pool = blocks.clone();
    pool.push(vec![]);
    pool.push(foreign[0][..foreign[0].len().min(b)].to_vec());
    for i in 0..(pool.len() as u64).pow(k as u32) {
        let d = digits(i, &vec![pool.len(); k]);
        v.push((format!("blocks {d:?}"), d.iter().map(|x| vec![pool[*x].clone()]).collect()));
        v.push((format!("blocks {d:?} and again"), d.iter().map(|x| vec![pool[*x].clone(), pool[*x].clone()]).collect()));
        v.push((format!("blocks {d:?} all at once"), vec![d.iter().map(|x| pool[*x].clone()).collect()]));
    }
    v.push(("nothing".into(), vec![]));
    v.push(("empty blocks".into(), vec![vec![vec![]]; k]));
    // other data whose hash begins, ends or goes on like the right one
    if n < 1000 && n >= 8 {
        let h = sha1(truth);
        let at = truth.windows(6).position(|w| w == b"4:name").map(|p| p + 8).filter(|p| p + 4 <= n).unwrap_or(n - 4);
        for from in [0usize, 9, 18] {
            let mut d = truth.to_vec();
            let hit = (0u32..26 * 26 * 26 * 26).find(|k| {
                let mut k = *k;
                for x in &mut d[at..at + 4] {
                    *x = b'a' + (k % 26) as u8;
                    k /= 26;
                }
                d != truth && sha1(&d)[from..from + 2] == h[from..from + 2]
            });
            if hit.is_some() {
                v.push((format!("data with the same two bytes of its hash at {from}"), split(&d)));
            }
        }
    }
    for (i, f) in foreign.iter().enumerate() {
        v.push((format!("another's data {i}"), split(f)));
        v.push((format!("another's data {i}, then the truth"), [split(f), split(truth)].concat()));
        v.push((format!("truth and another's data {i}"), split(&[truth, f].concat())));
    }
    v
}

fn lying_metadata(ctx: &mut Ctx) {
    let others = |t: &Torrent| -> Vec<Vec<u8>> {
        vec![
            Torrent::new(8, 20, 50, 0).info,
            Torrent::new(7, 20, 51, 0).info,
            Torrent::new(9, 20, 50, t.info.len()).info,
            Torrent::new(9, 20, 50, t.info.len() + 3).info,
        ]
    };
    let list = [
        scene("small metadata", tiny(), None),
        scene("metadata of exactly 1 block", long_meta(16384), None),
        scene("metadata of 2 blocks", long_meta(16500), None),
        scene("metadata of 3 blocks", long_meta(40000), None),
    ];
    let every = ctx.pick(101, 7);
    for s in &list {
        let alts = alterations(&s.t.info, &others(&s.t), every);
        ctx.enumerate(&format!("served alterations: {}", s.name), alts.len() as u64 * 2, |i, c| {
            let (what, blocks) = &alts[i as usize / 2];
            // the announced size: the true one, or the one of what is served
            let size = if i % 2 == 0 { s.t.info.len() } else { blocks.concat().concat().len() };
            c.text(format!("{}: {what}, announced {size}", s.name));
            lie_case(s, Lie { size: size as u64, blocks: blocks.clone() }, c)
        });
        let n = s.t.info.len() as u64;
        let sz = [1u64, 2, n - 1, n + 1, n / 2, n * 2, BLOCK, BLOCK - 1, BLOCK + 1, 2 * BLOCK, 2 * BLOCK + 1, 28282, 16 << 20, (16 << 20) + 1, 1 << 31, 1 << 32, u64::MAX >> 1, u64::MAX];
        ctx.enumerate(&format!("announced sizes: {}", s.name), sz.len() as u64, |i, c| {
            c.text(format!("{}: served truly, announced {}", s.name, sz[i as usize]));
            let blocks = s.t.info.chunks(BLOCK as usize).map(|x| vec![x.to_vec()]).collect();
            lie_case(s, Lie { size: sz[i as usize], blocks }, c)
        });
    }
    lying_histories(ctx, &list[2], &others(&list[2].t));
    // the right metadata is unusable: nothing else may take its place
    let good = tiny();
    let mut truths: Vec<Vec<u8>> = (0..good.info.len()).map(|n| good.info[..n].to_vec()).collect();
    truths.extend([&b"de"[..], b"le", b"i1e", b"1:a", b"0:", b"d4:name1:ae", b"x", &[0; 40]].map(|b| b.to_vec()));
    truths.push(long_meta(16500).info[..16499].to_vec());
    truths.push(vec![b'l'; 16400]);
    truths.push([b"d1:a", &good.info[..], b"e"].concat());
    truths.retain(|t| !t.is_empty() && Info::from_bytes(t.clone()).is_err());
    let instead: Vec<Vec<u8>> = others(&good).into_iter().chain([good.info.clone()]).collect();
    let radix = [truths.len(), instead.len(), 6];
    ctx.enumerate("unusable truth", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let (truth, other) = (&truths[d[0]], &instead[d[1]]);
        let t: Vec<Vec<u8>> = truth.chunks(BLOCK as usize).map(|x| x.to_vec()).collect();
        let o: Vec<Vec<u8>> = other.chunks(BLOCK as usize).map(|x| x.to_vec()).collect();
        let one = |v: &[Vec<u8>]| v.iter().map(|x| vec![x.clone()]).collect::<Vec<_>>();
        let (size, blocks) = match d[2] {
            0 => (truth.len(), [one(&t), one(&o)].concat()),
            1 => (other.len(), [one(&t), one(&o)].concat()),
            2 => (truth.len(), [one(&o), one(&t)].concat()),
            3 => (truth.len(), vec![[t, o].concat()]),
            4 => (truth.len(), [one(&t), one(&t), one(&o), one(&o)].concat()),
            _ => (truth.len() + other.len(), vec![vec![[&truth[..], other].concat()]]),
        };
        c.text(format!("{}, {d:?}", show(&truth[..truth.len().min(60)])));
        let s = Scene { name: "unusable", t: Rc::new(Torrent { info: truth.clone(), hash: sha1(truth), ..tiny() }), info: tiny().parsed(), goal: None };
        let mon = Rc::new(RefCell::new(Monitor::default()));
        let mut peer = Legal::new(s.t.clone(), mon, Conduct::default(), Source::Explore, None);
        peer.lie = Some(Lie { size: size as u64, blocks });
        let out = run(&s.t, Some(&s.info), None, Box::new(peer), 3600 * SEC)?;
        c.steps(out.calls);
        c.nontrivial(fnv(c.text_bytes()));
        match out.got {
            Got::Nothing(_) => c.outcome("refused"),
            _ => return fail("wrong data accepted", "metadata although the right bytes are none"),
        }
        Ok(())
    });
}

fn lying_pieces(ctx: &mut Ctx) {
    // three pieces of 1, 2, 3 blocks each; the last one shorter
    let list = [
        scene("small piece", tiny(), Some(0)),
        scene("middle small piece", tiny(), Some(1)),
        scene("last small piece", tiny(), Some(2)),
        scene("piece of exactly 1 block", Torrent::new(3, 16384, 40000, 0), Some(1)),
        scene("piece of 2 blocks", two_blocks(), Some(0)),
        scene("last piece of 1 block", two_blocks(), Some(2)),
        scene("piece of 3 blocks", Torrent::new(4, 40000, 100_000, 0), Some(1)),
    ];
    let every = ctx.pick(101, 7);
    for s in &list {
        let k = s.goal.unwrap();
        let mut foreign: Vec<Vec<u8>> = (0..s.t.count()).filter(|x| *x != k).map(|x| s.t.piece(x).to_vec()).collect();
        foreign.push(Torrent::new(77, s.t.pl, s.t.total, 0).piece(k).to_vec());
        let alts = alterations(s.t.piece(k), &foreign, every);
        ctx.enumerate(&format!("served alterations: {}", s.name), alts.len() as u64, |i, c| {
            let (what, blocks) = &alts[i as usize];
            c.text(format!("{} (index {k}): {what}", s.name));
            lie_case(s, Lie { size: s.t.info.len() as u64, blocks: blocks.clone() }, c)
        });
    }
    let s = &list[4];
    let foreign: Vec<Vec<u8>> = vec![s.t.piece(1).to_vec()];
    lying_histories(ctx, s, &foreign);
    // torrents whose list holds hashes that the piece does not have
    let shapes = [(99u64, 250u64), (16384, 40000), (20000, 45000)];
    let radix = [shapes.len(), 3, 8, 6];
    ctx.enumerate("odd hashes", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let mut t = Torrent::new(13, shapes[d[0]].0, shapes[d[0]].1, 0);
        let k = d[1];
        let truth = t.piece(k).to_vec();
        let other = t.piece((k + 1) % 3).to_vec();
        let mut short = truth.clone();
        short.pop();
        let (what, hash) = match d[2] {
            0 => ("zeros", vec![0; 20]),
            1 => ("ones", vec![0xff; 20]),
            2 => ("the hash of nothing", sha1(&[])),
            3 => ("the hash of the piece less a byte", sha1(&short)),
            4 => ("the hash of the hash", sha1(&sha1(&truth))),
            5 => ("the hash of zeros", sha1(&vec![0; truth.len()])),
            6 => ("the hash backwards", sha1(&truth).into_iter().rev().collect()),
            _ => ("the hash of the next piece", sha1(&other)),
        };
        t.set_hash(k, &hash);
        let served: Vec<u8> = match d[3] {
            0 => truth,
            1 => vec![0; truth.len()],
            2 => vec![],
            3 => short,
            4 => hash.clone(),
            _ => vec![0xff; truth.len()],
        };
        c.text(format!("piece {k}: the list has {what}, the peer serves {}", show(&served)));
        let s = Scene { name: "odd hash", info: t.parsed(), t: Rc::new(t), goal: Some(k) };
        let mon = Rc::new(RefCell::new(Monitor::default()));
        let mut p = Legal::new(s.t.clone(), mon, Conduct::default(), Source::Fixed(Default::default()), s.goal);
        let blocks = served.chunks(BLOCK as usize).map(|b| vec![b.to_vec()]).collect();
        p.lie = Some(Lie { size: s.t.info.len() as u64, blocks });
        let out = run(&s.t, Some(&s.info), s.goal, Box::new(p), 3600 * SEC)?;
        c.steps(out.calls);
        c.nontrivial(fnv(c.text_bytes()));
        match out.got {
            Got::Piece(b) => {
                ensure!(sha1(&b) == hash, "wrong data accepted", "{} for the hash {}", show(&b), show(&hash));
                c.outcome("accepted, hash matches");
            }
            Got::Info(_) => unreachable!(),
            Got::Nothing(_) => c.outcome("refused"),
        }
        Ok(())
    });
    // many pieces: the content of every piece offered for every other
    let n = ctx.pick(16, 60);
    let t = Rc::new(Torrent::new(12, 33, 33 * n - 5, 0));
    let info = t.parsed();
    ctx.enumerate("each piece's content for each other", n * n, |i, c| {
        let (want, give) = ((i / n) as usize, (i % n) as usize);
        let s = Scene { name: "exchange", t: t.clone(), info: info.clone(), goal: Some(want) };
        c.text(format!("content of piece {give} for piece {want}"));
        lie_case(&s, Lie { size: t.info.len() as u64, blocks: vec![vec![t.piece(give).to_vec()]] }, c)
    });
}

// -------------------------------------------------------------------------------- scripted peers

#[derive(Clone)]
enum Act {
    Send(Vec<u8>),
    /// Bytes one by one, so many ns apart.
    Drip(Vec<u8>, u64),
    /// A payload of a data message, in the form the goal calls for.
    Data(Vec<u8>),
    Close,
    Reset,
    Nothing,
}

#[derive(Clone)]
enum Tail {
    Silent,
    Close,
    Reset,
    /// Repeats these bytes for ever, so many ns apart.
    Chatter(Vec<u8>, u64),
    /// Says something else each time, so many ns apart.
    Fresh(fn(u64) -> Vec<u8>, u64),
    /// Answers every data request with this payload.
    Feed(Vec<u8>),
}

/// Says what the script tells, one act per message from the client or while it waits.
struct Scripted {
    mon: Rc<RefCell<Monitor>>,
    goal: Option<usize>,
    acts: std::collections::VecDeque<(Act, bool)>,
    tail: Tail,
    told: Vec<Vec<u8>>,
    nth: u64,
    fresh: u64,
    matched: bool,
    /// Sent so far, until the first message is complete.
    first: Option<Vec<u8>>,
    hash: Vec<u8>,
    early: Option<String>,
}

impl Scripted {
    fn new(t: &Torrent, goal: Option<usize>, acts: Vec<Act>, tail: Tail) -> Scripted {
        Scripted {
            mon: Rc::new(RefCell::new(Monitor::default())),
            goal,
            acts: acts.into_iter().map(|a| (a, false)).collect(),
            tail,
            told: vec![],
            nth: 0,
            fresh: 0,
            matched: false,
            first: Some(vec![]),
            hash: t.hash.clone(),
            early: None,
        }
    }

    /// A connection starts with a handshake (after keep-alives, if need be), or never has one.
    fn note(&mut self, b: &[u8]) {
        let Some(first) = self.first.as_mut() else { return };
        first.extend(b);
        while first.starts_with(&[0; 4]) {
            first.drain(..4);
        }
        if first.len() >= 68 && first[0] == 0x13 {
            self.matched = first[28..48] == self.hash[..];
            self.first = None;
        } else if first.first().is_some_and(|x| *x != 0x13) && first.len() >= 4 {
            self.first = None;
        }
    }

    fn data(&mut self, d: &[u8]) -> Vec<u8> {
        self.told.push(d.to_vec());
        let k = self.nth;
        self.nth += 1;
        match self.goal {
            None => meta_data(1, k, 1 << 14, d),
            Some(i) => piece_msg(i as u32, k as u32 * BLOCK as u32, d),
        }
    }

    fn step(&mut self, w: &mut Wire) {
        match self.acts.pop_front().map(|a| a.0) {
            Some(Act::Send(b)) => {
                self.note(&b);
                w.send(&b)
            }
            Some(Act::Drip(b, gap)) => {
                self.note(&b);
                for x in b {
                    w.send_after(0, &[x]);
                    let at = w.arrival();
                    w.now = w.now.max(at) + gap;
                }
            }
            Some(Act::Data(d)) => {
                let b = self.data(&d);
                self.note(&b);
                w.send(&b)
            }
            Some(Act::Close) => w.close(),
            Some(Act::Reset) => w.reset(),
            Some(Act::Nothing) => {}
            None => match &self.tail {
                Tail::Silent | Tail::Feed(_) => {}
                Tail::Close => w.close(),
                Tail::Reset => w.reset(),
                Tail::Chatter(b, gap) => {
                    let (b, gap) = (b.clone(), *gap);
                    w.send_after(gap, &b)
                }
                Tail::Fresh(f, gap) => {
                    w.send_after(*gap, &f(self.fresh));
                    self.fresh += 1;
                }
            },
        }
    }
}

impl Peer for Scripted {
    fn on_data(&mut self, bytes: &[u8], w: &mut Wire) {
        let said = self.mon.borrow_mut().feed(bytes);
        let asks = said.iter().any(|s| matches!(s, Said::Request(..) | Said::MetaRequest { .. }));
        if asks && !self.matched && self.early.is_none() {
            self.early = Some(format!("{:?}", said));
        }
        if self.acts.is_empty() && asks {
            if let Tail::Feed(d) = &self.tail {
                let d = d.clone();
                let b = self.data(&d);
                self.told.clear();
                w.send(&b);
                return;
            }
        }
        self.step(w)
    }
    fn on_wait(&mut self, w: &mut Wire) {
        self.step(w)
    }
}

fn lying_histories(ctx: &mut Ctx, s: &Scene, foreign: &[Vec<u8>]) {
    let b = BLOCK as usize;
    let truth: Vec<u8> = match s.goal {
        None => s.t.info.clone(),
        Some(k) => s.t.piece(k).to_vec(),
    };
    let size = s.t.info.len() as u64;
    let mut wrong = truth[..b].to_vec();
    wrong[100] ^= 1;
    let menu: Vec<(&str, Act)> = vec![
        ("block 0", Act::Data(truth[..b].to_vec())),
        ("block 1", Act::Data(truth[b..].to_vec())),
        ("altered block 0", Act::Data(wrong)),
        ("foreign block", Act::Data(foreign[0][..foreign[0].len().min(b)].to_vec())),
        ("empty block", Act::Data(vec![])),
        ("shorter size", Act::Send(ext_handshake(3, b as u64, 0))),
        ("longer size", Act::Send(ext_handshake(3, size + b as u64, 0))),
        ("choke, unchoke", Act::Send([frame(0, &[]), frame(1, &[])].concat())),
        ("wait", Act::Nothing),
    ];
    let depth = ctx.pick(5u32, 6);
    let n = (menu.len() as u64).pow(depth);
    ctx.enumerate("histories", n, |i, c| {
        let d = digits(i, &vec![menu.len(); depth as usize]);
        c.text(d.iter().map(|k| menu[*k].0).collect::<Vec<_>>().join(", "));
        let mut acts = vec![Act::Send([handshake(&s.t.hash), ext_handshake(3, size, 0), frame(1, &[])].concat()), Act::Nothing, Act::Nothing];
        acts.extend(d.iter().map(|k| menu[*k].1.clone()));
        let p = Rc::new(RefCell::new(Scripted::new(&s.t, s.goal, acts, Tail::Close)));
        let out = run(&s.t, Some(&s.info), s.goal, Box::new(Shared(p.clone())), 3600 * SEC)?;
        c.steps(out.calls);
        let told = p.borrow().told.clone();
        judge_lie(s, &out.got, &told, c)
    });
}

// --------------------------------------------------------------------------------- hostile peers

/// Virtual time a fetch of a few blocks may take with any peer.
const TIME_BOUND: u64 = 300 * SEC;
/// Heap a fetch of a few blocks may take with any peer.
const MEM_BOUND: usize = 400 << 20;

fn hostile_menu(s: &Scene) -> Vec<(&'static str, Act)> {
    let size = s.t.info.len() as u64;
    let e = |id: u64, n: u64| Act::Send(ext_handshake(id, n, 0));
    let x = |b: &[u8]| Act::Send(frame(20, &[&[0u8], b].concat()));
    let f = |id: u8, b: &[u8]| Act::Send(frame(id, b));
    let mut m: Vec<(&'static str, Act)> = vec![
        ("handshake", Act::Send(handshake(&s.t.hash))),
        ("handshake for another torrent", Act::Send(handshake(&[9; 20]))),
        ("extension handshake", e(3, size)),
        ("size 0", e(3, 0)),
        ("huge size", e(3, u64::MAX)),
        ("size of 16 MiB", e(3, 16 << 20)),
        ("no ut_metadata", x(b"d1:mde13:metadata_sizei100ee")),
        ("ut_metadata 0", e(0, size)),
        ("ut_metadata 256", e(256, size)),
        ("ut_metadata text", x(b"d1:md11:ut_metadata1:xe13:metadata_sizei100ee")),
        ("negative size", x(b"d1:md11:ut_metadatai3ee13:metadata_sizei-1ee")),
        ("m is no dictionary", x(b"d1:mi5e13:metadata_sizei100ee")),
        ("unchoke", f(1, &[])),
        ("choke", f(0, &[])),
        ("unchoke with a body", f(1, &[7; 9])),
        ("empty bitfield", f(5, &[])),
        ("bitfield", f(5, &[0xe0])),
        ("short have", f(4, &[1])),
        ("true data", Act::Data(match s.goal {
            None => s.t.meta_block(0).unwrap().to_vec(),
            Some(k) => s.t.piece(k)[..s.t.piece(k).len().min(BLOCK as usize)].to_vec(),
        })),
        ("empty data", Act::Data(vec![])),
        ("too much data", Act::Data(vec![1; 20000])),
        ("short piece", f(7, &[0, 0, 0])),
        ("piece without data", f(7, &[0, 0, 0, 0, 0, 0, 0, 0])),
        ("request", f(6, &[0; 12])),
        ("empty extension", f(20, &[])),
        ("extension without dictionary", f(20, &[1])),
        ("extension with garbage", f(20, b"\x01d8:msg_typei1e5:piece")),
        ("extension with a list", f(20, b"\x00li1ei2ee")),
        ("extension with a huge string", f(20, b"\x0099999999999999999999:")),
        ("data without piece", f(20, b"\x01d8:msg_typei1eeABC")),
        ("reject", f(20, b"\x01d8:msg_typei2e5:piecei0ee")),
        ("id 19 in a frame", f(19, &[5; 67])),
        ("short id 19", f(19, &[])),
        ("id 255", f(255, &[5; 5])),
        ("length 2^32-1", Act::Send(vec![0xff; 4])),
        ("length 2 MiB and nothing", Act::Send((2u32 << 20).to_be_bytes().to_vec())),
        ("half a header", Act::Send(vec![0, 0])),
        ("half a message", Act::Send(vec![0, 0, 0, 9, 5, 1])),
        ("an HTTP response", Act::Send(b"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n".to_vec())),
        ("keep-alives", Act::Send(vec![0; 400])),
        ("close", Act::Close),
        ("reset", Act::Reset),
        ("wait", Act::Nothing),
    ];
    m.push(("nothing but 0x13", Act::Send(vec![0x13; 68])));
    m
}

fn heavy_menu() -> Vec<(&'static str, Act)> {
    let big = |b: Vec<u8>| Act::Send(frame(20, &b));
    let mut nest = vec![0u8];
    nest.extend(vec![b'l'; 1_000_000]);
    let mut dicts = vec![0u8];
    dicts.extend(b"d1:a".repeat(250_000));
    let mut wide = vec![0u8];
    wide.push(b'l');
    wide.extend(b"le".repeat(500_000));
    wide.push(b'e');
    let mut strs = vec![0u8, b'l'];
    strs.extend(b"0:".repeat(900_000));
    strs.push(b'e');
    let mut keys = vec![0u8, b'd'];
    for i in 0..100_000 {
        keys.extend(format!("6:{i:06}0:").bytes());
    }
    keys.push(b'e');
    vec![
        ("deep list", big(nest)),
        ("deep dictionaries", big(dicts)),
        ("wide list", big(wide)),
        ("many strings", big(strs)),
        ("many keys", big(keys)),
        ("bitfield of 2 MB", Act::Send(frame(5, &vec![0xff; 2_000_000]))),
        ("1000 blocks", Act::Send([piece_msg(0, 0, &vec![3; 16384]), meta_data(1, 0, 9, &vec![3; 16384])].concat().repeat(500))),
        ("dripped message", Act::Drip(frame(5, &[1; 400]), SEC)),
        ("dripped keep-alives", Act::Drip(vec![0; 400], SEC)),
        ("dripped header", Act::Drip(vec![0x13; 68], 9 * SEC)),
    ]
}

fn hostile_case(s: &Scene, acts: Vec<Act>, tail: Tail, c: &mut Case) -> Result<(), Fail> {
    let p = Rc::new(RefCell::new(Scripted::new(&s.t, s.goal, acts, tail)));
    let m = sim::mem::mark();
    let bytes_before = 0usize;
    let out = run(&s.t, Some(&s.info), s.goal, Box::new(Shared(p.clone())), TIME_BOUND)?;
    let grown = sim::mem::grown(m).saturating_sub(bytes_before);
    c.steps(out.calls);
    ensure!(out.took <= TIME_BOUND, "takes too long", "{} s of virtual time", out.took / SEC);
    ensure!(grown <= MEM_BOUND, "takes too much memory", "{} MB", grown >> 20);
    let said = p.borrow().mon.borrow().said.len();
    c.state(fnv(format!("{} {said} {}", s.name, out.took / (100 * MS)).as_bytes()));
    match right(&out.got, &s.t, s.goal)? {
        Some(true) => c.outcome("true data"),
        Some(false) => c.outcome("other data"), // C06 and C07 judge that
        None => match &out.got {
            Got::Nothing(e) => c.outcome(format!("error {e}")),
            _ => unreachable!(),
        },
    }
    Ok(())
}

fn starts(s: &Scene) -> Vec<(&'static str, Vec<Act>)> {
    let size = s.t.info.len() as u64;
    vec![
        ("from the start", vec![]),
        ("after the handshake", vec![Act::Send(handshake(&s.t.hash)), Act::Nothing, Act::Nothing]),
        (
            "when ready",
            vec![Act::Send([handshake(&s.t.hash), ext_handshake(3, size, 0), frame(1, &[])].concat()), Act::Nothing, Act::Nothing],
        ),
    ]
}

/// An extension message full of names not used before.
fn names(n: u64, handshake: bool) -> Vec<u8> {
    let names = Ben::Dict((0..1300).map(|k| (format!("{:01500}", n * 1300 + k).into_bytes(), Ben::Int(7))).collect());
    let mut d = vec![(b"m".to_vec(), names)];
    if handshake {
        d.push((b"metadata_size".to_vec(), Ben::Int(1000)));
    }
    ext(0, &Ben::Dict(d), &[])
}

fn hostile(ctx: &mut Ctx) {
    let ss = [
        scene("small metadata", tiny(), None),
        scene("small piece", tiny(), Some(2)),
        scene("piece of 2 blocks", two_blocks(), Some(1)),
    ];
    // endless talk of every kind, from every starting point
    let size = |s: &Scene| s.t.info.len() as u64;
    for s in &ss {
        let menu = hostile_menu(s);
        let periods = [MS, 10 * MS, 99 * MS, 500 * MS, 3 * SEC];
        let st = starts(s);
        let mut talk: Vec<(&str, Vec<u8>)> = menu.iter().filter_map(|(n, a)| if let Act::Send(b) = a { Some((*n, b.clone())) } else { None }).collect();
        talk.push(("have", frame(4, &[0; 4])));
        talk.push(("keep-alive", vec![0; 4]));
        talk.push(("a zero", vec![0]));
        talk.push(("a 0x13", vec![0x13]));
        talk.push(("alternating chokes", [frame(1, &[]), frame(0, &[])].concat()));
        talk.push(("other sizes", [ext_handshake(3, 100, 0), ext_handshake(4, 50_000, 0)].concat()));
        talk.push(("empty data", match s.goal {
            None => meta_data(1, 0, 100, &[]),
            Some(k) => piece_msg(k as u32, 0, &[]),
        }));
        let radix = [talk.len(), periods.len(), st.len()];
        ctx.enumerate(&format!("endless talk: {}", s.name), product(&radix), |i, c| {
            let d = digits(i, &radix);
            if d[1] == 0 && talk[d[0]].1 == vec![0; 400] {
                c.outcome("skipped: 100000 messages a second");
                return Ok(());
            }
            c.text(format!("{}: {}, then {} every {} ms for ever", s.name, st[d[2]].0, talk[d[0]].0, periods[d[1]] / MS));
            c.nontrivial(fnv(c.text_bytes()));
            hostile_case(s, st[d[2]].1.clone(), Tail::Chatter(talk[d[0]].1.clone(), periods[d[1]]), c)
        });
        // something else each time, none of it worth keeping
        let fresh: [(&str, fn(u64) -> Vec<u8>); 3] = [
            ("extension handshakes with other names", |n| names(n, true)),
            ("extension messages with other names", |n| names(n, false)),
            ("bitfields", |n| frame(5, &vec![n as u8; 2_000_000])),
        ];
        let radix = [fresh.len(), 2, st.len()];
        ctx.enumerate(&format!("endless news: {}", s.name), product(&radix), |i, c| {
            let d = digits(i, &radix);
            let gap = [90 * MS, 2 * SEC][d[1]];
            c.text(format!("{}: {}, then {} every {} ms for ever", s.name, st[d[2]].0, fresh[d[0]].0, gap / MS));
            c.nontrivial(fnv(c.text_bytes()));
            hostile_case(s, st[d[2]].1.clone(), Tail::Fresh(fresh[d[0]].1, gap), c)
        });
        // good data fed for as long as it is asked for
        let sizes = [1u64, 16384, 16385, 100_000, 1 << 20, (16 << 20) + 1, 1 << 30, 1 << 40, u64::MAX / 2, u64::MAX];
        let payloads = [0usize, 1, 16384, 16385, 1 << 20];
        ctx.enumerate(&format!("endless feeding: {}", s.name), (sizes.len() * payloads.len()) as u64, |i, c| {
            let d = digits(i, &[sizes.len(), payloads.len()]);
            c.text(format!("{}: announces {} bytes, feeds blocks of {}", s.name, sizes[d[0]], payloads[d[1]]));
            c.nontrivial(fnv(c.text_bytes()));
            let a = vec![Act::Send([handshake(&s.t.hash), ext_handshake(3, sizes[d[0]], 0), frame(1, &[])].concat()), Act::Nothing, Act::Nothing];
            hostile_case(s, a, Tail::Feed(vec![5; payloads[d[1]]]), c)
        });
        // every truncation of a good session, every ending
        let data = match s.goal {
            None => meta_data(1, 0, size(s), &s.t.info),
            Some(k) => piece_msg(k as u32, 0, &s.t.piece(k)[..s.t.piece(k).len().min(16384)]),
        };
        let good = [handshake(&s.t.hash), frame(5, &[0xe0]), ext_handshake(3, size(s), 1), frame(1, &[]), data].concat();
        let offs: Vec<usize> = (0..=good.len()).filter(|o| good.len() < 1000 || *o < 400 || o % 97 == 0).collect();
        ctx.enumerate(&format!("truncated session: {}", s.name), offs.len() as u64 * 4, |i, c| {
            let o = offs[i as usize / 4];
            let (n, tail) = [
                ("silence", Tail::Silent),
                ("close", Tail::Close),
                ("reset", Tail::Reset),
                ("zeros", Tail::Chatter(vec![0], SEC)),
            ][i as usize % 4]
                .clone();
            c.text(format!("{}: good session of {} bytes up to byte {o}, then {n}", s.name, good.len()));
            c.nontrivial(fnv(c.text_bytes()));
            hostile_case(s, vec![Act::Send(good[..o].to_vec())], tail, c)
        });
        // each byte of a good session altered
        let offs: Vec<usize> = (0..good.len()).filter(|o| good.len() < 1000 || *o < 400).collect();
        let xors = [1u8, 2, 0x13, 0x40, 0x80, 0xff];
        ctx.enumerate(&format!("altered session: {}", s.name), (offs.len() * xors.len()) as u64, |i, c| {
            let d = digits(i, &[offs.len(), xors.len()]);
            let mut g = good.clone();
            g[offs[d[0]]] ^= xors[d[1]];
            c.text(format!("{}: good session with byte {} xor {:#x}, then silence", s.name, offs[d[0]], xors[d[1]]));
            c.nontrivial(fnv(c.text_bytes()));
            hostile_case(s, vec![Act::Send(g)], Tail::Silent, c)
        });
        // sequences of hostile frames
        for (name, pre) in &st {
            let depth: u32 = 3;
            let n = menu.len() as u64;
            ctx.enumerate(&format!("hostile frames {name}: {}", s.name), n.pow(depth) * 2, |i, c| {
                let d = digits(i / 2, &vec![menu.len(); depth as usize]);
                c.text(format!("{}: {name}: {}", s.name, d.iter().map(|k| menu[*k].0).collect::<Vec<_>>().join(", ")));
                c.nontrivial(fnv(c.text_bytes()));
                let mut acts = pre.clone();
                acts.extend(d.iter().map(|k| menu[*k].1.clone()));
                hostile_case(s, acts, if i % 2 == 0 { Tail::Silent } else { Tail::Close }, c)
            });
        }
        let heavy = heavy_menu();
        let radix = [heavy.len(), st.len(), 2];
        ctx.enumerate(&format!("heavy messages: {}", s.name), product(&radix), |i, c| {
            let d = digits(i, &radix);
            c.text(format!("{}: {}: {}", s.name, st[d[1]].0, heavy[d[0]].0));
            c.nontrivial(fnv(c.text_bytes()));
            let mut acts = st[d[1]].1.clone();
            acts.push(heavy[d[0]].1.clone());
            let (name, goal, seed) = (s.name, s.goal, s.t.pl == 20);
            // on a stack as large as the client's workers have
            let mut inner = Case::default();
            let tail = if d[2] == 0 { Tail::Silent } else { Tail::Close };
            let v = on_thread(move_send(|| {
                let s = scene(name, if seed { tiny() } else { two_blocks() }, goal);
                hostile_case(&s, acts, tail, &mut inner)
            }));
            c.absorb(inner);
            v
        });
    }
    // connections that never come to be
    let s = &ss[0];
    ctx.enumerate("no connection", 4, |i, c| {
        let mut os = Os::new();
        os.time_limit = os.now + TIME_BOUND;
        os.net = Some(Box::new(OnePeer(Box::new(move |_| if i % 2 == 0 { Connect::Refused } else { Connect::TimedOut }))));
        c.text(format!("connection {}", if i % 2 == 0 { "refused" } else { "unanswered" }));
        c.nontrivial(i);
        let goal = if i < 2 { None } else { Some(0) };
        let got = with_os(&mut os, || cut(|| fetch(ENDPOINT, &s.t, Some(&s.info), goal))).map_err(|p| p.fail())?;
        match got {
            Got::Nothing(e) => {
                c.outcome(e);
                Ok(())
            }
            _ => fail("data out of nowhere", ""),
        }
    });
}

/// The closure's captures are only used by the one thread that runs it while this one waits.
fn move_send<R: Send>(f: impl FnOnce() -> R) -> impl FnOnce() -> R + Send {
    struct W<T>(T);
    unsafe impl<T> Send for W<T> {}
    impl<T: FnOnce() -> R, R> W<T> {
        fn call(self) -> R {
            (self.0)()
        }
    }
    let w = W(f);
    move || w.call()
}

// ------------------------------------------------------------------------------------ handshakes

fn handshakes(ctx: &mut Ctx) {
    let ss = [scene("small metadata", tiny(), None), scene("small piece", tiny(), Some(0))];
    let judge = |s: &Scene, acts: Vec<Act>, tail: Tail, c: &mut Case, may: bool| -> Result<(), Fail> {
        let p = Rc::new(RefCell::new(Scripted::new(&s.t, s.goal, acts, tail)));
        let out = run(&s.t, Some(&s.info), s.goal, Box::new(Shared(p.clone())), 3600 * SEC)?;
        c.steps(out.calls);
        let p = p.borrow();
        let mon = p.mon.borrow();
        if let Some(h) = mon.said.first() {
            let Said::Handshake { hash, ext_bit, id } = h else {
                return fail("stream does not start with a handshake", format!("{:?}", mon.said));
            };
            ensure!(*hash == s.t.hash, "handshake for another torrent", "{}", show(hash));
            ensure!(*ext_bit, "handshake without the extension bit", "");
            ensure!(id.iter().all(|c| (0x20..0x7f).contains(c)), "peer id is not 20 characters", "{}", show(id));
        } else {
            return fail("no handshake sent", format!("{} bytes", mon.leftover()));
        }
        if let Some(f) = &mon.bad {
            if f.sig.contains("handshake") {
                return fail(f.sig.clone(), f.msg.clone());
            }
        }
        if let Some(e) = &p.early {
            return fail("requested without a matching handshake", e.clone());
        }
        let got = right(&out.got, &s.t, s.goal)?;
        if !p.matched && !may {
            c.nontrivial(fnv(c.text_bytes()));
            ensure!(got.is_none(), "fetched without a matching handshake", "");
            c.outcome("failed, nothing requested");
        } else {
            c.outcome(if got.is_some() { "fetched" } else { "failed" });
        }
        Ok(())
    };
    for s in &ss {
        let size = s.t.info.len() as u64;
        let rest = [ext_handshake(3, size, 0), frame(1, &[])].concat();
        let data = match s.goal {
            None => s.t.info.clone(),
            Some(k) => s.t.piece(k).to_vec(),
        };
        // every byte of the handshake altered in every way, the rest of the session in order
        ctx.enumerate(&format!("altered handshake: {}", s.name), 68 * 256, |i, c| {
            let (o, v) = (i as usize / 256, (i % 256) as u8);
            let mut h = handshake(&s.t.hash);
            let same = h[o] == v;
            h[o] = v;
            c.text(format!("{}: handshake byte {o} is {v:#x}", s.name));
            // other protocol names, reserved bits and peer ids are not judged
            let may = same || (1..28).contains(&o) || o >= 48;
            judge(s, vec![Act::Send([h, rest.clone()].concat()), Act::Nothing, Act::Nothing, Act::Data(data.clone())], Tail::Close, c, may)
        });
        ctx.enumerate(&format!("altered handshake, slow: {}", s.name), 68 * 8, |i, c| {
            let (o, bit) = (i as usize / 8, i % 8);
            let mut h = handshake(&s.t.hash);
            h[o] ^= 1 << bit;
            c.text(format!("{}: handshake byte {o} bit {bit} flipped, messages apart", s.name));
            let may = (1..28).contains(&o) || o >= 48;
            judge(s, vec![Act::Send(h), Act::Send(rest.clone()), Act::Nothing, Act::Data(data.clone())], Tail::Silent, c, may)
        });
        ctx.enumerate(&format!("truncated handshake: {}", s.name), 68 * 3, |i, c| {
            let o = i as usize / 3;
            c.text(format!("{}: {o} bytes of the handshake", s.name));
            let mut acts = vec![Act::Send(handshake(&s.t.hash)[..o].to_vec())];
            let tail = match i % 3 {
                0 => Tail::Silent,
                1 => Tail::Close,
                _ => {
                    acts.push(Act::Send(rest.clone()));
                    acts.push(Act::Data(data.clone()));
                    Tail::Silent
                }
            };
            judge(s, acts, tail, c, false)
        });
        let hs = |h: &[u8]| Act::Send(handshake(h));
        let mut near = s.t.hash.clone();
        near[19] ^= 1;
        let mut rev = s.t.hash.clone();
        rev.reverse();
        let menu: Vec<(&str, Act)> = vec![
            ("handshake", hs(&s.t.hash)),
            ("near handshake", hs(&near)),
            ("reversed handshake", hs(&rev)),
            ("zero handshake", hs(&[0; 20])),
            ("the hash in a message 19", Act::Send(frame(18, &handshake(&s.t.hash)))),
            ("unchoke", Act::Send(frame(1, &[]))),
            ("extension handshake", Act::Send(ext_handshake(3, size, 0))),
            ("bitfield", Act::Send(frame(5, &[0xe0]))),
            ("keep-alive", Act::Send(vec![0; 4])),
            ("have", Act::Send(frame(4, &[0; 4]))),
            ("data", Act::Data(data.clone())),
            ("ready", Act::Send(rest.clone())),
            ("wait", Act::Nothing),
        ];
        let depth = ctx.pick(4u32, 5);
        ctx.enumerate(&format!("histories: {}", s.name), (menu.len() as u64).pow(depth), |i, c| {
            let d = digits(i, &vec![menu.len(); depth as usize]);
            c.text(format!("{}: {}", s.name, d.iter().map(|k| menu[*k].0).collect::<Vec<_>>().join(", ")));
            judge(s, d.iter().map(|k| menu[*k].1.clone()).collect(), Tail::Close, c, false)
        });
    }
    // the client's own handshake, for every value of every byte of the info hash
    ctx.enumerate("info hashes", 20 * 256 * 2, |i, c| {
        let goal = if i % 2 == 0 { None } else { Some(0) };
        let mut t = tiny();
        let info = t.parsed();
        t.hash[(i / 2) as usize % 20] = (i / 40) as u8;
        c.text(format!("info hash {:02x?}", t.hash));
        let s = Scene { name: "any hash", t: Rc::new(t), info, goal };
        judge(&s, vec![], Tail::Close, c, false)
    });
}

// ---------------------------------------------------------------------------------- segmentation

struct Tape {
    bytes: Vec<u8>,
    cuts: Vec<(usize, u64)>,
    end: u8,
}

impl Peer for Tape {
    fn on_open(&mut self, w: &mut Wire) {
        w.cuts = self.cuts.clone();
        let b = std::mem::take(&mut self.bytes);
        w.send(&b);
        match self.end {
            1 => w.close(),
            2 => w.reset(),
            _ => {}
        }
    }
    fn on_data(&mut self, _: &[u8], _: &mut Wire) {}
}

/// Reads everything the client makes of the stream.
fn read_all(bytes: &[u8], cuts: Vec<(usize, u64)>, end: u8, c: &mut Case) -> Result<Vec<(Vec<u8>, u8, u32)>, Fail> {
    let mut os = Os::new();
    let total: u64 = cuts.iter().map(|x| x.1).sum();
    let mut tape = Some(Tape { bytes: bytes.to_vec(), cuts, end });
    os.net = Some(Box::new(OnePeer(Box::new(move |_| Connect::Accept(Box::new(tape.take().unwrap()))))));
    let start = os.now;
    let r = with_os(&mut os, || {
        cut(|| {
            let mut s = match StreamInterface::connect(ENDPOINT, false) {
                Ok(s) => s,
                Err(_) => return Err("cannot connect"),
            };
            let mut out = vec![];
            let mut idle = 0;
            while idle < 3 {
                match read_stream(&mut s) {
                    Some(m) => out.push(m),
                    None => {
                        if active(|os| os.now).unwrap() > start + total + SEC {
                            idle += 1;
                        } else {
                            // a reader that returns at once must not keep time from passing
                            active(|os| os.now += MS);
                        }
                    }
                }
            }
            Ok(out)
        })
    })
    .map_err(|p| p.fail())?;
    c.steps(os.calls);
    match r {
        Ok(v) => Ok(v),
        Err(e) => fail(e, ""),
    }
}

fn segmentation(ctx: &mut Ctx) {
    let hs = handshake(&[0x13; 20]);
    let menu: Vec<(&str, Vec<u8>)> = vec![
        ("keep-alive", vec![0; 4]),
        ("unchoke", frame(1, &[])),
        ("have", frame(4, &[0, 0, 1, 0])),
        ("handshake", hs),
        ("19 bytes", frame(5, &[0x13; 18])),
        ("extension", ext_handshake(3, 1000, 0)),
        ("piece", piece_msg(1, 0x13131313, &[0; 40])),
        ("zeros", frame(0, &[0; 5])),
    ];
    let big: Vec<(&str, Vec<u8>)> = vec![
        ("block", piece_msg(0, 16384, &(0..16384).map(|i| i as u8).collect::<Vec<_>>())),
        ("255", frame(9, &[1; 254])),
        ("256", frame(9, &[0; 255])),
        ("257", frame(9, &[0x13; 256])),
        ("65536", frame(7, &vec![7; 65535])),
        ("1 MiB", frame(7, &vec![9; (1 << 20) - 1])),
        ("2 MiB", frame(7, &vec![0x13; (2 << 20) - 1])),
    ];
    let expect = |parts: &[&[u8]]| -> Vec<(Vec<u8>, u8, u32)> {
        parts
            .iter()
            .filter(|f| f.len() > 4)
            .map(|f| {
                if f[0] == 0x13 {
                    (f.to_vec(), 19, 68)
                } else {
                    (f[5..].to_vec(), f[4], f.len() as u32 - 5)
                }
            })
            .collect()
    };
    let check = |got: Vec<(Vec<u8>, u8, u32)>, want: Vec<(Vec<u8>, u8, u32)>, c: &mut Case| -> Result<(), Fail> {
        if got != want {
            let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            let s = |v: &[(Vec<u8>, u8, u32)]| v.get(k).map(|m| format!("id {} length {} body {}", m.1, m.2, show(&m.0))).unwrap_or("none".into());
            return fail("wrong messages read", format!("message {k} of {}: {} instead of {}", want.len(), s(&got), s(&want)));
        }
        c.outcome(format!("{} messages", got.len()));
        Ok(())
    };
    let delays = [0u64, 1, 50, 99, 100, 101, 150, 1000, 3000];
    let n = menu.len() as u64;
    // all sequences up to 3 frames (4 in thorough), all single splits
    let maxlen = ctx.pick(3u32, 4);
    let mut streams: Vec<Vec<usize>> = vec![];
    for l in 1..=maxlen {
        for i in 0..n.pow(l) {
            streams.push(digits(i, &vec![menu.len(); l as usize]));
        }
    }
    // flat index space: (stream, cut position)
    let cat = |seq: &[usize]| seq.iter().map(|k| &menu[*k].1[..]).collect::<Vec<_>>();
    let names = |seq: &[usize]| seq.iter().map(|k| menu[*k].0).collect::<Vec<_>>().join(", ");
    let mut flat: Vec<(u32, u32)> = vec![];
    for (k, seq) in streams.iter().enumerate() {
        for o in 0..cat(seq).concat().len() {
            flat.push((k as u32, o as u32));
        }
    }
    ctx.enumerate("one split", (flat.len() * delays.len()) as u64, |i, c| {
        let d = digits(i, &[flat.len(), delays.len()]);
        let (k, o) = flat[d[0]];
        let seq = &streams[k as usize];
        let parts = cat(seq);
        c.text(format!("{}: split at {o} for {} ms", names(seq), delays[d[1]]));
        c.nontrivial(fnv(c.text_bytes()));
        let cuts = if o == 0 { vec![] } else { vec![(o as usize, delays[d[1]] * MS)] };
        let got = read_all(&parts.concat(), cuts, (i % 2) as u8, c)?;
        check(got, expect(&parts), c)
    });
    ctx.enumerate("truncated", flat.len() as u64 * 3, |i, c| {
        let (k, o) = flat[i as usize / 3];
        let seq = &streams[k as usize];
        let parts = cat(seq);
        let end = (i % 3) as u8;
        c.text(format!("{}: {o} bytes, then {}", names(seq), ["silence", "close", "reset"][end as usize]));
        c.nontrivial(fnv(c.text_bytes()));
        let mut whole: Vec<&[u8]> = vec![];
        let mut at = 0;
        for p in &parts {
            at += p.len();
            if at <= o as usize {
                whole.push(p);
            }
        }
        let got = read_all(&parts.concat()[..o as usize], vec![], end, c)?;
        check(got, expect(&whole), c)
    });
    let mut pairs: Vec<(u32, u32, u32)> = vec![];
    let stride = 1;
    let mut n2 = 0;
    for (k, seq) in streams.iter().enumerate().filter(|x| x.1.len() <= 2) {
        let len = cat(seq).concat().len() as u32;
        for a in 1..len {
            for b in a + 1..len {
                n2 += 1;
                // around the frame boundaries always, elsewhere every stride-th
                if n2 % stride == 0 {
                    pairs.push((k as u32, a, b));
                }
            }
        }
    }
    let dd = [(101u64, 0u64), (0, 101), (60, 60), (1000, 1000)];
    ctx.enumerate("two splits", pairs.len() as u64, |i, c| {
        let (k, a, b) = pairs[i as usize];
        let seq = &streams[k as usize];
        let parts = cat(seq);
        let d = dd[(a + b) as usize % 4];
        c.text(format!("{}: split at {a} for {} ms and at {b} for {} ms", names(seq), d.0, d.1));
        c.nontrivial(fnv(c.text_bytes()));
        let got = read_all(&parts.concat(), vec![(a as usize, d.0 * MS), (b as usize, d.1 * MS)], (i % 2) as u8, c)?;
        check(got, expect(&parts), c)
    });
    // long sequences in equal portions
    let radix = [streams.len(), 6, 3];
    ctx.enumerate("equal portions", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let seq: Vec<usize> = (0..3).flat_map(|_| streams[d[0]].clone()).collect();
        let parts = cat(&seq);
        let every = [1usize, 2, 3, 4, 5, 13][d[1]];
        let gap = [0u64, 1, 20][d[2]];
        let all = parts.concat();
        if all.len() as u64 / every as u64 * gap > 8000 {
            c.outcome("skipped: slower than the client waits for a message");
            return Ok(());
        }
        c.text(format!("{}: portions of {every} bytes {gap} ms apart", names(&seq)));
        c.nontrivial(fnv(c.text_bytes()));
        let cuts = (1..all.len().div_ceil(every)).map(|k| (k * every, gap * MS)).collect();
        let got = read_all(&all, cuts, (i % 2) as u8, c)?;
        check(got, expect(&parts), c)
    });
    // keep-alives and other short frames in great numbers
    let counts = [10usize, 11, 100, 255, 256, 1000, 5000, 50_000];
    let radix = [counts.len(), 3, 4];
    ctx.enumerate("many in a row", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let what = [&menu[0].1[..], &menu[1].1, &menu[2].1][d[1]];
        let mut parts = vec![&menu[2].1[..]];
        parts.extend(vec![what; counts[d[0]]]);
        parts.push(&menu[6].1);
        let all = parts.concat();
        let cuts = match d[2] {
            0 => vec![],
            1 => vec![(all.len() / 2 + 1, 50 * MS)],
            2 => vec![(all.len() - 3, 101 * MS)],
            _ => (1..all.len().div_ceil(1460)).map(|k| (k * 1460, MS)).collect(),
        };
        c.text(format!("{} times {}, delivery {}", counts[d[0]], menu[d[1]].0, d[2]));
        c.nontrivial(fnv(c.text_bytes()));
        let got = read_all(&all, cuts, (i % 2) as u8, c)?;
        check(got, expect(&parts), c)
    });
    // frames that come too slowly or are too large may be given up, but what is read is never made up:
    // it stays the beginning of what was sent
    let prefix = |got: Vec<(Vec<u8>, u8, u32)>, want: Vec<(Vec<u8>, u8, u32)>, c: &mut Case| -> Result<(), Fail> {
        let n = got.len();
        if n > want.len() {
            return check(got, want, c);
        }
        check(got, want[..n].to_vec(), c)
    };
    let inner = frame(9, &[frame(1, &[]), frame(4, &[0, 0, 1, 0]), handshake(&[0x13; 20]), piece_msg(0, 0, &frame(2, &[]))].concat());
    let embedded = frame(9, &(0..40).flat_map(|_| frame(1, &[])).collect::<Vec<_>>());
    let slow: Vec<Vec<&[u8]>> = [&menu[1].1[..], &menu[2].1, &menu[3].1, &menu[4].1, &menu[5].1, &menu[6].1, &menu[7].1, &inner, &embedded]
        .into_iter()
        .flat_map(|f| [vec![f, &menu[2].1], vec![&menu[2].1, f, &menu[6].1]])
        .collect();
    let mut sflat = vec![];
    for (k, parts) in slow.iter().enumerate() {
        for o in 1..parts.concat().len() {
            sflat.push((k, o));
        }
    }
    let waits = [9_500u64, 10_001, 10_500, 12_000, 30_000, 61_000, 130_000];
    ctx.enumerate("very slow frames", (sflat.len() * waits.len()) as u64, |i, c| {
        let d = digits(i, &[sflat.len(), waits.len()]);
        let (k, o) = sflat[d[0]];
        c.text(format!("{}: split at {o} for {} ms", show(&slow[k].concat()), waits[d[1]]));
        c.nontrivial(fnv(c.text_bytes()));
        let got = read_all(&slow[k].concat(), vec![(o, waits[d[1]] * MS)], (i % 2) as u8, c)?;
        prefix(got, expect(&slow[k]), c)
    });
    let sizes = [(2u32 << 20) + 1, (2 << 20) + 2, 4 << 20, (8 << 20) + 3];
    let radix = [sizes.len(), 4, 4];
    ctx.enumerate("very large frames", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let fill: &[u8] = [&[0u8][..], &menu[2].1, &menu[3].1, &menu[1].1][d[1]];
        let body: Vec<u8> = fill.iter().copied().cycle().take(sizes[d[0]] as usize - 1).collect();
        let large = frame(9, &body);
        let parts = [&menu[2].1[..], &large, &menu[2].1];
        let cuts = match d[2] {
            0 => vec![],
            1 => vec![(13, 150 * MS)],
            2 => vec![(14, 150 * MS), (1 << 20, 150 * MS)],
            _ => vec![(large.len() / 2, 12 * SEC)],
        };
        c.text(format!("frame of {} bytes full of {} between two others, delivery {}", sizes[d[0]], show(fill), d[2]));
        c.nontrivial(fnv(c.text_bytes()));
        let got = read_all(&parts.concat(), cuts, (i % 2) as u8, c)?;
        if got.is_empty() {
            return fail("wrong messages read", "nothing read of a stream that starts with a short message");
        }
        prefix(got, expect(&parts), c)
    });
    let mut lflat = vec![];
    for (k, (_, b)) in big.iter().enumerate() {
        let len = b.len() + 9 + 9;
        for o in (1..len).filter(|o| *o < 40 || len - o < 40 || o % ctx.pick(997, 101) == 0 || o % 16384 < 3) {
            if len > 100_000 && o % 5 != 0 && o > 20 {
                continue;
            }
            lflat.push((k, o));
        }
    }
    ctx.enumerate("large frames", lflat.len() as u64 * 3, |i, c| {
        let d = digits(i, &[lflat.len(), 3]);
        let (k, o) = lflat[d[0]];
        let parts = [&menu[2].1[..], &big[k].1, &menu[2].1];
        let delay = [1u64, 101, 1000][d[1]];
        c.text(format!("frame {} between two others, split at {o} for {delay} ms", big[k].0));
        c.nontrivial(fnv(c.text_bytes()));
        let got = read_all(&parts.concat(), vec![(o, delay * MS)], (i % 2) as u8, c)?;
        check(got, expect(&parts), c)
    });
}

// -------------------------------------------------------------------------------------- kept (C33)

#[cfg(feature = "kept")]
pub fn kept(ctx: &mut Ctx) {
    use crate::kept::given_back;
    let ss = scenes();
    let script = |s: &Scene, acts: &[Act], tail: &Tail| run(&s.t, Some(&s.info), s.goal, Box::new(Scripted::new(&s.t, s.goal, acts.to_vec(), tail.clone())), TIME_BOUND).map(drop);
    let tails = [("silence", Tail::Silent), ("close", Tail::Close), ("reset", Tail::Reset), ("zeros", Tail::Chatter(vec![0], SEC))];
    // conforming peers
    let radix = [ss.len(), DELAYS.len(), 8];
    ctx.enumerate("fetches", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let s = &ss[d[0]];
        c.text(format!("{}: answers after {} ms, noise {}", s.name, DELAYS[d[1]], d[2]));
        given_back(c, &mut || legal(s, Conduct { delay_ms: DELAYS[d[1]], noise: d[2], ..Default::default() }, Source::Explore).map(drop))
    });
    for s in &ss {
        let size = s.t.info.len() as u64;
        let data = match s.goal {
            None => meta_data(1, 0, size, s.t.meta_block(0).unwrap()),
            Some(k) => piece_msg(k as u32, 0, &s.t.piece(k)[..s.t.piece(k).len().min(BLOCK as usize)]),
        };
        let good = [handshake(&s.t.hash), frame(5, &[0xe0]), ext_handshake(3, size, 1), frame(1, &[]), data].concat();
        let offs: Vec<usize> = (0..=good.len()).filter(|o| *o < 330 || *o + 3 > good.len() || o % 1777 == 0).collect();
        ctx.enumerate(&format!("sessions cut short: {}", s.name), (offs.len() * tails.len()) as u64, |i, c| {
            let d = digits(i, &[offs.len(), tails.len()]);
            c.text(format!("{}: good session of {} bytes up to byte {}, then {}", s.name, good.len(), offs[d[0]], tails[d[1]].0));
            given_back(c, &mut || script(s, &[Act::Send(good[..offs[d[0]]].to_vec())], &tails[d[1]].1))
        });
        let (menu, st) = (hostile_menu(s), starts(s));
        let depth = if s.name.starts_with("small") { ctx.pick(2, 3) } else { ctx.pick(1, 2) };
        let mut radix = vec![menu.len(); depth];
        radix.extend([st.len(), 2]);
        ctx.enumerate(&format!("hostile sessions: {}", s.name), product(&radix), |i, c| {
            let d = digits(i, &radix);
            let (start, tail) = (&st[d[depth]], &tails[d[depth + 1]]);
            c.text(format!("{}: {}: {}, then {}", s.name, start.0, d[..depth].iter().map(|k| menu[*k].0).collect::<Vec<_>>().join(", "), tail.0));
            let acts: Vec<Act> = start.1.iter().cloned().chain(d[..depth].iter().map(|k| menu[*k].1.clone())).collect();
            given_back(c, &mut || script(s, &acts, &tail.1))
        });
    }
    // no session at all, and the test whether there is anyone
    let radix = [4usize, 3];
    ctx.enumerate("connections", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let s = &ss[0];
        c.text(format!("connection {}, {}", ["refused", "unanswered", "accepted late", "accepted"][d[0]], ["for metadata", "for a piece", "to see whether it is accepted"][d[1]]));
        let how = d[0];
        given_back(c, &mut || {
            let mut os = Os::new();
            os.time_limit = os.now + TIME_BOUND;
            let t = s.t.clone();
            os.net = Some(Box::new(OnePeer(Box::new(move |_| match how {
                0 => Connect::Refused,
                1 => Connect::TimedOut,
                k => Connect::Slow([490, 0][k - 2] * MS, Box::new(Scripted::new(&t, None, vec![], Tail::Silent))),
            }))));
            with_os(&mut os, || {
                cut(|| match d[1] {
                    0 => drop(fetch(ENDPOINT, &s.t, None, None)),
                    1 => drop(fetch(ENDPOINT, &s.t, Some(&s.info), Some(0))),
                    _ => drop(rust_bit::verif::tracker::peer_endpoint::PeerEndpoint::is_reachable(ENDPOINT)),
                })
            })
            .map_err(|p| p.fail())
        })
    });
}
