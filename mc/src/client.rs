//! C14, C15, C18, C26, C28, C29, C30, C31: properties of the whole client, and C19 at that level.
use crate::util::*;
use crate::world::*;
use sim::ensure;
use sim::fnv;
use sim::os::*;
use sim::runner::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn specs() -> Vec<Spec> {
    let spec = |id, rule, run| Spec { id, level: "model_checking", rule, assumptions: ASSUME, run };
    vec![
        spec("C14", "the real actors under a controlled scheduler: every order (up to a deviation bound from three default orders) in which workers finish, peers are announced and messages pile up, times every pattern of piece failures up to a bound", c14 as fn(&mut Ctx)),
        spec("C15", "complete downloads of every layout of a menu through the real actors, sessions and writer, under every order of events up to a deviation bound; writers that are busy at once, in every order of their file system calls", c15),
        spec("C18", "complete downloads in which the explorer lets any disk operations (up to a bound) fail with any error of a menu or take only part of the data; and every such fault on storing single pieces", c18),
        spec("C19", "every crash point and torn length while metadata is saved, every prefix and zero-filled tail of a cache file, a menu of garbage and unusable locations, each followed by a run that must complete and repair", c19),
        spec("C26", "every pattern (up to a bound) of piece failures, announcements and random choices; each request that follows a failure is checked against the failure counts at that moment", c26),
        spec("C28", "downloads from peers that misbehave in every way of a menu (up to a bound), under every order of events up to a bound; the whole disk is compared with the torrent before and after every disk operation", c28),
        spec("C29", "a kill at every disk operation of a run with every torn length of a menu, under every order of events up to a bound, then a second run in the same directory", c29),
        spec("C30", "two torrents at once with common and separate peers, under every order of events and pattern of failures up to a bound; writers of several torrents that are busy at once, in every order of their file system calls", c30),
        spec("C31", "one torrent added two or three times at once, during and after its download, under every order of events and pattern of failures up to a bound, the disk compared with the torrent before and after every operation; writers of the additions that are busy at once, and savers and readers of the metadata cache, in every order of their file system calls", c31),
    ]
}

pub const ASSUME: &[&str] = &[
    "a sync worker's handler takes effect at one instant (workers share no memory; they only report at their end), except in the spaces of writers at once",
    "actix's mailboxes and arbiter run unmodified; the threads of SyncArbiter are replaced by the scheduler",
    "peers' conduct inside a session is covered by the session checks; here a request is answered well or in one of eight bad ways",
];

pub const BAD: &[Mood] = &[Mood::Good, Mood::Close, Mood::Corrupt, Mood::Silent, Mood::Reset, Mood::Short, Mood::OtherPiece, Mood::Choke, Mood::Another];
pub const BAD3: &[Mood] = &[Mood::Good, Mood::Close, Mood::Corrupt];

pub fn count(c: &mut Case, r: &Report) {
    use std::hash::{Hash, Hasher};
    c.steps(r.steps.len() as u64);
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    for s in &r.steps {
        s.hash(&mut h);
        c.state(h.finish());
    }
    for (step, who, what) in &r.seen {
        (step, who, what).hash(&mut h);
    }
    c.nontrivial(h.finish());
}

/// Every piece stored, each asked for exactly once more than it failed.
pub fn complete(plan: &[Share], r: &Report) -> Result<(), Fail> {
    r.no_panic()?;
    ensure!(!r.unfinished, "download does not finish", "{} steps: {}", r.steps.len(), r.trace());
    let mut asks = std::collections::HashMap::<(usize, usize), (usize, usize)>::new();
    for (_, _, e) in &r.seen {
        if let Seen::Piece(k, p, m) = e {
            let n = asks.entry((*k, *p)).or_default();
            n.0 += 1;
            n.1 += (*m != Mood::Good) as usize;
        }
    }
    for (k, s) in plan.iter().enumerate() {
        for p in 0..s.t.count() {
            let (asked, failed) = asks.get(&(k, p)).copied().unwrap_or((0, 0));
            ensure!(asked > 0, "piece never requested", "piece {p} of {}: {}", s.t.count(), r.trace());
            ensure!(asked > failed, "failed piece not requested again", "piece {p}: {}", r.trace());
            ensure!(asked == failed + 1, "stored piece requested again", "piece {p}: {}", r.trace());
        }
    }
    Ok(())
}

pub fn stored(plan: &[Share], r: &Report) -> Result<(), Fail> {
    for s in plan {
        if let Err(e) = s.finished(&r.disk) {
            return fail("finished download differs from the torrent", format!("{e}: {}", r.trace()));
        }
    }
    Ok(())
}

/// `dfs` of configurations 0..n, each spread over all workers.
fn family(ctx: &mut Ctx, space: &str, n: u64, bound: u32, mut f: impl FnMut(u64, &mut Case) -> Result<(), Fail>) {
    for i in 0..n {
        ctx.dfs_idx(space, i, bound, &mut |c| f(i, c));
    }
}

fn c14(ctx: &mut Ctx) {
    // torrents of many pieces
    let sizes = [65_537usize, 4_097, 1_025, 513, 300, 257];
    let rad = [sizes.len(), 2, 3];
    ctx.dfs_family("many pieces", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        if d[0] == 0 && d[1] + d[2] > 0 {
            c.outcome("skipped");
            return Ok(());
        }
        let n = sizes[d[0]];
        c.text(format!("{n} pieces, {}, {:?}", ["one good peer", "a good peer and one that fails now and then"][d[1]], POLICIES[d[2]]));
        let mut peers = vec![PeerCfg::good(0)];
        if d[1] == 1 {
            peers.insert(0, PeerCfg::with(1, Moods::Warm(3, Mood::Corrupt)));
        }
        go(Plan { policy: POLICIES[d[2]], explore: false, max_steps: 4 * n + 100, ..Plan::new(vec![Share::single("f", 1, n)], peers) }, c).map(|_| ())
    });
    // orders of events with one good peer
    let sizes = [1usize, 2, 3, 4, 5, 6, 7, 8, 12];
    let bound = ctx.pick(2, 3);
    family(ctx, "orders", sizes.len() as u64 * 3, bound, |i, c| {
        let d = digits(i, &[sizes.len(), 3]);
        let n = sizes[d[0]];
        c.text(format!("{n} pieces, one good peer, {:?}", POLICIES[d[1]]));
        let shares = vec![Share::single("f", 8, 8 * n - 3)];
        let plan = Plan { policy: POLICIES[d[1]], burst: true, ..Plan::new(shares, vec![PeerCfg::good(0)]) };
        go(plan, c).map(|_| ())
    });
    // the explorer decides which requests fail, and how
    let sizes = [1usize, 2, 5, 7];
    for (space, bad, bound) in [("failures", BAD3, ctx.pick(2, 3)), ("kinds of failure", BAD, ctx.pick(1, 2))] {
        family(ctx, space, sizes.len() as u64 * 2 * 3, bound, |i, c| {
            let d = digits(i, &[sizes.len(), 2, 3]);
            let n = sizes[d[0]];
            c.text(format!("{n} pieces, {} peers that fail as decided, {:?}", d[1] + 1, POLICIES[d[2]]));
            let shares = vec![Share::single("f", 8, 8 * n - 3)];
            let peers = (0..=d[1]).map(|k| PeerCfg::with(k, Moods::Explore(bad))).collect();
            go(Plan { policy: POLICIES[d[2]], burst: true, cached: true, ..Plan::new(shares, peers) }, c).map(|_| ())
        });
    }
    // more announcements and results than a mailbox holds
    let bound = ctx.pick(1, 2);
    family(ctx, "floods", 3 * 2 * 3, bound, |i, c| {
        let d = digits(i, &[3, 2, 3]);
        let n = [1usize, 5, 7][d[0]];
        c.text(format!("{n} pieces, 2 good peers announced before or after 20 bad ones, {:?}", POLICIES[d[2]]));
        let mut peers: Vec<PeerCfg> = (1..21).map(|k| PeerCfg { refuse: Some(false), ..PeerCfg::good(k) }).collect();
        let good = PeerCfg::with(0, Moods::Explore(&[Mood::Good, Mood::Close]));
        peers.insert([0, 20][d[1]], good);
        peers.push(PeerCfg::good(30));
        let shares = vec![Share::single("f", 8, 8 * n - 3)];
        go(Plan { policy: POLICIES[d[2]], burst: true, cached: true, max_steps: 1000, ..Plan::new(shares, peers) }, c).map(|_| ())
    });
    // everything at one moment of the download: announcements and results
    let rad = [4usize, 3, 4, 3, 12];
    ctx.dfs_family("sudden floods", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        let (n, at) = ([1usize, 5, 7, 20][d[0]], d[4] + 1);
        let bad = [17usize, 40, 130][d[1]];
        let good = [Moods::Always(Mood::Good), Moods::First(1, Mood::Close), Moods::First(1, Mood::Corrupt), Moods::First(3, Mood::Close)][d[2]].clone();
        c.text(format!("{n} pieces, a peer {good:?}, then {bad} bad ones; all there is comes at step {at}, {:?}", POLICIES[d[3]]));
        let mut peers = vec![PeerCfg::with(0, good)];
        peers.extend((1..=bad).map(|k| PeerCfg { refuse: Some(false), ..PeerCfg::good(k) }));
        peers.push(PeerCfg::good(500));
        let shares = vec![Share::single("f", 8, 8 * n - 3)];
        go(Plan { policy: POLICIES[d[3]], explore: false, burst_at: Some(at), cached: d[4] % 2 == 0, max_steps: 3000, ..Plan::new(shares, peers) }, c).map(|_| ())
    });
    // long runs of failures
    let moods = &BAD[1..];
    let sizes = [1usize, 4, 6, 9];
    let rad = [sizes.len(), moods.len(), 6, 4, 3, 2];
    let bound = ctx.pick(0, 1);
    ctx.dfs_family("many failures", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let n = sizes[d[0]];
        let how = match d[3] {
            0 => Moods::First(d[2] + 1, moods[d[1]]),
            1 => Moods::Warm(3 * d[2] + 1, moods[d[1]]),
            2 => Moods::First(1, moods[d[1]]),
            _ => Moods::Pieces(&[0, 3], moods[d[1]]),
        };
        let mut peers: Vec<PeerCfg> = (0..=d[2] % 3).map(|k| PeerCfg::with(k, how.clone())).collect();
        if d[3] >= 2 {
            peers.push(PeerCfg::good(9));
        }
        c.text(format!("{n} pieces, {} peers, the first {how:?}, {:?}, shuffle {}", peers.len(), POLICIES[d[4]], d[5]));
        let shares = vec![Share::single("f", 8, 8 * n - 3)];
        go(Plan { policy: POLICIES[d[4]], shuffle: d[5], max_steps: 1000, cached: true, ..Plan::new(shares, peers) }, c).map(|_| ())
    });
    // announcements: peers without metadata, unreachable ones, repeated ones, many
    let rad = [4usize, 5, 3, 3];
    let bound = ctx.pick(1, 2);
    ctx.dfs_family("announcements", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let n = [1usize, 3, 6, 11][d[0]];
        let mut peers = vec![PeerCfg::good(0), PeerCfg::good(1), PeerCfg::with(2, Moods::Always(Mood::Close)), PeerCfg::good(3)];
        peers[1].meta = Moods::Always(Mood::Close);
        peers[2].meta = Moods::Always(Mood::Corrupt);
        peers[3].refuse = Some(true);
        let order: Vec<usize> = match d[1] {
            0 => vec![3, 1, 2, 0],
            1 => vec![0, 1, 2, 3],
            2 => vec![1, 1, 0, 1, 0],
            3 => vec![2, 3, 2, 3, 0, 2, 3],
            _ => (0..40).map(|k| [3, 2, 1][k % 3]).chain([0, 0]).collect(),
        };
        c.text(format!("{n} pieces, peers announced {order:?}, {:?}, mood {}", POLICIES[d[2]], d[3]));
        let shares = vec![Share::single("f", 8, 8 * n - 3)];
        if d[3] > 0 {
            peers[0].piece = Moods::First(d[3], Mood::Reset);
        }
        let found = order.iter().map(|k| (0, peers[*k].at)).collect();
        go(Plan { policy: POLICIES[d[2]], found, burst: d[1] != 4, max_steps: 1000, ..Plan::new(shares, peers) }, c).map(|_| ())
    });
}

/// Runs a plan that must end with everything stored.
fn go(plan: Plan, c: &mut Case) -> Result<Report, Fail> {
    let s = plan.shares.clone();
    let r = run(plan);
    count(c, &r);
    complete(&s, &r)?;
    stored(&s, &r)?;
    Ok(r)
}

/// File layouts: name, piece length, files, single.
fn layouts() -> Vec<Share> {
    let m = |name: &str, pl: usize, files: &[(&str, usize)]| Share::new(name, pl, files, false);
    vec![
        Share::single("one", 8, 1),
        Share::single("exact", 8, 24),
        Share::single("more", 8, 25),
        Share::single("blocks", 20000, 50000),
        m("two", 8, &[("a", 8), ("b", 8)]),
        m("cross", 8, &[("a", 5), ("b", 14)]),
        m("tiny", 8, &[("a", 1), ("b", 1), ("c", 1), ("d/e", 1), ("d/f", 9)]),
        m("empty", 8, &[("z0", 0), ("a", 8), ("z1", 0), ("b", 3), ("z2", 0)]),
        m("empties", 4, &[("a", 4), ("z1", 0), ("z2", 0), ("b", 4), ("x/y/z", 0)]),
        m("deep", 8, &[("x/y/z/a", 20), ("x/b", 3), ("x/y/c", 9)]),
        m("span", 16, &[("a", 3), ("b", 30), ("c", 3), ("e", 20)]),
        m("big", 16384, &[("a", 16384), ("b", 16385), ("c", 1)]),
        m("unit", 1, &[("a", 2), ("b", 0), ("c", 3)]),
        m("solo", 8, &[("only", 13)]),
    ]
}

fn c15(ctx: &mut Ctx) {
    let n = layouts().len();
    let rad = [n, 3, 3];
    let bound = ctx.pick(2, 3);
    family(ctx, "layouts", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let share = layouts().swap_remove(d[0]);
        c.text(format!("layout {:?} of piece length {}, {:?}, peers {}", share.files, share.t.pl, POLICIES[d[1]], d[2]));
        let peers = match d[2] {
            0 => vec![PeerCfg::good(0)],
            1 => vec![PeerCfg::with(0, Moods::First(1, Mood::Corrupt)), PeerCfg::good(1)],
            _ => vec![PeerCfg::with(0, Moods::Always(Mood::Short)), PeerCfg::good(1), PeerCfg::with(2, Moods::Pieces(&[1], Mood::Silent))],
        };
        go(Plan { policy: POLICIES[d[1]], burst: d[2] == 0, ..Plan::new(vec![share], peers) }, c).map(|_| ())
    });
    // every layout of small files
    let lens = [0usize, 1, 2, 3, 4, 5, 8, 9];
    let rad = [8usize, 8, 8, 4];
    ctx.dfs_family("small layouts", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        let v = [lens[d[0]], lens[d[1]], lens[d[2]]];
        if v.iter().sum::<usize>() == 0 {
            return Ok(());
        }
        let pl = [1usize, 2, 4, 7][d[3]];
        let share = Share::new("small", pl, &[("a", v[0]), ("d/b", v[1]), ("c", v[2])], false);
        c.text(format!("files {v:?}, piece length {pl}"));
        go(Plan { policy: POLICIES[i as usize % 3], explore: false, ..Plan::new(vec![share], vec![PeerCfg::good(0)]) }, c).map(|_| ())
    });
    // many pieces
    let counts = [99usize, 100, 128, 255, 256, 257, 300, 511, 513, 1000, 1025];
    let rad = [counts.len(), 3, 3];
    ctx.dfs_family("many pieces", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        let pl = [1usize, 3][d[0] % 2];
        let share = Share::single("long", pl, counts[d[0]] * pl - pl / 2);
        c.text(format!("{} pieces of {pl}, {:?}, peers {}", counts[d[0]], POLICIES[d[1]], d[2]));
        let peers = match d[2] {
            0 => vec![PeerCfg::good(0)],
            1 => vec![PeerCfg::with(0, Moods::First(1, Mood::Close))],
            _ => vec![PeerCfg::with(0, Moods::Always(Mood::Corrupt)), PeerCfg::good(1)],
        };
        go(Plan { policy: POLICIES[d[1]], explore: false, max_steps: 20_000, ..Plan::new(vec![share], peers) }, c).map(|_| ())
    });
    // many files
    let rad = [7, 4, 3, 2];
    ctx.dfs_family("many files", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        let (n, pl) = ([10usize, 33, 65, 101, 129, 257, 300][d[0]], [16usize, 100, 1000, 20000][d[1]]);
        let lens: &[usize] = [&[3, 0, 1, 7, 16][..], &[1]][d[3]];
        let names: Vec<String> = (0..n).map(|k| if k % 2 == 0 { format!("d{}/f{k}", k % 3) } else { format!("f{k}") }).collect();
        let files: Vec<(&str, usize)> = (0..n).map(|k| (names[k].as_str(), lens[k % lens.len()])).collect();
        c.text(format!("{n} files, piece length {pl}, {:?}", POLICIES[d[2]]));
        let peers = vec![PeerCfg::with(0, Moods::First(1, Mood::Close)), PeerCfg::good(1)];
        go(Plan { policy: POLICIES[d[2]], explore: false, max_steps: 2000, ..Plan::new(vec![Share::new("many", pl, &files, false)], peers) }, c).map(|_| ())
    });
    // where several writers of a torrent can be busy at the same time
    writers(
        ctx,
        "writers at once",
        &[
            || vec![Share::single("one", 8, 25)],
            || vec![Share::new("cross", 8, &[("a", 5), ("b", 12)], false)],
            || vec![Share::new("deep", 8, &[("x/y/z/a", 13), ("x/y/b", 9)], false)],
            || vec![Share::new("empty", 4, &[("z0", 0), ("x/a", 7), ("x/z1", 0), ("b", 4)], false)],
        ],
    );
}

/// Writers (of one or several torrents) that are busy at the same time, in every order of their
/// file system calls.
fn writers(ctx: &mut Ctx, space: &str, sets: &[fn() -> Vec<Share>]) {
    let rad = [sets.len(), 2];
    family(ctx, space, product(&rad), ctx.pick(2, 4), |i, c| {
        let d = digits(i, &rad);
        let all: Vec<usize> = (0..sets[d[0]]().len()).collect();
        let shares = sets[d[0]]();
        c.text(format!("{:?}, {:?}", shares.iter().map(|s| (&s.files, s.t.pl)).collect::<Vec<_>>(), POLICIES[2 * d[1]]));
        let seen: Rc<RefCell<Vec<(Vec<bool>, Option<String>)>>> = Rc::new(RefCell::new(shares.iter().map(|_| (vec![], None)).collect()));
        let (watch, shown) = (sets[d[0]](), seen.clone());
        let mut plan = Plan::new(shares, vec![PeerCfg { serves: all, ..PeerCfg::good(0) }]);
        plan.together = Some(Box::new(move || watch.iter().zip(shown.borrow_mut().iter_mut()).for_each(|(s, seen)| look(s, seen))));
        let plan = Plan { policy: POLICIES[2 * d[1]], explore: false, cached: true, ..plan };
        let s = plan.shares.clone();
        let r = run(plan);
        count(c, &r);
        if s.len() == 1 || s[0].t.hash != s[1].t.hash {
            complete(&s, &r)?;
        }
        r.no_panic()?;
        ensure!(!r.unfinished, "download does not finish", "{}", r.trace());
        stored(&s, &r)?;
        if let Some(e) = seen.borrow().iter().find_map(|s| s.1.clone()) {
            return fail("wrong bytes on the disk", format!("{e}: {}", r.trace()));
        }
        c.outcome(format!("{} overlaps", r.steps.iter().filter(|s| matches!(s, Step::Writers(..))).count()));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------ disk

const ERRNOS: [i32; 6] = [libc::ENOSPC, libc::EACCES, libc::EIO, libc::EINTR, libc::EROFS, libc::EMFILE];

fn faulty() -> Fs {
    let mut fs = Fs::new(&cwd());
    fs.fault = Some(Box::new(|op: &FsOp| {
        let partial = if op.kind == "write" && op.len > 1 { 3 } else { 0 };
        match sim::explore::choose(1 + ERRNOS.len() + partial) {
            0 => FsAnswer::Normal,
            k if k <= ERRNOS.len() => FsAnswer::Errno(ERRNOS[k - 1]),
            k => FsAnswer::Short([0, 1, op.len - 1][k - 1 - ERRNOS.len()]),
        }
    }));
    fs
}

fn c18(ctx: &mut Ctx) {
    let make = |k: usize| match k {
        0 => Share::single("f", 8, 13),
        1 => Share::new("m", 8, &[("a", 5), ("d/b", 9), ("z", 0)], false),
        _ => Share::single("f", 4, 27),
    };
    let rad = [3usize, 3];
    let bound = ctx.pick(2, 3);
    family(ctx, "faults during a download", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let share = make(d[0]);
        c.text(format!("files {:?}, piece length {}, {:?}", share.files, share.t.pl, POLICIES[d[1]]));
        // metadata is there already, so that the faults hit the torrent's files
        let plan = Plan { explore: false, ..Plan::new(vec![make(d[0])], vec![PeerCfg::good(0)]) };
        let r0 = run(plan);
        r0.no_panic()?;
        ensure!(r0.disk.contains_key(&share.cache()), "no metadata cache", "{:?}", r0.disk.keys());
        sim::os::real(|| share.files.iter().for_each(|f| drop(std::fs::remove_file(&f.0))));
        let plan = Plan { policy: POLICIES[d[1]], explore: d[0] == 2, keep: true, fs: Some(faulty()), ..Plan::new(vec![share], vec![PeerCfg::good(0)]) };
        let s = plan.shares.clone();
        let r = run(plan);
        count(c, &r);
        r.no_panic()?;
        ensure!(!r.unfinished, "download does not finish", "{}", r.trace());
        stored(&s, &r)
    });
    // faults while the metadata is saved as well
    family(ctx, "faults from the start", 2, ctx.pick(1, 2), |i, c| {
        let share = make(i as usize);
        c.text(format!("files {:?}, nothing on the disk", share.files));
        let plan = Plan { explore: false, fs: Some(faulty()), ..Plan::new(vec![share], vec![PeerCfg::good(0)]) };
        let s = plan.shares.clone();
        let r = run(plan);
        count(c, &r);
        r.no_panic()?;
        ensure!(!r.unfinished, "download does not finish", "{}", r.trace());
        stored(&s, &r)
    });
    // storing one piece: success means the bytes are there, failure can be retried
    #[cfg(feature = "faults")]
    family(ctx, "storing a piece", 9, ctx.pick(2, 3), |i, c| {
        wipe();
        let share = make(i as usize % 3);
        let p = (i as usize / 3).min(share.t.count() - 1);
        c.text(format!("piece {p} of files {:?}, piece length {}", share.files, share.t.pl));
        let info = share.t.parsed();
        let mut os = Os::new();
        os.fs = Some(faulty());
        let mut tries = 0;
        loop {
            let r = with_os(&mut os, || {
                cut(|| rust_bit::verif::torrent::write(share.t.piece(p).to_vec(), p, info.get_files().unwrap(), share.t.pl as usize).map_err(|e| e.to_string()))
            })
            .map_err(|p| p.fail())?;
            tries += 1;
            c.steps(1);
            let done = share.stored(&disk())[p];
            if r.is_ok() {
                ensure!(done, "piece reported as stored is not on the disk", "try {tries}");
                break;
            }
            ensure!(tries < 20, "storing keeps failing without a fault", "{r:?}");
        }
        let d = disk();
        share.clean(&d).or_else(|e| fail("wrong bytes on the disk", e))?;
        c.outcome(format!("{tries} tries"));
        c.nontrivial(fnv(format!("{i} {:?}", sim::explore::current_choices()).as_bytes()));
        Ok(())
    });
}

fn c19(ctx: &mut Ctx) {
    let make = |k: usize| match k {
        0 => Share::single("f", 8, 13),
        _ => Share::new("m", 8, &[("a", 5), ("d/b", 9), ("\u{e4}\u{4e16}", 3)], false),
    };
    // what an undisturbed run leaves
    let intact = |k: usize| -> Vec<u8> {
        let plan = Plan { explore: false, ..Plan::new(vec![make(k)], vec![PeerCfg::good(0)]) };
        run(plan).disk.get(&make(k).cache()).cloned().unwrap_or_default()
    };
    let caches = [intact(0), intact(1)];
    // a run over what is there, then one with peers that hand out no metadata
    let then = |k: usize, repairs: bool, c: &mut Case| -> Result<(), Fail> {
        let clear = || real(|| make(k).files.iter().for_each(|f| drop(std::fs::remove_file(&f.0))));
        let r = go(Plan { explore: false, keep: true, ..Plan::new(vec![make(k)], vec![PeerCfg::good(0)]) }, c)?;
        c.outcome(if r.seen.iter().any(|s| matches!(s.2, Seen::Meta(_))) { "metadata fetched again" } else { "cache used" });
        if repairs {
            clear();
            let mut p = PeerCfg::good(0);
            p.meta = Moods::Always(Mood::Close);
            let r = go(Plan { explore: false, keep: true, ..Plan::new(vec![make(k)], vec![p]) }, c)
                .or_else(|f| fail("cache not repaired", format!("{}: {}", f.sig, f.msg)))?;
            ensure!(!r.seen.iter().any(|s| matches!(s.2, Seen::Meta(_))), "intact cache not used", "{}", r.trace());
        }
        Ok(())
    };
    let put = |k: usize, bytes: &[u8]| {
        wipe();
        real(|| {
            std::fs::create_dir_all("downloads").unwrap();
            std::fs::write(make(k).cache(), bytes).unwrap();
        })
    };
    // the metadata of large torrents
    let counts = [100usize, 1000, 3000, 10_000, 30_000, 100_000];
    ctx.enumerate("large caches", counts.len() as u64, |i, c| {
        let n = counts[i as usize];
        let large = || Share::single("f", 1, n);
        c.text(format!("the cache that a run for {n} pieces leaves"));
        c.nontrivial(i);
        let mut p = PeerCfg::good(0);
        p.piece = Moods::Always(Mood::Close);
        let r = run(Plan { explore: false, max_steps: 12, ..Plan::new(vec![large()], vec![p.clone()]) });
        ensure!(r.disk.contains_key(&large().cache()), "metadata not saved", "{}", r.trace());
        p.meta = Moods::Always(Mood::Close);
        p.piece = Moods::Always(Mood::Good);
        let r = run(Plan { explore: false, keep: true, max_steps: 12, ..Plan::new(vec![large()], vec![p]) });
        r.no_panic()?;
        ensure!(!r.seen.iter().any(|s| matches!(s.2, Seen::Meta(_))), "intact cache not used", "{}", r.trace());
        ensure!(r.seen.iter().any(|s| matches!(s.2, Seen::Piece(..))), "no piece asked for", "{}", r.trace());
        c.outcome("large cache used");
        Ok(())
    });
    ctx.enumerate("a cache is left", 2, |k, c| {
        c.text(format!("an undisturbed run {k}"));
        c.nontrivial(k);
        ensure!(caches[k as usize].len() > 1, "metadata not saved", "{} bytes", caches[k as usize].len());
        Ok(())
    });
    for k in (0..2).filter(|k| caches[*k].len() > 1) {
        let cache = caches[k].clone();
        let n = cache.len() as u64;
        ctx.enumerate(&format!("prefixes of cache {k}"), n + 1, |i, c| {
            c.text(format!("the first {i} of {n} bytes are there"));
            put(k, &cache[..i as usize]);
            then(k, true, c)
        });
        ctx.enumerate(&format!("zero-filled tails of cache {k}"), n, |i, c| {
            c.text(format!("bytes from {i} on of {n} are zero"));
            let mut b = cache.clone();
            b[i as usize..].fill(0);
            put(k, &b);
            then(k, true, c)
        });
        let steps = ctx.pick(4u64, 1);
        ctx.enumerate(&format!("zero-filled heads and holes of cache {k}"), 2 * n.div_ceil(steps), |i, c| {
            let at = ((i / 2) * steps) as usize;
            let mut b = cache.clone();
            if i % 2 == 0 {
                b[..at + 1].fill(0);
            } else {
                let end = (at + 4).min(b.len());
                b[at..end].fill(0);
            }
            c.text(format!("hole at {at}, kind {}", i % 2));
            put(k, &b);
            then(k, true, c)
        });
        let garbage: Vec<Vec<u8>> = vec![
            b"".to_vec(), b"null".to_vec(), b"{}".to_vec(), b"[]".to_vec(), b"0".to_vec(), b"\"x\"".to_vec(), b"\n".to_vec(),
            b"\xff\xfe\x00".to_vec(), vec![0; 4096], vec![b'['; 200_000], vec![b'{'; 1000], b"{\"name\":".repeat(300),
            b"{\"pieces\":[],\"piece_length\":0,\"name\":\"x\",\"files\":null,\"length\":null}".to_vec(),
            b"{\"pieces\":[1,2,3],\"piece_length\":8,\"name\":\"x\",\"files\":null,\"length\":24}".to_vec(),
            b"{\"pieces\":[],\"piece_length\":0,\"name\":\"x\",\"files\":[],\"length\":null}".to_vec(),
            b"{\"pieces\":[],\"piece_length\":8,\"name\":\"../x\",\"files\":null,\"length\":5}".to_vec(),
            b"{\"pieces\":[],\"piece_length\":8,\"name\":\"x\",\"files\":null,\"length\":18446744073709551615}".to_vec(),
            make(k).t.info.clone(), cache[..cache.len() - 1].to_vec(), [cache.clone(), cache.clone()].concat(), [cache.clone(), b"x".to_vec()].concat(),
            [b"\xef\xbb\xbf".to_vec(), cache.clone()].concat(),
        ];
        ctx.enumerate(&format!("garbage in cache {k}"), garbage.len() as u64, |i, c| {
            c.text(format!("cache holds {}", sim::show(&garbage[i as usize])));
            put(k, &garbage[i as usize]);
            then(k, true, c)
        });
        ctx.enumerate(&format!("unusable locations {k}"), 6, |i, c| {
            use std::os::unix::fs::PermissionsExt;
            put(k, &cache[..(n / 2) as usize]);
            let mode = |p: &str, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
            let file = make(k).cache();
            real(|| match i {
                0 => mode(&file, 0),
                1 => mode(&file, 0o400),
                2 => mode("downloads", 0o500),
                3 => mode("downloads", 0),
                4 => {
                    std::fs::remove_file(&file).unwrap();
                    std::fs::create_dir(&file).unwrap();
                }
                _ => {
                    std::fs::remove_dir_all("downloads").unwrap();
                    std::fs::write("downloads", b"not a directory").unwrap();
                }
            });
            c.text(format!("unusable location, kind {i}"));
            then(k, false, c)
        });
        // crashes while it is saved
        let n = {
            let plan = Plan { explore: false, ..Plan::new(vec![make(k)], vec![PeerCfg::good(0)]) };
            run(plan).ops
        };
        ctx.enumerate(&format!("crash while saving {k}"), (n + 1) * 4, |i, c| {
            let mut fs = Fs::new(&cwd());
            fs.crash_at = Some(i / 4);
            fs.torn = [0usize, 1, 2, 7][i as usize % 4];
            c.text(format!("killed at disk operation {} of {n}, {} bytes of it done", i / 4, fs.torn));
            let r = run(Plan { explore: false, fs: Some(fs), ..Plan::new(vec![make(k)], vec![PeerCfg::good(0)]) });
            r.no_panic()?;
            then(k, true, c)
        });
    }
    wipe();
}

// ----------------------------------------------------------------------------------------- peers

/// Which endpoint each download went to and whether it failed, by step.
fn judge_choice(r: &Report) -> Result<(), Fail> {
    use std::collections::HashMap;
    let Some(pool) = r.steps.iter().find_map(|s| if let Step::Download { pool, .. } = s { Some(*pool) } else { None }) else {
        return Ok(());
    };
    let mut known: Vec<std::net::SocketAddrV4> = vec![];
    let mut fails: HashMap<std::net::SocketAddrV4, usize> = HashMap::new();
    // failure counts and known peers when a request was made; None: not subject to the rule
    let mut made: HashMap<u64, (Vec<std::net::SocketAddrV4>, HashMap<std::net::SocketAddrV4, usize>)> = HashMap::new();
    for (k, step) in r.steps.iter().enumerate() {
        let mut after_failure = true;
        match step {
            Step::Found(_, a) => known.push(*a),
            Step::Download { seq, .. } => {
                let seen = &r.seen[r.seen.partition_point(|x| x.0 < k)..r.seen.partition_point(|x| x.0 <= k)];
                let to = seen.iter().find(|x| x.2 == Seen::Connect).map(|x| x.1);
                let Some(to) = to else { return fail("download without a connection", r.trace()) };
                if let Some((known, fails)) = made.get(seq) {
                    let f = |a: &std::net::SocketAddrV4| fails.get(a).copied().unwrap_or(0);
                    let best = known.iter().map(f).min().unwrap_or(0);
                    let limit = if best < 2 { 2 } else if best < 4 { 4 } else { usize::MAX };
                    ensure!(
                        f(&to) < limit,
                        "asked a peer that failed repeatedly while a better one was known",
                        "request {seq} went to {to} ({} failures), known peers {:?}: {}",
                        f(&to),
                        known.iter().map(|a| (*a, f(a))).collect::<Vec<_>>(),
                        r.trace()
                    );
                }
                let good = seen.iter().any(|x| matches!(x.2, Seen::Piece(_, _, Mood::Good)));
                after_failure = !good;
                if !good {
                    *fails.entry(to).or_insert(0) += 1;
                }
            }
            _ => {}
        }
        if after_failure {
            let sent = |k: usize| r.sent.get(k).and_then(|s| s.get(pool).copied()).unwrap_or(0);
            let (before, after) = (sent(k), sent(k + 1));
            for q in before..after {
                made.insert(q, (known.clone(), fails.clone()));
            }
        }
    }
    Ok(())
}

fn c26(ctx: &mut Ctx) {
    let judge = |plan: Plan, c: &mut Case| -> Result<(), Fail> {
        let s = plan.shares.clone();
        let r = run(plan);
        count(c, &r);
        r.no_panic()?;
        judge_choice(&r)?;
        complete(&s, &r).or_else(|f| fail("bad peers keep the download from finishing", format!("{}: {}", f.sig, f.msg)))?;
        stored(&s, &r)
    };
    // every pattern of failures and random choices
    let rad = [3usize, 2, 3];
    let bound = ctx.pick(3, 4);
    family(ctx, "failure patterns", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let n = [1usize, 2, 6][d[0]];
        let bad: &'static [Mood] = &[Mood::Good, Mood::Close];
        let peers: Vec<PeerCfg> = (0..d[1] + 2).map(|k| PeerCfg::with(k, Moods::Explore(bad))).collect();
        c.text(format!("{n} pieces, {} peers that fail as decided, {:?}", peers.len(), POLICIES[d[2]]));
        judge(Plan { policy: POLICIES[d[2]], cached: true, ..Plan::new(vec![Share::single("f", 8, 8 * n - 3)], peers) }, c)
    });
    // bad peers among good ones: kinds of badness x numbers x order of announcement
    let moods = &BAD[1..];
    let rad = [moods.len() + 2, 3, 3, 3, 2, 3];
    let bound = ctx.pick(1, 2);
    ctx.dfs_family("bad peers", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let n = [1usize, 5, 8][d[1]];
        let mut peers = vec![];
        for k in 0..=d[2] {
            let mut p = PeerCfg::good(k);
            match d[0] {
                x if x < moods.len() => p.piece = Moods::Always(moods[x]),
                x => p.refuse = Some(x == moods.len()),
            }
            peers.push(p);
        }
        peers.push(PeerCfg::good(9));
        // a peer that is neither
        peers.push(PeerCfg::with(10, Moods::Warm(3, Mood::Close)));
        let mut found: Vec<_> = peers.iter().map(|p| (0, p.at)).collect();
        match d[3] {
            0 => {}
            1 => found.rotate_right(2),
            _ => {
                // announced again by other trackers
                let again = found.clone();
                found.extend(again);
            }
        }
        c.text(format!("{n} pieces, {} bad peers of kind {}, announced {:?}, shuffle {}, {:?}", d[2] + 1, d[0], found.iter().map(|f| f.1).collect::<Vec<_>>(), d[4], POLICIES[d[5]]));
        judge(Plan { policy: POLICIES[d[5]], cached: true, found, shuffle: d[4], max_steps: 1000, ..Plan::new(vec![Share::single("f", 8, 8 * n - 3)], peers) }, c)
    });
    // a peer that failed, served well for a while and fails again when another has come
    let good = [1usize, 2, 3, 5, 8, 10, 16, 20, 32, 50, 64, 100, 128, 256];
    let rad = [7, good.len(), 3, 3, 3];
    ctx.dfs_family("second thoughts", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        let (bad, good) = (d[0], good[d[1]]);
        let peers = vec![
            PeerCfg::with(0, Moods::Turns(vec![(bad, Mood::Close), (good, Mood::Good), (usize::MAX, Mood::Close)])),
            PeerCfg::with(1, Moods::Warm([0, 1, 3][d[2]], Mood::Corrupt)),
        ];
        let at = (1 + bad + good + d[3]).saturating_sub(1);
        c.text(format!("a peer fails {bad} times, serves {good} pieces, then fails for ever; another, failing {} times, comes at step {at}, {:?}", [0, 1, 3][d[2]], POLICIES[d[4]]));
        let plan = Plan { policy: POLICIES[d[4]], cached: true, explore: false, hold: Some((1, [at, 2 * at, 2 * at + 3][d[3]])), max_steps: 5000, ..Plan::new(vec![Share::single("f", 1, good + 9)], peers) };
        judge(plan, c)
    });
    // very many failures are still failures
    let fails: Vec<usize> = (2..11).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101]).chain(126..131).chain(253..261).chain([511, 512, 513, 514, 1000, 1023, 1024, 1025, 4096, 4097]).chain(ctx.pick(65_535..65_539, 65_530..65_545)).collect();
    let rad = [fails.len(), 3, 2];
    ctx.dfs_family("very many failures", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        let (n, late) = (fails[d[0]], [0usize, 1, 3][d[1]]);
        if n > 5000 && d[1] + d[2] > 0 {
            c.outcome("skipped");
            return Ok(());
        }
        let peers = vec![PeerCfg { refuse: Some(false), ..PeerCfg::good(0) }, PeerCfg::with(1, Moods::Warm(late, Mood::Close)), PeerCfg::good(2)];
        c.text(format!("a peer fails {n} times before others come, one of them after {late} failures, shuffle {}", d[2]));
        judge(Plan { cached: true, explore: false, shuffle: d[2], hold: Some((1, n + 1)), max_steps: n + 1000, ..Plan::new(vec![Share::single("f", 8, 45)], peers) }, c)
    });
    // more peers than anybody would look through
    let counts = [17usize, 64, 65, 100, 256, 257, 400];
    let rad = [counts.len(), 3, 3, 2, 3];
    ctx.dfs_family("many bad peers", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        let n = counts[d[0]];
        let mut peers: Vec<PeerCfg> = (0..n)
            .map(|k| PeerCfg {
                refuse: (k % 3 > 0 && d[4] == 0).then_some(false),
                meta: Moods::Always([Mood::Good, Mood::Corrupt, [Mood::Close, Mood::Reset, Mood::Short, Mood::OtherPiece][k % 4]][d[4]]),
                ..PeerCfg::with(k, Moods::Always(Mood::Corrupt))
            })
            .collect();
        peers.insert([0, n / 2, n][d[1]], PeerCfg::good(n));
        c.text(format!("one good peer among {n} bad ones, place {}, {:?}, shuffle {}, {}", d[1], POLICIES[d[2]], d[3], ["metadata known", "metadata falsified by all others", "metadata denied by all others"][d[4]]));
        judge(Plan { policy: POLICIES[d[2]], cached: d[4] == 0, explore: false, shuffle: d[3], max_steps: 10_000, ..Plan::new(vec![Share::single("f", 8, 21)], peers) }, c)
    });
}

// -------------------------------------------------------------------------------------- hostility

fn c28(ctx: &mut Ctx) {
    let make = |k: usize| match k {
        0 => Share::single("f", 8, 13),
        1 => Share::new("m", 8, &[("a", 5), ("d/b", 9), ("z", 0), ("c", 7)], false),
        _ => Share::single("g", 20000, 45000),
    };
    let bound = ctx.pick(3, 4);
    let rad = [3usize, 3, 2];
    family(ctx, "hostile peers", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let share = make(d[0]);
        c.text(format!("files {:?}, piece length {}, {} peers that answer as decided, {:?}", share.files, share.t.pl, d[2] + 1, POLICIES[d[1]]));
        let peers = (0..=d[2]).map(|k| PeerCfg::with(k, Moods::Explore(BAD))).collect();
        // watched: the disk before every operation that changes it
        let seen = std::rc::Rc::new(std::cell::RefCell::new((vec![], None::<String>)));
        let mut fs = Fs::new(&cwd());
        let (watch, shown) = (make(d[0]), seen.clone());
        let looks = std::rc::Rc::new(std::cell::Cell::new(0u64));
        let l2 = looks.clone();
        fs.fault = Some(Box::new(move |op| {
            if !op.path.contains("/downloads/") {
                l2.set(l2.get() + 1);
                look(&watch, &mut shown.borrow_mut());
            }
            FsAnswer::Normal
        }));
        let plan = Plan { policy: POLICIES[d[1]], fs: Some(fs), ..Plan::new(vec![make(d[0])], peers) };
        let s = plan.shares.clone();
        let r = run(plan);
        look(&share, &mut seen.borrow_mut());
        c.conformance(looks.get());
        count(c, &r);
        if let Some(e) = &seen.borrow().1 {
            return fail("wrong bytes on the disk", format!("{e}: {}", r.trace()));
        }
        r.no_panic()?;
        complete(&s, &r)?;
        stored(&s, &r)
    });
}

fn look(share: &Share, seen: &mut (Vec<bool>, Option<String>)) {
    let d = disk();
    if let Err(e) = share.clean(&d) {
        seen.1.get_or_insert(e);
    }
    let now = share.stored(&d);
    if let Some(p) = (0..seen.0.len()).find(|p| seen.0[*p] && !now[*p]) {
        seen.1.get_or_insert(format!("piece {p} was on the disk and no longer is"));
    }
    seen.0 = now;
}

fn c29(ctx: &mut Ctx) {
    let make = |k: usize| match k {
        0 => Share::single("f", 8, 21),
        1 => Share::new("m", 8, &[("a", 5), ("d/b", 9), ("z", 0), ("c", 7)], false),
        2 => Share::new("e", 4, &[("z0", 0), ("a", 4), ("x/y/b", 9)], false),
        _ => Share::single("g", 20000, 45000),
    };
    let rad = [4usize, 3];
    let bound = ctx.pick(1, 2);
    family(ctx, "kill and restart", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let share = make(d[0]);
        let peers = |m: Moods| vec![PeerCfg::with(0, m), PeerCfg::good(1)];
        let plain = run(Plan { explore: false, ..Plan::new(vec![make(d[0])], vec![PeerCfg::good(0)]) });
        plain.no_panic()?;
        let mut fs = Fs::new(&cwd());
        let at = sim::explore::choose_free(plain.ops as usize + 1);
        fs.crash_at = Some(at as u64);
        fs.torn = [0usize, 1, 3, 6][sim::explore::choose_free(4)];
        c.text(format!("files {:?}, piece length {}, {:?}, killed at disk operation {at} with {} bytes of it done", share.files, share.t.pl, POLICIES[d[1]], fs.torn));
        let r = run(Plan { policy: POLICIES[d[1]], fs: Some(fs), ..Plan::new(vec![make(d[0])], peers(Moods::Always(Mood::Good))) });
        count(c, &r);
        r.no_panic()?;
        let again = Plan { policy: POLICIES[sim::explore::choose(3)], explore: false, keep: true, ..Plan::new(vec![make(d[0])], peers(Moods::First(1, Mood::Close))) };
        let s = again.shares.clone();
        let r2 = run(again);
        c.steps(r2.steps.len() as u64);
        r2.no_panic()?;
        ensure!(!r2.unfinished, "download does not finish after a restart", "{}", r2.trace());
        stored(&s, &r2)
    });
    // killed, started again and killed again
    let rad = ctx.pick([1usize, 1, 1], [4, 2, 1]);
    family(ctx, "killed more than once", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        let share = make((1 + d[0]) % 4);
        let plain = run(Plan { explore: false, ..Plan::new(vec![make((1 + d[0]) % 4)], vec![PeerCfg::good(0)]) });
        plain.no_panic()?;
        let mut text = format!("files {:?}, piece length {}, {:?}, killed", share.files, share.t.pl, POLICIES[d[1]]);
        for n in 0..2 {
            let mut fs = Fs::new(&cwd());
            let at = sim::explore::choose_free(plain.ops as usize + 1);
            fs.crash_at = Some(at as u64);
            fs.torn = 3 + d[2];
            text += &format!(" at disk operation {at} with {} bytes of it done,", fs.torn);
            c.text(text.clone());
            let r = run(Plan { policy: POLICIES[(d[1] + n) % 3], fs: Some(fs), explore: false, keep: n > 0, ..Plan::new(vec![make((1 + d[0]) % 4)], vec![PeerCfg::good(0), PeerCfg::good(1)]) });
            count(c, &r);
            r.no_panic()?;
        }
        let last = Plan { policy: POLICIES[d[1]], explore: false, keep: true, ..Plan::new(vec![make((1 + d[0]) % 4)], vec![PeerCfg::good(1)]) };
        let s = last.shares.clone();
        let r = run(last);
        c.steps(r.steps.len() as u64);
        r.no_panic()?;
        ensure!(!r.unfinished, "download does not finish after a restart", "{}", r.trace());
        stored(&s, &r)
    });
    crate::real::kills(ctx);
}

/// Two torrents whose info hashes share their first or last two bytes.
fn alike(first: bool) -> Vec<Share> {
    thread_local! {
        static FOUND: std::cell::RefCell<[Option<(usize, usize)>; 2]> = const { std::cell::RefCell::new([None, None]) };
    }
    let make = |k: usize| Share::single(&format!("f{k}"), 8, 11);
    let known = FOUND.with(|f| f.borrow()[first as usize]);
    let (a, b) = known.unwrap_or_else(|| {
        let mut seen = std::collections::HashMap::new();
        let hit = (0..)
            .find_map(|k| {
                let h = make(k).t.hash;
                let key = if first { [h[0], h[1]] } else { [h[18], h[19]] };
                seen.insert(key, k).map(|j| (j, k))
            })
            .unwrap();
        FOUND.with(|f| f.borrow_mut()[first as usize] = Some(hit));
        hit
    });
    vec![make(a), make(b)]
}

fn c30(ctx: &mut Ctx) {
    let pair = |k: usize| match k {
        0 => vec![Share::single("f", 8, 13), Share::single("g", 8, 21)],
        1 => vec![Share::new("m", 8, &[("a", 5), ("d/b", 9)], false), Share::new("n", 4, &[("c", 5), ("d/e", 2), ("z", 0)], false)],
        2 => vec![Share::single("f", 4, 24), Share::single("g", 16, 17), Share::single("h", 1, 6)],
        // info hashes that begin or end alike
        k => alike(k == 3),
    };
    let rad = [5usize, 3, 4];
    let bound = ctx.pick(2, 3);
    family(ctx, "together", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let shares = pair(d[0]);
        let all: Vec<usize> = (0..shares.len()).collect();
        let mut peers = vec![];
        match d[2] {
            // common peers
            0 => peers.push(PeerCfg { serves: all.clone(), ..PeerCfg::good(0) }),
            // separate ones
            1 => all.iter().for_each(|k| peers.push(PeerCfg { serves: vec![*k], ..PeerCfg::good(*k) })),
            // both, failing as decided
            2 => {
                peers.push(PeerCfg { serves: all.clone(), ..PeerCfg::with(0, Moods::Explore(BAD3)) });
                all.iter().for_each(|k| peers.push(PeerCfg { serves: vec![*k], ..PeerCfg::good(*k + 1) }));
            }
            // announced to torrents they do not have
            _ => all.iter().for_each(|k| peers.push(PeerCfg { serves: vec![*k], ..PeerCfg::good(*k) })),
        }
        c.text(format!("{} torrents, peers kind {}, {:?}", shares.len(), d[2], POLICIES[d[1]]));
        let mut plan = Plan { policy: POLICIES[d[1]], cached: d[2] % 2 == 0, ..Plan::new(shares, peers) };
        if d[2] == 3 {
            plan.found = plan.peers.iter().flat_map(|p| all.iter().map(move |k| (*k, p.at))).collect();
        }
        let s = plan.shares.clone();
        let told = plan.found.clone();
        let r = run(plan);
        count(c, &r);
        r.no_panic()?;
        for (_, a, e) in &r.seen {
            if let Seen::Shake(h) = e {
                let known = s.iter().position(|x| x.t.hash == *h).map(|k| told.contains(&(k, *a)));
                ensure!(known == Some(true), "peer contacted about a torrent it was not announced for", "{a}: {}", r.trace());
            }
        }
        if d[2] != 3 {
            complete(&s, &r)?;
        }
        ensure!(!r.unfinished, "download does not finish", "{}", r.trace());
        stored(&s, &r)
    });
    // many at once
    let rad = [4usize, 3, 2];
    ctx.dfs_family("many together", product(&rad), 0, |i, c| {
        let d = digits(i, &rad);
        let n = [4usize, 8, 16, 40][d[0]];
        let shares: Vec<Share> = (0..n).map(|k| Share::single(&format!("t{k}"), 4 + k % 3, 9 + k)).collect();
        c.text(format!("{n} torrents, {:?}, {} peers", POLICIES[d[1]], ["common", "separate"][d[2]]));
        let peers = match d[2] {
            0 => (0..2).map(|k| PeerCfg { serves: (0..n).collect(), ..PeerCfg::with(k, Moods::First(k, Mood::Close)) }).collect(),
            _ => (0..n).map(|k| PeerCfg { serves: vec![k], ..PeerCfg::good(k) }).collect(),
        };
        go(Plan { policy: POLICIES[d[1]], explore: false, max_steps: 20_000, ..Plan::new(shares, peers) }, c).map(|_| ())
    });
    writers(
        ctx,
        "writers at once",
        &[
            || vec![Share::single("f", 8, 16), Share::single("g", 8, 9)],
            || vec![Share::single("f", 8, 5), Share::single("g", 8, 6), Share::single("h", 8, 7)],
            || vec![Share::new("m", 8, &[("d/a", 5), ("d/b", 3)], false), Share::new("n", 8, &[("d/c", 9)], false)],
            || vec![Share::new("m", 4, &[("x/y/a", 3), ("x/z0", 0)], false), Share::new("n", 4, &[("x/y/b", 2), ("x/y/z1", 0)], false)],
            || vec![Share::new("m", 4, &[("p/a", 4), ("q/a", 2)], false), Share::new("n", 4, &[("q/b", 3), ("p/b", 1)], false)],
        ],
    );
}

// ------------------------------------------------------------------------------------ added again

fn c31(ctx: &mut Ctx) {
    let make = |k: usize| match k {
        0 => Share::single("f", 8, 13),
        1 => Share::new("m", 8, &[("a", 5), ("d/b", 9), ("z", 0), ("c", 7)], false),
        _ => Share::single("f", 4, 26),
    };
    // both at the same time, or one while the other is under way
    let rad = [3usize, 3, 3, 2];
    let bound = ctx.pick(1, 2);
    for i in 0..product(&rad) {
        let d = digits(i, &rad);
        let bound = bound + (d[3] == 0 && d[0] == 0) as u32;
        ctx.dfs_idx("more than once", i, bound, &mut |c| {
            let times = 2 + d[3];
            let share = make(d[0]);
            c.text(format!("files {:?}, piece length {}, added {times} times, {:?}, peers kind {}", share.files, share.t.pl, POLICIES[d[1]], d[2]));
            let all: Vec<usize> = (0..times).collect();
            let peers = match d[2] {
                0 => vec![PeerCfg::good(0)],
                1 => vec![PeerCfg::with(0, Moods::Explore(BAD3))],
                _ => vec![PeerCfg::with(0, Moods::First(1, Mood::Another)), PeerCfg::good(1)],
            };
            let (fs, seen) = watched(make(d[0]));
            let plan = Plan { policy: POLICIES[d[1]], fs: Some(fs), ..Plan::new(all.iter().map(|_| make(d[0])).collect(), peers) };
            let mut plan = Plan { cached: d[2] == 1, ..plan };
            // every addition gets to know every peer
            plan.found = all.iter().flat_map(|k| plan.peers.iter().map(move |p| (*k, p.at))).collect();
            let r = run(plan);
            unharmed(&share, &r, &seen, c)
        });
    }
    // once more when it is there
    let rad = [3usize, 3, 2];
    family(ctx, "again afterwards", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let share = make(d[0]);
        c.text(format!("files {:?}, piece length {}, there already, {:?}", share.files, share.t.pl, POLICIES[d[1]]));
        let r = run(Plan { explore: false, ..Plan::new(vec![make(d[0])], vec![PeerCfg::good(0)]) });
        r.no_panic()?;
        let (fs, seen) = watched(make(d[0]));
        look(&share, &mut seen.borrow_mut());
        let bad = [BAD3, BAD][d[2]];
        let plan = Plan { policy: POLICIES[d[1]], fs: Some(fs), keep: true, ..Plan::new(vec![make(d[0])], vec![PeerCfg::with(0, Moods::Explore(bad))]) };
        let r = run(plan);
        unharmed(&share, &r, &seen, c)
    });
    writers(
        ctx,
        "writers at once",
        &[
            || vec![Share::single("f", 8, 16), Share::single("f", 8, 16)],
            || vec![Share::new("m", 8, &[("d/a", 5), ("d/b", 3)], false), Share::new("m", 8, &[("d/a", 5), ("d/b", 3)], false)],
            || vec![Share::new("m", 8, &[("x/y/a", 3), ("x/z0", 0)], false), Share::new("m", 8, &[("x/y/a", 3), ("x/z0", 0)], false)],
            || vec![Share::single("f", 8, 9), Share::single("f", 8, 9), Share::single("f", 8, 9)],
        ],
    );
    caches(ctx);
}

/// Additions on different threads share the metadata cache: it is read and written at the same time.
#[cfg(feature = "again")]
fn caches(ctx: &mut Ctx) {
    use rust_bit::verif::torrent::Info;
    let rad = [3usize, 3, 2];
    let bound = ctx.pick(1, 2);
    family(ctx, "cache at once", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let (readers, writers) = [(1usize, 1usize), (1, 2), (2, 1)][d[0]];
        let share = [Share::single("f", 8, 3), Share::new("m", 16, &[("a", 5), ("d/b", 9)], false), Share::single("f", 8, 30)].into_iter().nth(d[1]).unwrap();
        c.text(format!("{writers} saving and {readers} reading the metadata of {:?}, {} at first", share.files, ["missing", "there"][d[2]]));
        wipe();
        let info = share.t.parsed();
        let root = cwd();
        std::fs::create_dir_all("downloads").unwrap();
        if d[2] == 1 {
            let _ = real(|| info.save(&share.cache()));
        }
        let mut got: Vec<Result<Option<Info>, Fail>> = (0..readers + writers).map(|_| Ok(None)).collect();
        let path = share.cache();
        let ops = got
            .iter_mut()
            .enumerate()
            .map(|(k, out)| {
                let (root, path, info) = (root.clone(), path.clone(), info.clone());
                Box::new(move || {
                    let mut os = Os::new();
                    os.fs = Some(Fs::new(&root));
                    *out = with_os(&mut os, || {
                        cut(|| {
                            if k < writers {
                                let _ = info.save(&path);
                                None
                            } else {
                                Info::from_file(&path).ok()
                            }
                        })
                    })
                    .map_err(|p| p.fail());
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        let mut log = vec![];
        sim::step::coarse(ops, |able, goes_on| {
            let k = if goes_on { sim::explore::choose(able.len()) } else { sim::explore::choose_free(able.len()) };
            log.push(able[k] as u8);
            k
        });
        c.steps(log.len() as u64);
        c.nontrivial(fnv(&[&[i as u8], &log[..]].concat()));
        for g in got {
            if let Some(x) = g? {
                ensure!(x == info, "wrong metadata read while it was being saved", "{x:?}: {log:?}");
            }
        }
        match real(|| Info::from_file(&path)) {
            Ok(x) => ensure!(x == info, "wrong metadata in the cache", "{x:?}: {log:?}"),
            Err(e) => return fail("metadata cache broken by saving it twice at once", format!("{e:?}: {log:?}")),
        }
        Ok(())
    });
}

#[cfg(not(feature = "again"))]
fn caches(_: &mut Ctx) {}

type Watch = Rc<RefCell<(Vec<bool>, Option<String>)>>;

/// A disk that is looked at before every operation that changes the torrent's files.
fn watched(share: Share) -> (Fs, Watch) {
    let seen: Watch = Default::default();
    let shown = seen.clone();
    let mut fs = Fs::new(&cwd());
    fs.fault = Some(Box::new(move |op| {
        if !op.path.contains("/downloads/") {
            look(&share, &mut shown.borrow_mut());
        }
        FsAnswer::Normal
    }));
    (fs, seen)
}

/// Everything is there in the end, and nothing that was there has gone in between.
fn unharmed(share: &Share, r: &Report, seen: &Watch, c: &mut Case) -> Result<(), Fail> {
    look(share, &mut seen.borrow_mut());
    count(c, r);
    if let Some(e) = &seen.borrow().1 {
        return fail("wrong bytes on the disk", format!("{e}: {}", r.trace()));
    }
    r.no_panic()?;
    ensure!(!r.unfinished, "download does not finish", "{}", r.trace());
    stored(std::slice::from_ref(share), r)
}

// -------------------------------------------------------------------------------------- kept (C33)

#[cfg(feature = "kept")]
pub fn kept(ctx: &mut Ctx) {
    let make = |k: usize| match k {
        0 => Share::single("f", 8, 13),
        1 => Share::new("m", 8, &[("a", 5), ("d/b", 9), ("z", 0)], false),
        _ => Share::new("n", 16, &[("q", 3), ("d/b", 1), ("d/c", 5), ("z", 40)], false),
    };
    let radix = [3usize, 4, 12, 10];
    ctx.enumerate("storing pieces", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let share = make(d[0]);
        let p = d[1].min(share.t.count() - 1);
        c.text(format!("piece {p} of files {:?}, piece length {}, fault {} at call {}", share.files, share.t.pl, d[3], d[2]));
        let info = share.t.parsed();
        crate::kept::given_back(c, &mut || {
            wipe();
            let mut os = Os::new();
            let mut fs = Fs::new(&cwd());
            let (mut n, d) = (0, d.clone());
            fs.fault = Some(Box::new(move |op: &FsOp| {
                n += 1;
                match d[3] {
                    _ if n != d[2] + 1 => FsAnswer::Normal,
                    0 => FsAnswer::Normal,
                    k if k <= ERRNOS.len() => FsAnswer::Errno(ERRNOS[k - 1]),
                    k if op.kind == "write" && op.len > 1 => FsAnswer::Short([0, 1, op.len - 1][k - 1 - ERRNOS.len()]),
                    _ => FsAnswer::Normal,
                }
            }));
            os.fs = Some(fs);
            for _ in 0..2 {
                with_os(&mut os, || {
                    cut(|| {
                        let _ = rust_bit::verif::torrent::write(share.t.piece(p).to_vec(), p, info.get_files().unwrap(), share.t.pl as usize);
                        let _ = info.save("meta");
                        let _ = rust_bit::verif::torrent::Info::from_file("meta");
                        let _ = rust_bit::verif::torrent::Info::from_file("nothing");
                    })
                })
                .map_err(|p| p.fail())?;
            }
            Ok(())
        })
    });
    wipe();
}
