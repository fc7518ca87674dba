//! C32: from the post of a magnet link to the files, through the real HTTP service, tracker actors,
//! torrent actors, sessions and writer; sockets, clock and workers are the checker's.
#[cfg(feature = "api")]
use crate::client::{complete, count, stored, BAD, BAD3};
use crate::swarm::*;
use crate::trackers::{act_menu, configured, link, tracker_world, udp, Act, Shd};
use crate::util::*;
use crate::world::*;
#[cfg(feature = "api")]
use rust_bit::verif::actors::*;
use actix::prelude::*;
use sim::explore;
use sim::os::*;
use sim::runner::*;
use sim::{ensure, show};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::net::SocketAddrV4;
use std::rc::Rc;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C32",
        level: "model_checking",
        rule: "posts of magnet links to the real HTTP service with the real actors behind it, simulated trackers, peers, clock and disk: every order of posts, datagrams, timers and worker results up to a deviation bound from three default orders, every pattern of peer conduct up to a bound, every single working tracker among failing ones, every file layout of a menu; non-trivial: something was downloaded",
        assumptions: &[
            "a sync worker's handler takes effect at one instant",
            "requests are handed to the real HTTP service in process; trackers are simulated datagram peers",
            "the trackers configured are those of the pinned commit that the sources still name",
        ],
        run: whole,
    }]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Order {
    /// Posts, then worker results oldest first, then time.
    Posts,
    /// Time before everything else.
    Time,
    /// Worker results newest first, then posts, then time.
    Work,
}

const ORDERS: [Order; 3] = [Order::Posts, Order::Time, Order::Work];

struct Add {
    shares: Vec<Share>,
    peers: Vec<PeerCfg>,
    /// (torrent, how the magnet is written)
    posts: Vec<(usize, usize)>,
    order: Order,
    explore: bool,
    /// What a tracker does.
    act: Box<dyn Fn(SocketAddrV4, bool) -> Act>,
    /// The peers a tracker lists (by number).
    lists: Box<dyn Fn(usize, usize) -> Vec<usize>>,
}

impl Add {
    fn new(shares: Vec<Share>, peers: Vec<PeerCfg>) -> Add {
        let n = shares.len();
        let serving: Vec<Vec<usize>> = (0..n).map(|s| (0..peers.len()).filter(|p| peers[*p].serves.contains(&s)).collect()).collect();
        Add {
            shares,
            peers,
            posts: (0..n).map(|k| (k, k)).collect(),
            order: Order::Posts,
            explore: true,
            act: Box::new(|_, _| Act::Right),
            lists: Box::new(move |_, s| serving[s].clone()),
        }
    }
}

#[cfg(feature = "api")]
fn add(a: Add, c: &mut Case) -> Result<(), Fail> {
    explore::on_fresh_thread(|| add_here(a, c))
}

#[cfg(feature = "api")]
fn open() -> usize {
    real(|| std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0))
}

type Lists = BTreeMap<(SocketAddrV4, Vec<u8>), Vec<SocketAddrV4>>;

#[cfg(feature = "api")]
fn add_here(a: Add, c: &mut Case) -> Result<(), Fail> {
    let (rep, shares, statuses, announced, escapes) = play(a)?;
    count(c, &rep);
    rep.no_panic()?;
    ensure!(statuses.iter().all(|s| *s == 200), "good magnet not answered with 200", "{statuses:?}");
    ensure!(!rep.unfinished, "never comes to rest", "{} steps", rep.steps.len());
    if let Some(e) = escapes.first() {
        return fail("written outside the working directory", e.clone());
    }
    for (_, a, e) in &rep.seen {
        if let Seen::Shake(h) = e {
            let listed = announced.iter().any(|((_, k), l)| k == h && l.contains(a));
            ensure!(listed, "peer used for a torrent it was not announced for", "{a} for {}: {}", show(h), rep.trace());
        }
    }
    complete(&shares, &rep)?;
    stored(&shares, &rep)
}

#[cfg(feature = "api")]
fn play(a: Add) -> Result<(Report, Rc<Vec<Share>>, Vec<u16>, Lists, Vec<String>), Fail> {
    use actix_web::{test, App};
    wipe();
    choose_randomly(a.explore, 0);
    let trackers = configured();
    ensure!(!trackers.is_empty(), "no tracker is configured", "");
    let mut lists = BTreeMap::new();
    for (n, t) in trackers.iter().enumerate() {
        for (k, s) in a.shares.iter().enumerate() {
            lists.insert((*t, s.t.hash.clone()), (a.lists)(n, k).iter().map(|p| a.peers[*p].at).collect::<Vec<_>>());
        }
    }
    let announced = lists.clone();
    let w: Shd = tracker_world(lists, a.act);
    let shares = Rc::new(a.shares);
    let log = Rc::new(RefCell::new(Log::default()));
    let mut os = Os::new();
    os.time_limit = 7 * 24 * 3600 * SEC;
    os.call_limit = 20_000_000;
    os.idle = Some(Idle::default());
    os.fs = Some(Fs::new(&cwd()));
    os.udp = Some(udp(&w));
    os.net = Some(Box::new(Swarm::new(a.peers.clone(), Rc::clone(&shares), Rc::clone(&log))));
    let mut rep = Report::default();
    let mut statuses = vec![];
    let (_, panics) = in_system(&mut os, |sys| {
        sys.block_on(async {
            let hub = TrackersInterfaceActor::new().start();
            let app = test::init_service(App::new().configure(rust_bit::verif::configure_api(hub))).await;
            let mut posts = a.posts.iter().copied();
            let mut left = a.posts.len();
            loop {
                let next = quiet().await;
                if rep.steps.is_empty() {
                    rep.held.0 = open();
                }
                if let Some(p) = take_panic() {
                    rep.panics.push(p);
                }
                if rep.steps.len() >= 2000 {
                    rep.unfinished = true;
                    return;
                }
                let mut work: Vec<Step> = actix::verif::busy().iter().map(|j| Step::Download { pool: j.pool, seq: j.seq }).collect();
                let post = (left > 0).then_some(Step::Post(a.posts.len() - left));
                let time = next.map(|_| Step::Time);
                let mut opts: Vec<Step> = match a.order {
                    Order::Posts => post.into_iter().chain(work).chain(time).collect(),
                    Order::Time => time.into_iter().chain(work).chain(post).collect(),
                    Order::Work => {
                        work.reverse();
                        work.into_iter().chain(post).chain(time).collect()
                    }
                };
                if opts.is_empty() {
                    rep.held.1 = open();
                    rep.held.2 = actix::verif::waiting();
                    return;
                }
                let k = if a.explore { explore::choose(opts.len()) } else { 0 };
                let step = opts.swap_remove(k);
                log.borrow_mut().step = rep.steps.len();
                rep.steps.push(step.clone());
                match step {
                    Step::Post(_) => {
                        left -= 1;
                        let (s, form) = posts.next().unwrap();
                        let req = test::TestRequest::post().uri("/add/magnet").set_payload(link(form, &shares[s].t.hash));
                        statuses.push(match test::try_call_service(&app, req.to_request()).await {
                            Ok(r) => r.status().as_u16(),
                            Err(e) => e.as_response_error().status_code().as_u16(),
                        });
                    }
                    Step::Time => {
                        active(|os| os.idle.as_mut().unwrap().advance = true);
                    }
                    Step::Download { pool, seq } => {
                        let job = actix::verif::busy().into_iter().find(|j| j.pool == pool && j.seq == seq).unwrap();
                        if let Err(p) = cut(|| actix::verif::finish(job.pool, job.worker)) {
                            rep.panics.push(p);
                        }
                    }
                    _ => unreachable!(),
                }
            }
        })
    });
    rep.panics.extend(panics);
    rep.disk = disk();
    let escapes = os.fs.take().unwrap().escapes;
    drop(os);
    rep.seen = std::mem::take(&mut log.borrow_mut().seen);
    Ok((rep, shares, statuses, announced, escapes))
}

fn whole(ctx: &mut Ctx) {
    #[cfg(feature = "api")]
    simulated(ctx);
    wipe();
    crate::real::downloads(ctx);
    wipe();
}

#[cfg(feature = "api")]
fn simulated(ctx: &mut Ctx) {
    let menu = |n: usize| -> Vec<Share> {
        let mut v = vec![
            Share::single("f", 8, 21),
            Share::new("m", 8, &[("a", 5), ("d/b", 9), ("z", 0), ("c", 7)], false),
            Share::single("g", 20000, 45000),
            Share::new("e", 4, &[("z0", 0), ("x/y/a", 4), ("x/y/b", 9), ("z1", 0)], false),
            Share::single("h", 4, 29),
            Share::new("s", 16, &[("s/1", 3), ("s/2", 30), ("s/3", 1), ("s/4", 14)], false),
        ];
        v.rotate_left(n % 6);
        v
    };
    let some = |from: usize, n: usize| -> Vec<Share> { menu(from).into_iter().take(n).collect() };
    let all = |n: usize| -> Vec<usize> { (0..n).collect() };
    // orders of posts, datagrams, timers and results
    let rad = [3usize, 3, 3];
    let bound = ctx.pick(1, 2);
    for i in 0..product(&rad) {
        ctx.dfs_idx("orders", i, bound, &mut |c| {
            let d = digits(i, &rad);
            let n = d[0] + 1;
            c.text(format!("{n} torrents, {:?} first, peers {}", ORDERS[d[1]], d[2]));
            let peers = match d[2] {
                0 => vec![PeerCfg { serves: all(n), ..PeerCfg::good(0) }],
                1 => (0..n).flat_map(|k| [PeerCfg { serves: vec![k], ..PeerCfg::good(2 * k) }, PeerCfg { serves: all(n), refuse: Some(false), ..PeerCfg::good(2 * k + 1) }]).collect(),
                _ => (0..=n).map(|k| PeerCfg { serves: all(n), ..PeerCfg::with(k, if k == 0 { Moods::Always(Mood::Close) } else { Moods::First(k - 1, Mood::Corrupt) }) }).collect(),
            };
            add(Add { order: ORDERS[d[1]], ..Add::new(some(d[2], n), peers) }, c)
        });
    }
    // what peers do, and random choices
    let rad = [3usize, 6, 2];
    let bound = ctx.pick(1, 2);
    for i in 0..product(&rad) {
        ctx.dfs_idx("conduct of peers", i, bound, &mut |c| {
            let d = digits(i, &rad);
            c.text(format!("torrents from {}, {:?} first, {} peers that answer as decided", d[1], ORDERS[d[0]], d[2] + 1));
            let bad = [BAD, BAD3][d[2]];
            let peers = (0..=d[2]).map(|k| PeerCfg { serves: vec![0, 1], meta: Moods::Explore(bad), ..PeerCfg::with(k, Moods::Explore(bad)) }).chain([PeerCfg { serves: vec![0, 1], ..PeerCfg::good(7) }]).collect();
            add(Add { order: ORDERS[d[0]], ..Add::new(some(d[1], 2), peers) }, c)
        });
    }
    // one tracker that works among those that do not
    let trackers = configured();
    let acts = act_menu();
    let rad = [trackers.len().max(1), acts.len(), 4, 3, 2];
    ctx.enumerate("one working tracker", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let (works, bad) = (trackers.get(d[0]).copied(), acts[d[1]]);
        c.text(format!("tracker {works:?} works, the others do {bad:?}, magnet form {}, {:?} first, {} torrents", d[2], ORDERS[d[3]], d[4] + 1));
        let n = d[4] + 1;
        let peers = vec![PeerCfg { refuse: Some(true), serves: all(n), ..PeerCfg::good(0) }, PeerCfg { serves: all(n), ..PeerCfg::good(1) }];
        let mut a = Add::new(some(d[0], n), peers);
        a.act = Box::new(move |t, _| if Some(t) == works { Act::Right } else { bad });
        let at = d[0];
        a.lists = Box::new(move |t, _| if t == at { vec![0, 1] } else { vec![] });
        a.posts = (0..n).map(|k| (k, d[2] + k)).collect();
        add(Add { order: ORDERS[d[3]], explore: false, ..a }, c)
    });
    // trackers that lose datagrams
    let rad = [4usize, 4, 3, 2];
    ctx.enumerate("lost datagrams", product(&rad), |i, c| {
        let d = digits(i, &rad);
        c.text(format!("trackers answer connect request {} and announce {}, {:?} first, {} torrents", d[0] + 1, d[1] + 1, ORDERS[d[2]], d[3] + 1));
        let n = d[3] + 1;
        let mut a = Add::new(some(i as usize, n), vec![PeerCfg { serves: all(n), ..PeerCfg::good(0) }]);
        let seen = RefCell::new(BTreeMap::<(SocketAddrV4, bool), usize>::new());
        let (lost, unheard) = (d[0], d[1]);
        a.act = Box::new(move |t, announce| {
            let mut s = seen.borrow_mut();
            let k = s.entry((t, announce)).or_insert(0);
            *k += 1;
            let few = if announce { unheard } else { lost };
            if *k <= few { Act::Lost } else { Act::Right }
        });
        add(Add { order: ORDERS[d[2]], explore: false, ..a }, c)
    });
    // peers spread over trackers: the good ones known to one alone
    let rad = [trackers.len().max(1), 3, 3, 6];
    ctx.enumerate("who knows whom", product(&rad), |i, c| {
        let d = digits(i, &rad);
        c.text(format!("tracker {} lists the good peer, the others {}, {:?} first", d[0], ["none", "bad ones", "more bad ones each"][d[1]], ORDERS[d[2]]));
        let mut peers = vec![PeerCfg::good(0)];
        for k in 1..30 {
            peers.push(match k % 3 {
                0 => PeerCfg { refuse: Some(false), ..PeerCfg::good(k) },
                1 => PeerCfg { meta: Moods::Always(Mood::Corrupt), ..PeerCfg::with(k, Moods::Always(BAD[k % BAD.len()])) },
                _ => PeerCfg { meta: Moods::Always([Mood::Good, Mood::Short, Mood::Close][d[1]]), ..PeerCfg::with(k, Moods::Always(BAD[1 + k % (BAD.len() - 1)])) },
            });
        }
        let mut a = Add::new(some(d[3], 1), peers);
        let (at, how) = (d[0], d[1]);
        a.lists = Box::new(move |t, _| match (t == at, how) {
            (true, _) => vec![3, 0, 1],
            (_, 0) => vec![],
            (_, 1) => vec![1 + t % 29, 5],
            _ => (0..5).map(|k| 1 + (t * 5 + k) % 29).collect(),
        });
        add(Add { order: ORDERS[d[2]], explore: false, ..a }, c)
    });
    // a peer of no use at first, that another answer lists again later
    let rad = [3usize, 5, 4, 3, 6];
    ctx.enumerate("listed again", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let bad = [Mood::Close, Mood::Corrupt, Mood::Silent, Mood::Short, Mood::Reset][d[1]];
        c.text(format!("{} attempts end with {bad:?}, the good peer is listed {} times with {} bad ones, {:?} first", d[0] + 1, d[0] + 2, d[2], ORDERS[d[3]]));
        let mut peers = vec![PeerCfg { meta: Moods::First(d[0] + 1, bad), ..PeerCfg::good(0) }];
        peers.extend((0..d[2]).map(|k| PeerCfg { meta: Moods::Always(bad), ..PeerCfg::with(k + 1, Moods::Always(bad)) }));
        let mut a = Add::new(some(d[4], 1), peers);
        let (times, others) = (d[0] + 2, d[2]);
        a.lists = Box::new(move |t, _| if t < times { (0..=others).collect() } else { (1..=others).collect() });
        add(Add { order: ORDERS[d[3]], explore: false, ..a }, c)
    });
    // many torrents at once
    let counts = [4usize, 6];
    let rad = [counts.len(), 3, 6];
    let bound = ctx.pick(0, 1);
    ctx.dfs_family("several torrents", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let n = counts[d[0]];
        c.text(format!("{n} torrents, {:?} first, from {}", ORDERS[d[1]], d[2]));
        let peers = (0..n).map(|k| PeerCfg { serves: vec![k, (k + 1) % n], ..PeerCfg::with(k, Moods::First(1, Mood::Corrupt)) }).chain([PeerCfg { serves: all(n), ..PeerCfg::good(n) }]).collect();
        add(Add { order: ORDERS[d[1]], ..Add::new(some(d[2], n), peers) }, c)
    });
}

// -------------------------------------------------------------------------------------- kept (C33)

/// What a torrent took is given back when nothing is left to do for it.
#[cfg(all(feature = "kept", feature = "api"))]
fn ends(a: Add, c: &mut Case) -> Result<(), Fail> {
    let (rep, ..) = explore::on_fresh_thread(|| play(a))?;
    count(c, &rep);
    if rep.unfinished || !rep.panics.is_empty() {
        c.outcome("not judged"); // C32 and others do that
        return Ok(());
    }
    let (before, after, waiting) = rep.held;
    ensure!(after <= before, "files or sockets left open", "{before} before, {after} when nothing is left to do");
    ensure!(waiting.is_empty(), "workers left behind", "{} pools wait though nothing is left to do: {:?}", waiting.len(), waiting.first());
    c.nontrivial(sim::fnv(format!("{:?}", rep.steps).as_bytes()));
    c.outcome("everything given back");
    Ok(())
}

#[cfg(all(feature = "kept", feature = "api"))]
pub fn kept(ctx: &mut Ctx) {
    let menu = |n: usize| -> Vec<Share> {
        let mut v = vec![Share::single("f", 8, 21), Share::new("m", 8, &[("a", 5), ("d/b", 9), ("z", 0), ("c", 7)], false), Share::single("h", 4, 29)];
        v.rotate_left(n % 3);
        v
    };
    let rad = [3usize, 3, 4];
    let bound = ctx.pick(1, 2);
    ctx.dfs_family("whole torrents", product(&rad), bound, |i, c| {
        let d = digits(i, &rad);
        let n = d[0] + 1;
        c.text(format!("{n} torrents, {:?} first, peers {}", ORDERS[d[1]], d[2]));
        let all: Vec<usize> = (0..n).collect();
        let good = PeerCfg { serves: all.clone(), ..PeerCfg::good(0) };
        let bad = |k: usize, m: Mood| PeerCfg { serves: all.clone(), meta: Moods::Always(m), ..PeerCfg::with(k, Moods::Always(m)) };
        let peers = match d[2] {
            0 => vec![good],
            1 => vec![PeerCfg { refuse: Some(true), ..bad(1, Mood::Good) }, good],
            2 => vec![bad(1, Mood::Corrupt), good, bad(2, Mood::Silent)],
            _ => vec![bad(1, Mood::Close), bad(2, Mood::Short), good],
        };
        ends(Add { order: ORDERS[d[1]], ..Add::new(menu(i as usize).into_iter().take(n).collect(), peers) }, c)
    });
    let acts = act_menu();
    let rad = [acts.len(), acts.len(), 4, 3];
    ctx.enumerate("whole torrents and trackers", product(&rad), |i, c| {
        let d = digits(i, &rad);
        c.text(format!("trackers do {:?} and {:?} by turns, {}, {:?} first", acts[d[0]], acts[d[1]], ["a good peer", "no peer", "peers that are not there", "a peer without the metadata"][d[2]], ORDERS[d[3]]));
        let peers = match d[2] {
            0 => vec![PeerCfg { serves: vec![0, 1], ..PeerCfg::good(0) }],
            1 => vec![],
            2 => vec![PeerCfg { serves: vec![0, 1], refuse: Some(true), ..PeerCfg::good(0) }, PeerCfg { serves: vec![0, 1], refuse: Some(false), ..PeerCfg::good(1) }],
            _ => vec![PeerCfg { serves: vec![0, 1], meta: Moods::Always(Mood::Corrupt), ..PeerCfg::good(0) }],
        };
        let trackers = configured();
        let mut a = Add::new(menu(i as usize).into_iter().take(2).collect(), peers);
        let (one, two) = (acts[d[0]], acts[d[1]]);
        a.act = Box::new(move |t, _| if trackers.iter().position(|x| *x == t).unwrap_or(0) % 2 == 0 { one } else { two });
        a.posts = vec![(0, 0), (1, 1), (0, 2)];
        ends(Add { order: ORDERS[d[3]], explore: false, ..a }, c)
    });
    wipe();
}
