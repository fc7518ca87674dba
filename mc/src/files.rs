//! C16 and C17: where pieces are stored.
use crate::swarm::Torrent;
use crate::util::*;
use crate::world::*;
use rust_bit::verif::torrent::{write, Info};
use sim::os::*;
use sim::runner::*;
use sim::{ensure, fnv, show};
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C16",
            level: "exploration",
            rule: "all layouts of up to four files with lengths around the piece boundaries, all piece lengths of a menu, all orders of pieces (all permutations of up to four or five pieces, else four orders), onto files that are absent or full of other bytes; non-trivial: something was stored",
            assumptions: &["the metadata is given by its bytes, the files are read back after every piece"],
            run: places,
        },
        Spec {
            id: "C17",
            level: "exploration",
            rule: "all file paths of up to three components from a menu of hostile and harmless ones, as path and as name, of first and later files; the same given by a cache file and as info hash; every file system call that changes something is checked; non-trivial: metadata accepted and something stored",
            assumptions: &["a call that would leave the working directory is recorded and refused"],
            run: contained,
        },
    ]
}

// ------------------------------------------------------------------------------------- C16

const OTHER: u8 = 0xee;

/// The k-th order of n pieces.
fn order(n: usize, k: usize, all: usize) -> Option<Vec<usize>> {
    if n <= all {
        // k-th permutation
        let f: usize = (1..=n).product();
        if k >= f {
            return None;
        }
        let (mut k, mut rest, mut out) = (k, (0..n).collect::<Vec<_>>(), vec![]);
        for i in (1..=n).rev() {
            let f: usize = (1..i).product();
            out.push(rest.remove(k / f));
            k %= f;
        }
        return Some(out);
    }
    match k {
        0 => Some((0..n).collect()),
        1 => Some((0..n).rev().collect()),
        2 => Some((0..n).step_by(2).chain((1..n).step_by(2)).collect()),
        3 => Some((n / 2..n).chain(0..n / 2).collect()),
        _ => None,
    }
}

/// What must be on the disk once `done` pieces are stored: per byte, the value or None (never
/// written: as it was).
fn judge(share: &Share, done: &[bool], filled: bool, disk: &BTreeMap<String, Vec<u8>>) -> Result<(), Fail> {
    let pl = share.t.pl as usize;
    let mut at = 0;
    let all = done.iter().all(|d| *d);
    for (path, len) in &share.files {
        let begin = at;
        at += len;
        let Some(have) = disk.get(path) else {
            let touched = (begin..at).any(|i| done[i / pl]);
            ensure!(!touched, "file not there", "{path} after pieces {done:?}");
            ensure!(!(all && *len == 0), "empty file not there", "{path}");
            ensure!(!filled, "file is gone", "{path}");
            continue;
        };
        ensure!(have.len() <= *len, "file too long", "{path} has {} bytes instead of {len}", have.len());
        if filled {
            ensure!(have.len() == *len, "file cut", "{path} has {} bytes instead of {len}", have.len());
        }
        for i in 0..*len {
            let b = have.get(i).copied();
            if done[(begin + i) / pl] {
                ensure!(b == Some(share.t.content[begin + i]), "byte of a stored piece is wrong", "{path} at {i}: {b:?}, pieces {done:?}");
            } else if filled {
                ensure!(b == Some(OTHER), "byte of another piece changed", "{path} at {i}: {b:?}, pieces {done:?}");
            } else {
                ensure!(b.unwrap_or(0) == 0, "byte of another piece written", "{path} at {i}: {b:?}, pieces {done:?}");
            }
        }
    }
    for p in disk.keys() {
        ensure!(share.files.iter().any(|f| f.0 == *p), "another file was written", "{p}");
    }
    Ok(())
}

fn store(share: &Share, info: &Info, p: usize) -> Result<(), Fail> {
    let r = cut(|| write(share.t.piece(p).to_vec(), p, info.get_files().unwrap(), share.t.pl as usize).map_err(|e| e.to_string()));
    match r {
        Err(p) => Err(p.fail()),
        Ok(Err(e)) => fail("storing fails", format!("piece {p}: {e}")),
        Ok(Ok(())) => Ok(()),
    }
}

fn layout(share: Share, orders: usize, all: usize, twice: bool, c: &mut Case) -> Result<(), Fail> {
    let info = share.t.parsed();
    let n = share.t.count();
    for k in 0.. {
        if k >= orders {
            break;
        }
        let Some(ord) = order(n, k, all) else { break };
        for filled in [false, true] {
            wipe();
            if filled {
                for (p, len) in &share.files {
                    if let Some(d) = std::path::Path::new(p).parent() {
                        std::fs::create_dir_all(d).unwrap();
                    }
                    std::fs::write(p, vec![OTHER; *len]).unwrap();
                }
            }
            let mut done = vec![false; n];
            for p in &ord {
                c.text(format!("files {:?}, piece length {}, order {ord:?}, at piece {p}, files {}", share.files, share.t.pl, if filled { "there" } else { "absent" }));
                store(&share, &info, *p)?;
                done[*p] = true;
                judge(&share, &done, filled, &disk())?;
                if twice {
                    store(&share, &info, *p)?;
                    judge(&share, &done, filled, &disk())?;
                }
                c.steps(1);
            }
            if !share.files.is_empty() {
                share.finished(&disk()).or_else(|e| fail("finished files differ", e))?;
            }
            c.nontrivial(fnv(format!("{:?} {} {ord:?} {filled}", share.files, share.t.pl).as_bytes()));
        }
    }
    Ok(())
}

fn places(ctx: &mut Ctx) {
    const NAMES: [&str; 4] = ["a", "d/b", "d/e/c", "f"];
    let lens: &[usize] = ctx.pick(&[0, 1, 2, 3, 4, 5, 8, 9], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17]);
    let pls: &[usize] = ctx.pick(&[1, 2, 3, 4, 8], &[1, 2, 3, 4, 5, 7, 8, 9, 16]);
    let all = ctx.pick(3, 4);
    for n in 1..=4usize {
        let lens: &[usize] = if n == 4 { ctx.pick(&[0, 1, 3, 4, 9], &[0, 1, 2, 3, 4, 5, 8, 9, 12]) } else { lens };
        let mut rad = vec![lens.len(); n];
        rad.push(pls.len());
        ctx.enumerate(&format!("layouts of {n} files"), product(&rad), |i, c| {
            let d = digits(i, &rad);
            let files: Vec<(&str, usize)> = (0..n).map(|k| (NAMES[k], lens[d[k]])).collect();
            if files.iter().all(|f| f.1 == 0) {
                return Ok(());
            }
            layout(Share::new("t", pls[d[n]], &files, false), 24, all, n <= 2, c)
        });
    }
    ctx.enumerate("single files", 40 * 12, |i, c| {
        let (len, pl) = (i as usize % 40 + 1, i as usize / 40 + 1);
        layout(Share::single("one", pl, len), 120, ctx_all(len, pl), true, c)
    });
    // sizes of real life
    let big = [16383usize, 16384, 16385, 32768, 50000];
    let rad = [big.len(), big.len(), 3, 3];
    ctx.enumerate("large pieces", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let files = [("a", big[d[0]]), ("b", [0, 1, 20][d[2]]), ("d/c", big[d[1]])];
        layout(Share::new("t", [16384, 32768, 65536][d[3]], &files, false), 4, 2, false, c)
    });
    // many files
    ctx.enumerate("many files", 60 * 4, |i, c| {
        let (n, pl) = (i as usize % 60 + 5, [1, 5, 16, 1000][i as usize / 60]);
        let names: Vec<String> = (0..n).map(|k| format!("d{}/f{k}", k % 3)).collect();
        let files: Vec<(&str, usize)> = (0..n).map(|k| (names[k].as_str(), [3, 0, 1, 7, 16][(k + n) % 5])).collect();
        layout(Share::new("t", pl, &files, false), 4, 1, false, c)
    });
    let rad = [4, 3, 3];
    ctx.enumerate("very many files", product(&rad), |i, c| {
        let d = digits(i, &rad);
        let (n, pl) = ([256usize, 257, 300, 1100][d[0]], [200, 1000, 1 << 20][d[1]]);
        let lens: &[usize] = [&[1][..], &[3, 0, 1, 7], &[0, 0, 0, 2]][d[2]];
        let names: Vec<String> = (0..n).map(|k| format!("d{}/f{k}", k % 3)).collect();
        let files: Vec<(&str, usize)> = (0..n).map(|k| (names[k].as_str(), lens[k % lens.len()])).collect();
        layout(Share::new("t", pl, &files, false), 2, 0, false, c)
    });
    // many pieces: numbers and offsets beyond 16 bits
    ctx.enumerate("many pieces", 4 * 9, |i, c| {
        let (pl, p) = ([1usize, 2, 3, 5][i as usize % 4], [0usize, 1, 255, 256, 65534, 65535, 65536, 65537, 69999][i as usize / 4]);
        let share = Share::new("t", pl, &[("a", 65536 * pl - 1), ("b", 4464 * pl + 1)], false);
        let info = share.t.parsed();
        wipe();
        let mut done = vec![false; share.t.count()];
        c.text(format!("piece {p} of {}, length {pl}", done.len()));
        store(&share, &info, p)?;
        done[p] = true;
        c.steps(1);
        c.nontrivial(i);
        judge(&share, &done, false, &disk())?;
        wipe();
        Ok(())
    });
    // offsets beyond 32 bits
    let pl = 4 << 20;
    ctx.enumerate("large offsets", 4 * 6, |i, c| {
        wipe();
        let g = 1usize << 30;
        let lens = [vec![5 * g + 3], vec![4 * g, 100], vec![4 * g + 1, 100, pl], vec![3, 4 * g, 7, g]][i as usize % 4].clone();
        let total: usize = lens.iter().sum();
        let count = total.div_ceil(pl);
        let p = [0, 511, 512, 1023, 1024, count - 1][i as usize / 4];
        let list: Vec<Ben> = (0..lens.len())
            .map(|k| Ben::Dict(vec![(b"length".to_vec(), Ben::Int(lens[k] as u64)), (b"path".to_vec(), Ben::List(vec![Ben::s(&format!("f{k}"))]))]))
            .collect();
        let info = Ben::Dict(vec![
            (b"files".to_vec(), Ben::List(list)),
            (b"name".to_vec(), Ben::s("t")),
            (b"piece length".to_vec(), Ben::Int(pl as u64)),
            (b"pieces".to_vec(), Ben::Str(vec![7; 20 * count])),
        ])
        .enc();
        let info = Info::from_bytes(info).map_err(|e| Fail { sig: "valid metadata refused".into(), msg: format!("{e:?}") })?;
        let data = content(i + 1, pl.min(total - p * pl));
        c.text(format!("files of {lens:?} bytes, piece {p} of {count}"));
        c.steps(1);
        match cut(|| write(data.clone(), p, info.get_files().unwrap(), pl).map_err(|e| e.to_string())) {
            Err(p) => return Err(p.fail()),
            Ok(Err(e)) => return fail("storing fails", e),
            Ok(Ok(())) => {}
        }
        let mut at = 0;
        for (k, len) in lens.iter().enumerate() {
            use std::os::unix::fs::{FileExt, MetadataExt};
            let (lo, hi) = ((p * pl).max(at), (p * pl + data.len()).min(at + len));
            let path = format!("f{k}");
            if lo < hi {
                let f = std::fs::File::open(&path).map_err(|e| Fail { sig: "file not there".into(), msg: e.to_string() })?;
                let mut b = vec![0; hi - lo];
                let ok = f.read_exact_at(&mut b, (lo - at) as u64).is_ok();
                ensure!(ok && b == data[lo - p * pl..hi - p * pl], "byte of a stored piece is wrong", "{path} from {}", lo - at);
                let m = f.metadata().unwrap();
                ensure!(m.len() <= *len as u64, "file too long", "{path}: {}", m.len());
                ensure!(m.blocks() * 512 <= (hi - lo + (1 << 20)) as u64, "more than the piece was written", "{path}: {} blocks", m.blocks());
                c.nontrivial(i);
            } else if let Ok(m) = std::fs::metadata(&path) {
                ensure!(m.blocks() <= 8, "another file was written", "{path}: {} bytes, {} blocks", m.len(), m.blocks());
            }
            at += len;
        }
        wipe();
        Ok(())
    });
    wipe();
}

fn ctx_all(len: usize, pl: usize) -> usize {
    if len.div_ceil(pl) <= 5 {
        5
    } else {
        0
    }
}

// ------------------------------------------------------------------------------------- C17

const PARTS: [&str; 22] = [
    "a", "..", ".", "", "/", "a/b", "/abs", "../x", "/../x", "a/../../x", "x/..", "...", "~", "\0", "..\0", "a\0/../../x", "..\\x", "%2e%2e", "\u{2025}", " ", "downloads", "./..",
];

/// A torrent whose files have these path components; no files: a single one with this name.
fn torrent(name: &str, paths: &[Vec<&str>], pl: usize, lens: &[usize]) -> Share {
    let total: usize = lens.iter().sum();
    let content = content(fnv(name.as_bytes()), total);
    let pieces: Vec<u8> = content.chunks(pl).flat_map(sha1).collect();
    let mut d = vec![
        (b"name".to_vec(), Ben::s(name)),
        (b"piece length".to_vec(), Ben::Int(pl as u64)),
        (b"pieces".to_vec(), Ben::Str(pieces)),
    ];
    if paths.is_empty() {
        d.push((b"length".to_vec(), Ben::Int(total as u64)));
    } else {
        let list = paths
            .iter()
            .zip(lens)
            .map(|(p, n)| Ben::Dict(vec![(b"length".to_vec(), Ben::Int(*n as u64)), (b"path".to_vec(), Ben::List(p.iter().map(|x| Ben::s(x)).collect()))]))
            .collect();
        d.push((b"files".to_vec(), Ben::List(list)));
    }
    d.sort();
    let info = Ben::Dict(d).enc();
    let hash = sha1(&info);
    Share { t: Torrent { pl: pl as u64, total: total as u64, content, from: 0, info, hash }, files: vec![] }
}

/// Stores all pieces of what the client accepts; nothing may leave the working directory.
fn try_store(share: &Share, c: &mut Case) -> Result<(), Fail> {
    let mut os = Os::new();
    os.fs = Some(Fs::new(&cwd()));
    let r = with_os(&mut os, || {
        cut(|| {
            let info = Info::from_bytes(share.t.info.clone()).ok()?;
            let mut ok = 0;
            for p in 0..share.t.count() {
                let files = info.get_files().ok()?;
                ok += write(share.t.piece(p).to_vec(), p, files, share.t.pl as usize).is_ok() as usize;
            }
            Some(ok)
        })
    })
    .map_err(|p| p.fail())?;
    let fs = os.fs.take().unwrap();
    if let Some(e) = fs.escapes.first() {
        return fail("written outside the working directory", e.clone());
    }
    c.steps(fs.ops);
    match r {
        None => c.outcome("refused"),
        Some(ok) if ok == share.t.count() => c.outcome("stored"),
        Some(_) => c.outcome("not all stored"),
    }
    if r.unwrap_or(0) > 0 {
        c.nontrivial(fnv(&share.t.info));
    }
    if fs.ops > 0 {
        wipe();
    }
    Ok(())
}

fn no_escape(r: &Report) -> Result<(), Fail> {
    if let Some(e) = r.escapes.first() {
        return fail("written outside the working directory", format!("{e}: {}", r.trace()));
    }
    r.no_panic()
}

fn contained(ctx: &mut Ctx) {
    wipe();
    let k = PARTS.len();
    for n in 0..=ctx.pick(3, 4) {
        let rad = vec![k; n];
        ctx.enumerate(&format!("paths of {n} components"), product(&rad) * 2, |i, c| {
            let d = digits(i / 2, &rad);
            let bad: Vec<&str> = d.iter().map(|x| PARTS[*x]).collect();
            c.text(format!("file path {bad:?}, of the {} file", ["first", "second"][i as usize % 2]));
            let good = vec!["ok", "fine"];
            let paths = if i % 2 == 0 { vec![bad, good] } else { vec![good, bad] };
            try_store(&torrent("t", &paths, 4, &[5, 6]), c)
        });
    }
    ctx.enumerate("names", (k * k * k) as u64, |i, c| {
        let d = digits(i, &[k, k, k]);
        let name = [PARTS[d[0]], PARTS[d[1]], PARTS[d[2]]].concat();
        c.text(format!("name {name:?}"));
        try_store(&torrent(&name, &[], 4, &[5]), c)
    });
    ctx.enumerate("names of several files", (k * k) as u64, |i, c| {
        let d = digits(i, &[k, k]);
        let name = [PARTS[d[0]], PARTS[d[1]]].concat();
        c.text(format!("name {name:?} of a torrent with files"));
        try_store(&torrent(&name, &[vec!["a"], vec!["d", "b"]], 4, &[5, 6]), c)
    });
    ctx.enumerate("empty files", (k * k) as u64, |i, c| {
        let d = digits(i, &[k, k]);
        let bad = vec![PARTS[d[0]], PARTS[d[1]]];
        c.text(format!("empty file at {bad:?}"));
        try_store(&torrent("t", &[vec!["a"], bad], 4, &[5, 0]), c)
    });
    // hostile after many harmless components, and in the last of many files
    let depths = ctx.pick(48, 300);
    ctx.enumerate("deep paths", (depths * k * 2) as u64, |i, c| {
        let (n, part, up) = (i as usize / k / 2, PARTS[i as usize / 2 % k], i % 2 == 0);
        let mut bad = vec!["d"; n];
        bad.extend(vec![".."; if up { n } else { 0 }]);
        bad.extend([part, "x"]);
        c.text(format!("{n} components{}, then {part:?}", if up { ", as many back" } else { "" }));
        try_store(&torrent("t", &[vec!["a"], bad.clone()], 4, &[5, 6]), c)?;
        try_store(&torrent(&bad.join("/"), &[], 4, &[5]), c)
    });
    let counts = [3usize, 16, 17, 64, 65, 129, 257, 1025];
    ctx.enumerate("last of many files", (counts.len() * k) as u64, |i, c| {
        let (n, part) = (counts[i as usize / k], PARTS[i as usize % k]);
        let names: Vec<String> = (0..n).map(|j| format!("f{j}")).collect();
        let mut paths: Vec<Vec<&str>> = names.iter().map(|f| vec![f.as_str()]).collect();
        paths.push(vec!["..", part, "x"]);
        paths.push(vec![part, "x"]);
        c.text(format!("{n} files, then {part:?}"));
        try_store(&torrent("t", &paths, 4096, &vec![1; n + 2]), c)
    });
    // the whole client with such a torrent
    let rad = [k, k];
    ctx.enumerate("downloads", product(&rad) * 2, |i, c| {
        let d = digits(i / 2, &rad);
        let bad = vec![PARTS[d[0]], PARTS[d[1]]];
        let share = if i % 2 == 0 { torrent("t", &[vec!["a"], bad.clone()], 4, &[5, 6]) } else { torrent(&bad.concat(), &[], 4, &[9]) };
        c.text(format!("downloading {}", show(&share.t.info)));
        // it may well never start or finish
        let r = run(Plan { explore: false, max_steps: 60, ..Plan::new(vec![share], vec![PeerCfg::good(0)]) });
        c.steps(r.steps.len() as u64);
        c.nontrivial(fnv(format!("{:?}", r.disk.keys()).as_bytes()));
        no_escape(&r)
    });
    // what a cache file says
    let mark = "QQQ";
    let single = torrent(mark, &[], 4, &[9]);
    let multi = torrent("t", &[vec!["a"], vec![mark, "b"]], 4, &[5, 6]);
    let caches: Vec<String> = [&single, &multi]
        .iter()
        .map(|s| {
            let t = Torrent { pl: s.t.pl, total: s.t.total, content: s.t.content.clone(), from: 0, info: s.t.info.clone(), hash: s.t.hash.clone() };
            let share = Share { t, files: vec![] };
            let name = share.cache();
            let r = run(Plan { explore: false, ..Plan::new(vec![share], vec![PeerCfg::good(0)]) });
            String::from_utf8_lossy(r.disk.get(&name).map(|b| b.as_slice()).unwrap_or(b"")).into_owned()
        })
        .collect();
    wipe();
    let shares = [Rc::new(vec![single]), Rc::new(vec![multi])];
    ctx.enumerate("cache files", product(&rad) * 2, |i, c| {
        let d = digits(i / 2, &rad);
        let bad = [PARTS[d[0]], PARTS[d[1]]].concat();
        let json: String = bad.chars().map(|ch| format!("\\u{:04x}", ch as u32)).collect();
        let w = i as usize % 2;
        c.text(format!("a cache file with {bad:?} in place of a harmless {}", ["name", "path"][w]));
        ensure!(caches[w].contains(mark), "cache does not hold the name", "{}", caches[w]);
        wipe();
        real(|| {
            std::fs::create_dir_all("downloads").unwrap();
            std::fs::write(shares[w][0].cache(), caches[w].replace(mark, &json)).unwrap();
        });
        let plan = Plan::new(vec![], vec![PeerCfg::good(0)]);
        let r = run(Plan { shares: Rc::clone(&shares[w]), explore: false, keep: true, max_steps: 60, found: vec![(0, addr(0))], ..plan });
        c.steps(r.steps.len() as u64);
        c.nontrivial(fnv(format!("{:?}", r.disk.keys()).as_bytes()));
        no_escape(&r)
    });
    // info hashes that look like paths
    let hashes: Vec<Vec<u8>> = ["/../../../../../../x", "../../../../../../abc", "....................", "////////////////////", "/abs/olute/path/to/x", "a/b/c/d/e/f/g/h/i/jk", "..\0/../../../../../xx", "%2f..%2f..%2f..%2fab"]
        .iter()
        .map(|s| {
            let mut b = s.as_bytes().to_vec();
            b.resize(20, b'/');
            b
        })
        .chain([vec![0; 20], vec![255; 20], vec![b'\n'; 20]])
        .collect();
    ctx.enumerate("info hashes", hashes.len() as u64 * 3, |i, c| {
        let mut share = Share::single("f", 8, 13);
        share.t.hash = hashes[i as usize / 3].clone();
        c.text(format!("info hash {}", show(&share.t.hash)));
        let mut p = PeerCfg::good(0);
        if i % 3 == 1 {
            p.meta = Moods::Always(Mood::Close);
        } else if i % 3 == 2 {
            p.refuse = Some(false);
        }
        let r = run(Plan { explore: false, max_steps: 60, ..Plan::new(vec![share], vec![p]) });
        c.steps(r.steps.len() as u64);
        c.nontrivial(i);
        no_escape(&r)
    });
    wipe();
}
