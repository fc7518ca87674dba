//! C04 (metadata is read faithfully), C05 (unusable metadata is refused, accepted metadata is usable).
use crate::util::*;
use rust_bit::verif::bencode::{Decoder, Encode};
use rust_bit::verif::torrent::{File, Info};
use sim::runner::*;
use sim::{ensure, fnv, show};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C04",
            level: "exploration",
            rule: "every combination of single-file/multi-file layout, file sizes (0 to 2^40), names and nested paths (ASCII and not), piece lengths, and extra keys; each dictionary is read from its bytes and every reported fact compared with it; also the same facts after a save/load through the local cache file; non-trivial: the dictionary describes at least one byte of content",
            assumptions: &["extra keys only have to leave the standard fields intact"],
            run: faithful,
        },
        Spec {
            id: "C05",
            level: "exploration",
            rule: "a valid dictionary with every field replaced by every value of a hostile menu (missing, wrong type, zero, huge, short or long hash lists, malformed file entries), singly and in pairs; refused or fully usable; non-trivial: at least one field is hostile",
            assumptions: &["piece counts above 200000 are not walked piece by piece"],
            run: unusable,
        },
    ]
}

fn hashes(n: usize) -> Vec<u8> {
    (0..n).flat_map(|i| sha1(&i.to_be_bytes())).collect()
}

pub struct Layout {
    /// None: single file of that length.
    pub files: Option<Vec<(Vec<String>, u64)>>,
    pub length: u64,
}

fn layouts(thorough: bool) -> Vec<Layout> {
    let mut v = vec![];
    let mut singles = vec![1u64, 2, 19, 20, 255, 256, 16383, 16384, 16385, 65535, 65536, 100_000, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40];
    if thorough {
        singles.extend(3..200);
    }
    for s in singles {
        v.push(Layout { files: None, length: s });
    }
    let sizes = [0u64, 1, 20, 16384, 100_001, (1 << 32) + 7];
    let paths: [&[&str]; 6] = [&["a"], &["dir", "b c"], &["é", "日本", "x.txt"], &["10"], &["a b", "..c", "d."], &["0", "00", "000", "e"]];
    for n in 1..=4usize {
        let step = if n == 4 && !thorough { 5 } else { 1 };
        for i in (0..(sizes.len() as u64).pow(n as u32)).step_by(step) {
            let d = digits(i, &vec![sizes.len(); n]);
            let files = d
                .iter()
                .enumerate()
                .map(|(k, s)| {
                    let mut p: Vec<String> = paths[(k + i as usize) % paths.len()].iter().map(|x| x.to_string()).collect();
                    p.push(format!("f{k}"));
                    (p, sizes[*s])
                })
                .collect();
            v.push(Layout { files: Some(files), length: 0 });
        }
    }
    // names alike, deep directories, long and odd names
    let file = |p: &[&str], n: u64| (p.iter().map(|s| s.to_string()).collect::<Vec<_>>(), n);
    let long = "n".repeat(255);
    let deep: Vec<String> = (0..40).map(|k| format!("d{k}")).collect();
    let odd = [" a ", "a\tb", "q\"uote", "back\\slash", "line\nbreak", "\u{7f}\u{2028}", "e\u{301}", "\u{e9}", "CASE", "case", "a.tar.gz", "-", "[x]{y}:1:e", "i5e", "%41", "a+b&c"];
    for n in [5u64, 16384] {
        v.push(Layout { files: Some(vec![file(&["a", "x"], n), file(&["b", "x"], n), file(&["x"], n), file(&["a", "xx"], n), file(&["a", "b", "x"], n)]), length: 0 });
        v.push(Layout { files: Some(vec![file(&["z"], n), file(&["a"], n), file(&["m"], 0), file(&["B"], n)]), length: 0 });
        v.push(Layout { files: Some(vec![(deep.clone(), n), (deep[..20].to_vec(), n), (vec![long.clone(), long.clone()], n)]), length: 0 });
        v.push(Layout { files: Some(odd.iter().map(|o| file(&[o, o], n)).collect()), length: 0 });
    }
    // many files
    for n in [9u64, 10, 11, 100, 127, 128, 129, 255, 256, 257, 300, 1025, 4097] {
        v.push(Layout {
            files: Some((0..n).map(|k| (vec![format!("d{}", k % 7), format!("{k}")], k * 37 % 1000)).collect()),
            length: 0,
        });
    }
    v
}

impl Layout {
    fn total(&self) -> u64 {
        match &self.files {
            Some(f) => f.iter().map(|x| x.1).sum(),
            None => self.length,
        }
    }
    fn file_list(&self, name: &str) -> Vec<(Vec<String>, u64)> {
        self.files.clone().unwrap_or_else(|| vec![(vec![name.to_string()], self.length)])
    }
}

fn file_dict(p: &[String], len: u64, extra: usize) -> Ben {
    let mut d: Vec<(Vec<u8>, Ben)> = vec![];
    if extra == 2 {
        d.push((b"attr".to_vec(), Ben::s("x")));
    }
    d.push((b"length".to_vec(), Ben::Int(len)));
    if extra == 3 {
        d.push((b"md5sum".to_vec(), Ben::Str(vec![b'0'; 32])));
    }
    d.push((b"path".to_vec(), Ben::List(p.iter().map(|s| Ben::s(s)).collect())));
    if extra == 4 {
        d.push((b"path.utf-8".to_vec(), Ben::List(vec![Ben::s("other")])));
    }
    Ben::Dict(d)
}

fn dict(l: &Layout, name: &str, pl: u64, pieces: &[u8], extra: usize) -> Ben {
    let mut d: Vec<(Vec<u8>, Ben)> = vec![];
    match &l.files {
        Some(f) => d.push((b"files".to_vec(), Ben::List(f.iter().map(|(p, n)| file_dict(p, *n, extra)).collect()))),
        None => d.push((b"length".to_vec(), Ben::Int(l.length))),
    }
    d.push((b"name".to_vec(), Ben::s(name)));
    d.push((b"piece length".to_vec(), Ben::Int(pl)));
    d.push((b"pieces".to_vec(), Ben::Str(pieces.to_vec())));
    if extra == 1 {
        d.insert(0, (b"collections".to_vec(), Ben::List(vec![Ben::s("org.example")])));
        d.push((b"private".to_vec(), Ben::Int(1)));
        d.push((b"source".to_vec(), Ben::s("there")));
    }
    if extra == 5 {
        d.push((b"x".to_vec(), Ben::Dict(vec![(b"length".to_vec(), Ben::Int(3)), (b"name".to_vec(), Ben::s("no"))])));
    }
    if extra == 6 {
        d.push((b"aged".to_vec(), Ben::Neg(1)));
        d.push((b"zone".to_vec(), Ben::List(vec![Ben::Neg(7200), Ben::Dict(vec![(b"name".to_vec(), Ben::Neg(1 << 31))])])));
    }
    d.sort_by(|a, b| a.0.cmp(&b.0));
    Ben::Dict(d)
}

fn faithful(ctx: &mut Ctx) {
    let ls = layouts(ctx.thorough());
    let long = "N".repeat(255);
    let names = ["n", "some name.txt", "ünïcødé", "日本語", "0", "name with 12:34 e", "\u{1f600}", " a\t\"q\"\\\n\u{1}.", &long];
    let pls = [1u64, 2, 7, 16384, 32768, 262144, 1 << 24, 1 << 31];
    let radix = [ls.len(), names.len(), pls.len(), 7];
    let file = format!("{}/cache", ctx.scratch);
    ctx.enumerate("dictionaries", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let (l, name, pl) = (&ls[d[0]], names[d[1]], pls[d[2]]);
        let count = l.total().div_ceil(pl);
        if count > 3000 || count == 0 {
            c.text("skipped: no content or too many pieces");
            c.outcome("skipped");
            return Ok(());
        }
        read(l, name, pl, d[3], (d[2] == 3 || d[2] == 5).then_some(&file), c)
    });
    // many pieces
    let counts = [4095u64, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100_001];
    ctx.enumerate("many pieces", counts.len() as u64 * 4, |i, c| {
        let pl = [1u64, 16384][i as usize % 2];
        let length = counts[i as usize / 4] * pl - pl / 2;
        let files = [None, Some(vec![(vec!["a".to_string()], length - 1), (vec!["b".to_string(), "c".to_string()], 1)])][i as usize / 2 % 2].clone();
        read(&Layout { files, length }, "long", pl, 0, (i % 4 == 1).then_some(&file), c)
    });
}

/// One dictionary, read from its bytes (and from a cache file).
fn read(l: &Layout, name: &str, pl: u64, extra: usize, cache: Option<&String>, c: &mut Case) -> Result<(), Fail> {
    let total = l.total();
    let count = total.div_ceil(pl);
    let ph = hashes(count as usize);
    let bytes = dict(l, name, pl, &ph, extra).enc();
    c.text(format!("{} files, total {total}, piece length {pl}, extra {extra}: {}", l.file_list(name).len(), show(&bytes)));
    let b2 = bytes.clone();
    let info = match cut(|| Info::from_bytes(b2).map_err(|e| e.to_string())).map_err(|p| p.fail())? {
        Ok(i) => i,
        Err(e) => return fail("refuses valid metadata", e),
    };
    c.nontrivial(fnv(&bytes));
    let facts = |info: &Info| -> Result<(), Fail> {
        cut(|| -> Result<(), Fail> {
            ensure!(info.get_total_length() as u64 == total, "wrong total length", "{} instead of {total}", info.get_total_length());
            ensure!(info.get_piece_length() as u64 == pl, "wrong piece length", "{} instead of {pl}", info.get_piece_length());
            let got: Vec<(Vec<String>, u64)> = match info.get_files() {
                Ok(f) => f.iter().map(|f: &File| (f.get_path(), f.get_length() as u64)).collect(),
                Err(e) => return fail("no file list", e.to_string()),
            };
            ensure!(got == l.file_list(name), "wrong file list", "{got:?}");
            for k in 0..count as usize {
                ensure!(info.get_piece(k) == &ph[k * 20..k * 20 + 20], "wrong piece hash", "piece {k}");
                ensure!(info.verify_piece(&k.to_be_bytes(), k), "good piece refused", "piece {k}");
                ensure!(!info.verify_piece(&(k + 1).to_be_bytes(), k), "bad piece accepted", "piece {k}");
            }
            if extra == 0 {
                let e = info.encode();
                ensure!(e == bytes, "re-encoding differs", "{}", show(&e));
                ensure!(sha1(&info.encode()) == sha1(&bytes), "wrong info hash", "");
            }
            Ok(())
        })
        .map_err(|p| p.fail())?
    };
    facts(&info)?;
    if let Some(file) = cache {
        let loaded = cut(|| {
            info.save(file).map_err(|e| e.to_string())?;
            Info::from_file(file).map_err(|e| e.to_string())
        })
        .map_err(|p| p.fail())?;
        match loaded {
            Ok(j) => facts(&j)?,
            Err(e) => return fail("saved metadata cannot be loaded", e),
        }
    }
    c.outcome(if extra == 0 { "read and re-encoded" } else { "read" });
    Ok(())
}

/// Hostile replacements for one field.
fn menu(field: &str) -> Vec<Option<Ben>> {
    let types = vec![None, Some(Ben::s("text")), Some(Ben::List(vec![])), Some(Ben::Dict(vec![])), Some(Ben::s(""))];
    let numbers: Vec<Option<Ben>> = [0u64, 1, 3, 6, 7, 8, 9, 100, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, 1 << 62, 1 << 63, u64::MAX - 6, u64::MAX - 1, u64::MAX]
        .iter()
        .map(|n| Some(Ben::Int(*n)))
        .chain([Some(Ben::Raw(b"i-1e".to_vec())), Some(Ben::Raw(b"i-7e".to_vec())), Some(Ben::Raw(b"i99999999999999999999e".to_vec()))])
        .collect();
    let mut v = types;
    let f = |n: u64| file_dict(&["f".into()], n, 0);
    match field {
        "piece length" | "length" => v.extend(numbers),
        "name" => {
            v.push(Some(Ben::Int(3)));
            v.push(Some(Ben::Str(vec![0xff, 0xfe])));
        }
        "pieces" => {
            v.push(Some(Ben::Int(20)));
            for n in [1usize, 19, 20, 21, 39, 40, 41, 60, 80, 2000] {
                v.push(Some(Ben::Str(vec![7; n])));
            }
        }
        "files" => {
            v.push(Some(Ben::Int(1)));
            for n in &numbers {
                if let Some(b) = n {
                    v.push(Some(Ben::List(vec![Ben::Dict(vec![(b"length".to_vec(), b.clone()), (b"path".to_vec(), Ben::List(vec![Ben::s("f")]))])])));
                }
            }
            v.push(Some(Ben::List(vec![f(u64::MAX), f(1)])));
            v.push(Some(Ben::List(vec![f(1 << 63), f(1 << 63)])));
            v.push(Some(Ben::List(vec![f(u64::MAX), f(u64::MAX), f(8)])));
            v.push(Some(Ben::List(vec![f(4), f(3)])));
            let bad: Vec<Ben> = vec![
                Ben::Int(3),
                Ben::s("x"),
                Ben::List(vec![]),
                Ben::Dict(vec![]),
                Ben::Dict(vec![(b"length".to_vec(), Ben::Int(3))]),
                Ben::Dict(vec![(b"path".to_vec(), Ben::List(vec![Ben::s("f")]))]),
                Ben::Dict(vec![(b"length".to_vec(), Ben::s("3")), (b"path".to_vec(), Ben::List(vec![Ben::s("f")]))]),
                Ben::Dict(vec![(b"length".to_vec(), Ben::Int(3)), (b"path".to_vec(), Ben::s("f"))]),
                Ben::Dict(vec![(b"length".to_vec(), Ben::Int(3)), (b"path".to_vec(), Ben::List(vec![Ben::Int(1)]))]),
                Ben::Dict(vec![(b"length".to_vec(), Ben::Int(3)), (b"path".to_vec(), Ben::List(vec![Ben::Str(vec![0xff])]))]),
                Ben::Dict(vec![(b"length".to_vec(), Ben::Int(0)), (b"path".to_vec(), Ben::List(vec![Ben::Int(1)]))]),
            ];
            for b in bad {
                v.push(Some(Ben::List(vec![b.clone()])));
                v.push(Some(Ben::List(vec![f(7), b.clone()])));
                v.push(Some(Ben::List(vec![b.clone(), f(7)])));
                v.push(Some(Ben::List(vec![f(4), b, f(3)])));
            }
        }
        _ => {}
    }
    v
}

const FIELDS: [&str; 5] = ["files", "length", "name", "piece length", "pieces"];

/// What a reader has to say about a (possibly hostile) dictionary.
enum Expect {
    Accept,
    Refuse,
    Either,
}

/// Judges the dictionary from its entries: `Some(total, piece length, pieces)` when it can be used.
fn judge(d: &[(Vec<u8>, Ben)]) -> Expect {
    let get = |k: &str| d.iter().find(|(x, _)| x == k.as_bytes()).map(|(_, v)| v);
    let (pl, pieces) = match (get("piece length"), get("pieces"), get("name")) {
        (Some(Ben::Int(pl)), Some(Ben::Str(p)), Some(Ben::Str(n))) if std::str::from_utf8(n).is_ok() => (*pl, p),
        _ => return Expect::Refuse,
    };
    let total = match (get("files"), get("length")) {
        (None, Some(Ben::Int(n))) => *n,
        (Some(Ben::List(l)), None) => {
            let mut t = 0u64;
            for f in l {
                let Ben::Dict(f) = f else { return Expect::Refuse };
                let g = |k: &str| f.iter().find(|(x, _)| x == k.as_bytes()).map(|(_, v)| v);
                let (Some(Ben::Int(n)), Some(Ben::List(p))) = (g("length"), g("path")) else { return Expect::Refuse };
                for c in p {
                    match c {
                        Ben::Str(s) if std::str::from_utf8(s).is_ok() => {}
                        _ => return Expect::Refuse,
                    }
                }
                match t.checked_add(*n) {
                    Some(x) => t = x,
                    None => return Expect::Refuse,
                }
            }
            t
        }
        (None, None) => return Expect::Refuse,
        (Some(Ben::List(_)), Some(_)) => return Expect::Either,
        (Some(_), Some(_)) => return Expect::Either,
        _ => return Expect::Refuse,
    };
    if pl == 0 || pieces.len() % 20 != 0 || (pieces.len() / 20) as u64 != total.div_ceil(pl) {
        return Expect::Refuse;
    }
    if total == 0 || pl > 1 << 31 || total > 1 << 62 {
        return Expect::Either; // odd, but has to be usable if taken
    }
    if let Some(Ben::Str(n)) = get("name") {
        if n.is_empty() {
            return Expect::Either;
        }
    }
    if let Some(Ben::List(l)) = get("files") {
        // a file without a name cannot be stored anywhere
        let nameless = l.iter().any(|f| matches!(f, Ben::Dict(f) if f.iter().any(|(k, v)| k == b"path" && *v == Ben::List(vec![]))));
        if nameless {
            return Expect::Either;
        }
    }
    Expect::Accept
}

fn unusable(ctx: &mut Ctx) {
    let bases: Vec<Vec<(Vec<u8>, Ben)>> = {
        let single = Layout { files: None, length: 7 };
        let multi = Layout { files: Some(vec![(vec!["a".into()], 4), (vec!["b".into(), "c".into()], 3)]), length: 0 };
        [single, multi]
            .iter()
            .map(|l| match dict(l, "nm", 3, &hashes(3), 0) {
                Ben::Dict(d) => d,
                _ => unreachable!(),
            })
            .collect()
    };
    let menus: Vec<Vec<Option<Ben>>> = FIELDS.iter().map(|f| menu(f)).collect();
    // (base, [(field, choice)])
    let mut cases: Vec<(usize, Vec<(usize, usize)>)> = vec![];
    for b in 0..bases.len() {
        cases.push((b, vec![]));
        for f in 0..FIELDS.len() {
            for x in 0..menus[f].len() {
                cases.push((b, vec![(f, x)]));
                for g in f + 1..FIELDS.len() {
                    for y in 0..menus[g].len() {
                        cases.push((b, vec![(f, x), (g, y)]));
                        if ctx.thorough() {
                            for h in g + 1..FIELDS.len() {
                                for z in 0..menus[h].len() {
                                    cases.push((b, vec![(f, x), (g, y), (h, z)]));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.enumerate("hostile fields", cases.len() as u64, |i, c| {
        let (b, edits) = &cases[i as usize];
        let mut d = bases[*b].clone();
        for (f, x) in edits {
            d.retain(|(k, _)| k != FIELDS[*f].as_bytes());
            if let Some(v) = &menus[*f][*x] {
                d.push((FIELDS[*f].as_bytes().to_vec(), v.clone()));
            }
        }
        d.sort_by(|a, b| a.0.cmp(&b.0));
        check_use(&d, c, !edits.is_empty())
    });
    // great numbers of pieces, and a few hashes or bytes more or less
    let counts = [1u64, 2, 255, 256, 257, 65_535, 65_536, 65_537, 131_072];
    let offs = [0i64, 1, -1, 2, -2, 255, 256, -256, 65_535, 65_536, -65_536, 131_072];
    let odd = [0i64, 1, -1, 10, 19, -19];
    let radix = [counts.len(), offs.len(), odd.len(), 3, 2];
    ctx.enumerate("numbers of pieces", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let bytes = ((counts[d[0]] as i64 + offs[d[1]]) * 20 + odd[d[2]]).max(0) as u64;
        let pl = 16_384;
        let total = [counts[d[0]] * pl, (counts[d[0]] - 1) * pl + 1, counts[d[0]] * pl - 1][d[3]];
        let l = match d[4] {
            0 => Layout { files: None, length: total },
            _ => Layout { files: Some(vec![(vec!["a".into()], 1), (vec!["b".into()], total - 1)]), length: 0 },
        };
        let pieces: Vec<u8> = (0..bytes).map(|k| (k / 20 * 7 + k) as u8).collect();
        let wrong = d[1] + d[2] > 0;
        let Ben::Dict(d) = dict(&l, "nm", pl, &pieces, 0) else { unreachable!() };
        check_use(&d, c, wrong)?;
        c.text(format!("{total} bytes in pieces of {pl}, {bytes} bytes of hashes, {} files", l.file_list("nm").len()));
        Ok(())
    });
    // documents that are no dictionary at all, and every truncation of a good one
    let good = Ben::Dict(bases[1].clone()).enc();
    let mut raws: Vec<Vec<u8>> = (0..good.len()).map(|k| good[..k].to_vec()).collect();
    raws.extend([b"".to_vec(), b"i5e".to_vec(), b"le".to_vec(), b"4:spam".to_vec(), b"de".to_vec(), b"x".to_vec(), b"d4:infode".to_vec()]);
    ctx.enumerate("no dictionary", raws.len() as u64, |i, c| {
        let b = raws[i as usize].clone();
        c.text(show(&b));
        c.nontrivial(fnv(&b));
        let r = cut(|| Info::from_bytes(b).is_ok()).map_err(|p| p.fail())?;
        ensure!(!r, "accepts what is no metadata", "accepted");
        c.outcome("refused");
        Ok(())
    });
}

fn check_use(d: &[(Vec<u8>, Ben)], c: &mut Case, hostile: bool) -> Result<(), Fail> {
    let bytes = Ben::Dict(d.to_vec()).enc();
    c.text(show(&bytes));
    if hostile {
        c.nontrivial(fnv(&bytes));
    }
    let b2 = bytes.clone();
    let via_value = cut(|| {
        let m = Decoder::init(b2).decode().map_err(|e| e.to_string())?;
        Info::from_metainfo(&m).map_err(|e| e.to_string())
    })
    .map_err(|p| p.fail())?;
    let b2 = bytes.clone();
    let r = cut(|| Info::from_bytes(b2).map_err(|e| e.to_string())).map_err(|p| p.fail())?;
    ensure!(r.is_ok() == via_value.is_ok(), "reading bytes and value disagree", "{:?} {:?}", r.is_ok(), via_value.is_ok());
    match (r, judge(d)) {
        (Ok(_), Expect::Refuse) => fail("accepts unusable metadata", "accepted"),
        (Err(e), Expect::Accept) => fail("refuses valid metadata", e),
        (Err(_), _) => {
            c.outcome("refused");
            Ok(())
        }
        (Ok(info), _) => {
            let r = cut(|| -> Result<(), Fail> {
                let total = info.get_total_length() as u128;
                let pl = info.get_piece_length() as u128;
                ensure!(pl > 0, "accepts piece length zero", "");
                let n = total.div_ceil(pl);
                let files = match info.get_files() {
                    Ok(f) => f,
                    Err(e) => return fail("accepted metadata has no file list", e.to_string()),
                };
                let sum: u128 = files.iter().map(|f| f.get_length() as u128).sum();
                ensure!(sum == total, "file sizes do not add up", "{sum} {total}");
                for k in 0..n.min(200_000) as usize {
                    info.verify_piece(b"x", k);
                }
                if n > 0 {
                    info.verify_piece(b"x", (n - 1) as usize);
                }
                info.encode();
                Ok(())
            });
            r.map_err(|p| Fail { sig: format!("accepted metadata is unusable: {}", p.at), msg: format!("panicked at {}: {}", p.at, p.msg) })??;
            c.outcome("accepted and usable");
            Ok(())
        }
    }
}
