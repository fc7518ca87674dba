//! C01 (decoding is total), C02 (decoding is exact), C03 (encoding is canonical).
use crate::util::*;
use rust_bit::verif::bencode::{encode_dict_entry, Decoder, Encode, Metainfo};
use sim::runner::*;
use sim::{ensure, fnv, show};
use std::collections::HashMap;

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C01",
            level: "exploration",
            rule: "every byte string over an 11-letter alphabet up to a length, every truncation and every single-byte change (256 values) and every two-position cut of a set of documents, nesting depths up to 2^20 in four shapes, extreme length/integer numbers at every nesting position; non-trivial: the input is not one well-formed document",
            assumptions: &["decoding runs on a 2 MiB stack, the default of the client's threads", "memory limit 2 GiB, 20 s processor time per input"],
            run: total,
        },
        Spec {
            id: "C02",
            level: "exploration",
            rule: "every byte string over the alphabet up to a length and every document of a bounded grammar (depth, width, sizes up to 70000), alone, followed by other bytes, and in sequence, decoded and compared with an independent reference reading; non-trivial: a value was decoded, or the reference calls the input malformed after its first byte",
            assumptions: &["leading zeros, unsorted or repeated or non-UTF-8 keys may be refused or accepted"],
            run: exact,
        },
        Spec {
            id: "C03",
            level: "exploration",
            rule: "every value of a bounded grammar through every public encoding entry point, compared byte for byte with reference bencode and decoded back; non-trivial: encoding is not empty",
            assumptions: &[],
            run: encode,
        },
    ]
}

fn letters() -> Vec<&'static [u8]> {
    vec![b"d", b"l", b"i", b"e", b":", b"0", b"1", b"2", b"-", b"a", b"\xff"]
}

fn run_decode(b: &[u8]) -> Result<(Result<Metainfo, String>, usize), Fail> {
    let v = b.to_vec();
    cut(|| {
        let mut d = Decoder::init(v);
        let r = d.decode().map_err(|e| e.to_string());
        let n = d.get_total_parsed_bytes();
        (r, n)
    })
    .map_err(|p| p.fail())
}

fn to_meta(b: &Ben) -> Metainfo {
    match b {
        Ben::Int(i) => Metainfo::Integer(*i as usize),
        Ben::Neg(i) => Metainfo::NegativeInteger(*i as usize),
        Ben::Str(s) => Metainfo::String(s.clone()),
        Ben::List(l) => Metainfo::List(l.iter().map(to_meta).collect()),
        Ben::Dict(d) => Metainfo::Dictionary(
            d.iter()
                .map(|(k, v)| (String::from_utf8(k.clone()).unwrap(), to_meta(v)))
                .collect(),
        ),
        Ben::Raw(_) => unreachable!(),
    }
}

fn documents() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "i0e", "i38e", "i18446744073709551615e", "0:", "4:spam", "10:0123456789", "le", "de", "l4:spami42ee",
        "d3:cow3:moo4:spam4:eggse", "lli1eel0:eleldee", "d1:ad1:bd1:cl1:deeee",
        "d4:infod6:lengthi5e4:name3:abc12:piece lengthi4e6:pieces20:AAAAAAAAAAAAAAAAAAAAee",
        "d1:md11:ut_metadatai1e6:ut_pexi2ee13:metadata_sizei28282ee", "d12:complete_agoi-1e13:metadata_sizei28282ee", "li-1ei-10ee",
        "d8:msg_typei1e5:piecei0e10:total_sizei34256ee",
        "d8:intervali1800e5:peers12:\x01\x02\x03\x04\x05\x06\x01\x02\x03\x04\x05\x06e",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.push([b"100:".to_vec(), vec![b'x'; 100]].concat());
    v
}

fn nest(shape: usize, n: usize) -> Vec<u8> {
    match shape {
        0 => vec![b'l'; n],
        1 => [vec![b'l'; n], vec![b'e'; n]].concat(),
        2 => b"d1:a".repeat(n),
        3 => [b"d1:a".repeat(n), b"i1e".to_vec(), vec![b'e'; n]].concat(),
        _ => [b"ld1:a".repeat(n), vec![b'e'; 2 * n]].concat(),
    }
}

fn total(ctx: &mut Ctx) {
    let l = letters();
    let max = ctx.pick(6, 7);
    let check = |b: &[u8], c: &mut Case| -> Result<(), Fail> {
        c.text(show(b));
        let (r, n) = run_decode(b)?;
        ensure!(n <= b.len(), "reads past the end", "reports {n} bytes consumed of {}", b.len());
        let well = matches!(ref_decode(b), Ref::Good(_, k) if k == b.len());
        if !well {
            c.nontrivial(fnv(b));
        }
        c.outcome(match r {
            Ok(Metainfo::Nothing()) => "no value",
            Ok(_) => "value",
            Err(_) => "error",
        });
        Ok(())
    };
    ctx.enumerate("short strings", strings(l.len() as u64, max), |i, c| check(&string_at(&l, i), c));
    let docs = documents();
    // truncations, byte changes
    let mut muts: Vec<(usize, usize, i32)> = vec![];
    for (d, doc) in docs.iter().enumerate() {
        for p in 0..doc.len() {
            muts.push((d, p, -1));
            muts.push((d, p, -2));
            for v in 0..256 {
                muts.push((d, p, v));
            }
        }
    }
    ctx.enumerate("mutated documents", muts.len() as u64, |i, c| {
        let (d, p, v) = muts[i as usize];
        let mut b = docs[d].clone();
        match v {
            -1 => b.truncate(p),
            -2 => {
                b.remove(p);
            }
            v => b[p] = v as u8,
        }
        check(&b, c)
    });
    // extreme numbers in every context
    let (nums, ctxs) = numbers();
    ctx.enumerate("extreme numbers", (nums.len() * ctxs.len()) as u64, |i, c| {
        let (pre, post) = ctxs[i as usize / nums.len()];
        check(format!("{pre}{}{post}", nums[i as usize % nums.len()]).as_bytes(), c)
    });
    let depths: Vec<usize> = (0..=20).map(|k| 1usize << k).chain([3, 1000, 10_000, 50_000, 300_000]).collect();
    ctx.enumerate("deep nesting", (depths.len() * 5) as u64, |i, c| {
        let b = nest(i as usize % 5, depths[i as usize / 5]);
        c.text(format!("shape {} depth {}", i % 5, depths[i as usize / 5]));
        c.nontrivial(i);
        let r = on_thread(|| cut(|| Decoder::init(b).decode().map(std::mem::forget).is_ok()));
        c.outcome(format!("deep ok={}", r.map_err(|p| p.fail())?));
        Ok(())
    });
}

/// Numbers at every limit, and the places a number can stand in.
fn numbers() -> (Vec<String>, Vec<(&'static str, &'static str)>) {
    let mut nums: Vec<String> = [
        "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615",
        "18446744073709551616", "99999999999999999999999999999999", "00000000000000000000000000000000000001",
        "-1", "-0", "-18446744073709551616", "+1", "1.5", "1e3", "",
    ]
    .map(String::from)
    .to_vec();
    nums.extend((0..64).map(|k| format!("-{}", 1u64 << k)));
    nums.extend(["-00", "-01", "--1", "-", "1-", "-1-1", "-+1", " -1", "- 1", "-9223372036854775809"].map(String::from));
    for p in (0..65).map(|k| 1u128 << k).chain((0..21).map(|k| 10u128.pow(k))) {
        nums.extend([p - 1, p, p + 1].map(|n| n.to_string()));
    }
    nums.extend((18446744073709551600u128..18446744073709551640).map(|n| n.to_string()));
    nums.sort();
    nums.dedup();
    let ctxs = vec![
        ("", ":"), ("", ":abc"), ("i", "e"), ("i", ""), ("l", ":"), ("l", ":abce"), ("li", "ee"), ("d", ":"),
        ("d", ":abci1ee"), ("d1:a", ":"), ("d1:a", ":abce"), ("d1:ai", "ee"), ("ld1:al", ":aeee"), ("d1:al1:b", ":xee"),
    ];
    (nums, ctxs)
}

/// Whether what was made of an unusual input is all in there: a name that is no text may be left
/// out, and of values under one name any may be taken.
fn agrees(b: &Ben, m: &Metainfo) -> bool {
    match (b, m) {
        (Ben::Int(i), Metainfo::Integer(j)) => *i == *j as u64,
        (Ben::Neg(i), Metainfo::NegativeInteger(j)) => *i == *j as u64 || *i > 1 << 63,
        (Ben::Str(s), Metainfo::String(t)) => s == t,
        (Ben::List(l), Metainfo::List(k)) => l.len() == k.len() && l.iter().zip(k).all(|(b, m)| agrees(b, m)),
        (Ben::Dict(d), Metainfo::Dictionary(e)) => {
            e.iter().all(|(k, m)| d.iter().any(|(n, b)| n == k.as_bytes() && agrees(b, m)))
                && d.iter().filter_map(|(n, _)| std::str::from_utf8(n).ok()).all(|n| e.contains_key(n))
        }
        _ => false,
    }
}

fn compare(b: &[u8], c: &mut Case) -> Result<(), Fail> {
    let (r, n) = run_decode(b)?;
    match (ref_decode(b), r) {
        (Ref::Good(v, k), Ok(m)) => {
            let want = to_meta(&v);
            ensure!(m == want, "wrong value", "decoded {m:?}, the input says {want:?}");
            ensure!(n == k, "wrong length", "consumed {n} bytes, the value takes {k}");
            c.nontrivial(fnv(b));
            c.outcome("value");
        }
        (Ref::Good(v, _), Err(e)) => {
            return fail("refuses well-formed value", format!("{e} for {v:?}"));
        }
        (Ref::Loose(k), Ok(m)) => {
            ensure!(n == k, "wrong length", "consumed {n} bytes, the value takes {k}");
            let told = ref_loose(b);
            ensure!(told.as_ref().is_some_and(|v| agrees(v, &m)), "made up value", "decoded {m:?}, the input says {told:?}");
            c.outcome("lenient value");
        }
        (Ref::Loose(_), Err(_)) => c.outcome("lenient refused"),
        (Ref::Bad, Err(_)) => {
            c.nontrivial(fnv(b));
            c.outcome("error");
        }
        (Ref::Bad, Ok(Metainfo::Nothing())) => {
            ensure!(n == 0, "no value but input consumed", "consumed {n}");
            c.outcome("no value");
        }
        (Ref::Bad, Ok(m)) => {
            return fail("accepts malformed input", format!("decoded {m:?} from malformed input"));
        }
    }
    Ok(())
}

/// All values of the grammar with nesting at most `depth`.
pub fn grammar(depth: u32, wide: bool) -> Vec<Ben> {
    let mut leaves = vec![
        Ben::Int(0),
        Ben::Int(7),
        Ben::Int(10),
        Ben::Int(65536),
        Ben::Int(u64::MAX),
        Ben::s(""),
        Ben::s("a"),
        Ben::s("i1e"),
        Ben::Str("é€".into()),
        Ben::Str(vec![0xff, 0, b':']),
        Ben::s("0123456789AB"),
    ];
    if wide {
        leaves.push(Ben::Int(u32::MAX as u64 + 1));
        leaves.extend([1, 10, 1 << 31].map(Ben::Neg));
        leaves.push(Ben::Str(vec![b'x'; 255]));
        leaves.push(Ben::Str(vec![b'9'; 1000]));
    }
    let mut all = leaves.clone();
    let mut prev = leaves;
    for d in 0..depth {
        let mut next = vec![Ben::List(vec![]), Ben::Dict(vec![])];
        let keep: Vec<Ben> = if d == 0 { prev.clone() } else { prev.iter().step_by(7).cloned().collect() };
        for x in &keep {
            next.push(Ben::List(vec![x.clone()]));
            for k in ["", "k", "info", "piece length", "é"] {
                next.push(Ben::Dict(vec![(k.into(), x.clone())]));
            }
            for y in all.iter().step_by(if d == 0 { 1 } else { 5 }) {
                next.push(Ben::List(vec![x.clone(), y.clone()]));
                next.push(Ben::Dict(vec![("a".into(), x.clone()), ("b".into(), y.clone())]));
                next.push(Ben::Dict(vec![("a".into(), y.clone()), ("aa".into(), x.clone()), ("z".into(), y.clone())]));
                next.push(Ben::List(vec![y.clone(), x.clone(), y.clone()]));
            }
        }
        all.extend(next.iter().cloned());
        prev = next;
    }
    all.sort();
    all.dedup();
    all
}

fn exact(ctx: &mut Ctx) {
    let l = letters();
    let max = ctx.pick(6, 7);
    ctx.enumerate("short strings", strings(l.len() as u64, max), |i, c| {
        let b = string_at(&l, i);
        c.text(show(&b));
        compare(&b, c)
    });
    let g = grammar(ctx.pick(2, 3), true);
    let tails: [&[u8]; 6] = [b"", b"e", b"x", b"i1e", b"4:abcd", &[0u8; 40]];
    ctx.enumerate("grammar with trailing bytes", (g.len() * tails.len()) as u64, |i, c| {
        let mut b = g[i as usize / tails.len()].enc();
        b.extend_from_slice(tails[i as usize % tails.len()]);
        c.text(show(&b));
        compare(&b, c)
    });
    // every truncation and single-byte change of the smaller documents
    let docs = documents();
    let small: Vec<Vec<u8>> =
        g.iter().step_by(97).map(|x| x.enc()).filter(|b| b.len() < 40).chain(docs).collect();
    let mut muts: Vec<(usize, usize, i32)> = vec![];
    let changes: Vec<i32> = if ctx.thorough() { (0..256).collect() } else { b"deli0129:-a\xff".iter().map(|b| *b as i32).collect() };
    for (d, doc) in small.iter().enumerate() {
        for p in 0..doc.len() {
            muts.push((d, p, -1));
            muts.push((d, p, -2));
            muts.extend(changes.iter().map(|v| (d, p, *v)));
        }
    }
    ctx.enumerate("mutated documents", muts.len() as u64, |i, c| {
        let (d, p, v) = muts[i as usize];
        let mut b = small[d].clone();
        match v {
            -1 => b.truncate(p),
            -2 => {
                b.remove(p);
            }
            v => b[p] = v as u8,
        }
        c.text(show(&b));
        compare(&b, c)
    });
    // long strings and long lists; strings whose bytes look like structure
    let sizes = [1usize, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 9999, 10000, 16384, 65535, 65536, 70000];
    let fills = [b'0', b'e', b':', 0xff, b'd'];
    ctx.enumerate("long strings", (sizes.len() * fills.len() * 4) as u64, |i, c| {
        let d = digits(i, &[sizes.len(), fills.len(), 4]);
        let s = Ben::Str(vec![fills[d[1]]; sizes[d[0]]]);
        let v = match d[2] {
            0 => s,
            1 => Ben::List(vec![Ben::Int(1), s, Ben::Int(2)]),
            2 => Ben::Dict(vec![("pieces".into(), s), ("z".into(), Ben::Int(3))]),
            _ => Ben::List(vec![Ben::s("ab"); sizes[d[0]]]),
        };
        let b = [v.enc(), b"tail".to_vec()].concat();
        c.text(format!("{} bytes: {}", b.len(), show(&b[..b.len().min(40)])));
        compare(&b, c)
    });
    // moderately nested values that a sane limit still has to take
    ctx.enumerate("moderate nesting", 30 * 3, |i, c| {
        let depth = 1 + i as usize / 3;
        let mut v = Ben::Int(depth as u64);
        for k in 0..depth {
            v = match i % 3 {
                0 => Ben::List(vec![v]),
                1 => Ben::Dict(vec![("k".into(), v)]),
                _ if k % 2 == 0 => Ben::List(vec![Ben::s("x"), v]),
                _ => Ben::Dict(vec![("a".into(), Ben::Int(1)), ("b".into(), v)]),
            };
        }
        let b = v.enc();
        c.text(show(&b));
        compare(&b, c)
    });
    let (nums, ctxs) = numbers();
    ctx.enumerate("extreme numbers", (nums.len() * ctxs.len()) as u64, |i, c| {
        let (pre, post) = ctxs[i as usize / nums.len()];
        let b = format!("{pre}{}{post}", nums[i as usize % nums.len()]).into_bytes();
        c.text(show(&b));
        compare(&b, c)
    });
    // every octet and some wider characters at every place of a string or key, alone and next to
    // strings that differ in just that
    let wide = ["\u{80}", "\u{a0}", "é", "\u{200b}", "\u{2028}", "\u{feff}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "e\u{301}", "ß", "İ"];
    let chars: Vec<String> = (0u8..128).map(|b| char::from(b).to_string()).chain(wide.map(String::from)).collect();
    ctx.enumerate("alike keys", (chars.len() << 7) as u64, |i, c| {
        let x = chars[i as usize >> 7].as_str();
        let forms = [String::new(), "a".into(), x.into(), format!("a{x}"), format!("{x}a"), format!("a{x}a"), format!("{x}{x}")];
        let mut keys: Vec<&String> = (0..7).filter(|k| i >> k & 1 == 1).map(|k| &forms[k]).collect();
        keys.sort();
        keys.dedup();
        let d = keys.iter().enumerate().map(|(n, k)| (k.as_bytes().to_vec(), Ben::Int(n as u64))).collect();
        let b = Ben::List(vec![Ben::Dict(d), Ben::Int(1)]).enc();
        c.text(show(&b));
        compare(&b, c)
    });
    ctx.enumerate("octets of strings", 256 * 5, |i, c| {
        let x = (i / 5) as u8;
        let s = [vec![x], vec![b'a', x], vec![x, b'a'], vec![b'a', x, b'a'], vec![x; 12]][i as usize % 5].clone();
        let b = Ben::List(vec![Ben::Str(s.clone()), Ben::Dict(vec![("k".into(), Ben::Str(s))])]).enc();
        c.text(show(&b));
        compare(&b, c)
    });
    // names of all kinds of bytes
    ctx.enumerate("octets of names", 256 * 5 * 2, |i, c| {
        let x = (i / 10) as u8;
        let s = [vec![x], vec![b'a', x], vec![x, b'a'], vec![b'a', x, b'a'], vec![x; 12]][i as usize / 2 % 5].clone();
        let mut d = vec![(s, Ben::Int(2))];
        if i % 2 == 1 {
            d.extend([(b"a".to_vec(), Ben::Int(1)), ("\u{fffd}".into(), Ben::Int(3))]);
            d.sort_by(|a, b| a.0.cmp(&b.0));
        }
        let b = Ben::List(vec![Ben::Dict(d), Ben::Int(1)]).enc();
        c.text(show(&b));
        compare(&b, c)
    });
    // several documents in a row from one decoder
    let seq: Vec<Ben> = g.iter().step_by(g.len() / 24).cloned().collect();
    let n = seq.len();
    ctx.enumerate("sequences of three", (n * n * n) as u64, |i, c| {
        let d = digits(i, &[n, n, n]);
        let vs: Vec<&Ben> = d.iter().map(|k| &seq[*k]).collect();
        let b: Vec<u8> = vs.iter().flat_map(|v| v.enc()).collect();
        c.text(show(&b));
        c.nontrivial(fnv(&b));
        let got = cut(|| {
            let mut dec = Decoder::init(b.clone());
            (0..3)
                .map(|_| (dec.decode().ok(), dec.get_total_parsed_bytes()))
                .collect::<Vec<_>>()
        })
        .map_err(|p| p.fail())?;
        let mut pos = 0;
        for (k, v) in vs.iter().enumerate() {
            pos += v.enc().len();
            ensure!(
                got[k] == (Some(to_meta(v)), pos),
                "wrong value in sequence",
                "document {k}: got {:?}, want {:?} ending at {pos}",
                got[k],
                to_meta(v)
            );
        }
        c.outcome("sequence");
        Ok(())
    });
}

fn encode(ctx: &mut Ctx) {
    let check = |what: &str, got: Result<Vec<u8>, Panicked>, want: &Ben, c: &mut Case| -> Result<(), Fail> {
        let want_b = want.enc();
        c.text(format!("{what}: {}", show(&want_b)));
        let got = got.map_err(|p| p.fail())?;
        c.nontrivial(fnv(&[what.as_bytes(), &want_b].concat()));
        ensure!(got == want_b, format!("wrong encoding of {what}"), "encoded {}, should be {}", show(&got), show(&want_b));
        let (r, n) = run_decode(&got)?;
        ensure!(
            r == Ok(to_meta(want)) && n == got.len(),
            format!("encoding of {what} does not decode back"),
            "{} decodes to {r:?}",
            show(&got)
        );
        c.outcome(what.to_string());
        Ok(())
    };
    let mut ints: Vec<u64> = (0..2000).collect();
    for k in 0..64 {
        for d in [0i64, -1, 1] {
            ints.push((1u64 << k).wrapping_add(d as u64));
        }
    }
    for k in 1..20u32 {
        ints.push(10u64.pow(k));
        ints.push(10u64.pow(k) - 1);
    }
    ints.push(u64::MAX);
    ctx.enumerate("integers", ints.len() as u64, |i, c| {
        let v = ints[i as usize];
        check("integer", cut(|| (v as usize).encode()), &Ben::Int(v), c)
    });
    // strings over code points of one to four bytes, all lengths around every digit boundary
    let cps: Vec<&[u8]> = vec![b"a", b"0", b":", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), b"\0", "\u{301}".as_bytes()];
    let n = strings(cps.len() as u64, ctx.pick(5, 6));
    ctx.enumerate("text", n, |i, c| {
        let s = String::from_utf8(string_at(&cps, i)).unwrap();
        check("owned text", cut(|| s.encode()), &Ben::s(&s), c)?;
        check("borrowed text", cut(|| s.as_str().encode()), &Ben::s(&s), c)?;
        check("optional text", cut(|| Some(s.clone()).encode()), &Ben::s(&s), c)?;
        check("list of text", cut(|| vec![s.clone(), "x".into(), s.clone()].encode()), &Ben::List(vec![Ben::s(&s), Ben::s("x"), Ben::s(&s)]), c)?;
        check("dictionary keyed by text", cut(|| HashMap::from([(s.clone(), 5usize)]).encode()), &Ben::Dict(vec![(s.clone().into_bytes(), Ben::Int(5))]), c)?;
        if !s.is_empty() {
            let entry = cut(|| [b"d".to_vec(), encode_dict_entry(&s, &s), b"e".to_vec()].concat());
            check("dictionary entry", entry, &Ben::Dict(vec![(s.clone().into_bytes(), Ben::s(&s))]), c)?;
        }
        Ok(())
    });
    let bytes: Vec<&[u8]> = vec![b"a", b"\xff", b"\x00", b":", b"9", b"\xc3", b"e"];
    ctx.enumerate("byte strings", strings(bytes.len() as u64, 5), |i, c| {
        let s = string_at(&bytes, i);
        check("bytes", cut(|| s.encode()), &Ben::Str(s.clone()), c)
    });
    let lens: Vec<usize> = (0..=120).chain([255, 256, 999, 1000, 1001, 9999, 10000, 20480, 65535, 65536, 100000]).collect();
    ctx.enumerate("lengths", lens.len() as u64 * 4, |i, c| {
        let n = lens[i as usize / 4];
        match i % 4 {
            0 => check("bytes", cut(|| vec![7u8; n].encode()), &Ben::Str(vec![7u8; n]), c),
            1 => check("owned text", cut(|| "é".repeat(n).encode()), &Ben::s(&"é".repeat(n)), c),
            2 => check("borrowed text", cut(|| "z".repeat(n).as_str().encode()), &Ben::s(&"z".repeat(n)), c),
            _ => check("list of numbers", cut(|| (0..n).collect::<Vec<usize>>().encode()), &Ben::List((0..n as u64).map(Ben::Int).collect()), c),
        }
    });
    // dictionaries: every subset of a key set whose byte order differs from insertion/length/case order
    let keys = ["a", "A", "b", "aa", "é", "z", "10", "9", "piece length", "pieces", "~", "\u{ffff}", "\u{10000}"];
    ctx.enumerate("dictionaries", 1 << keys.len(), |i, c| {
        let mut m: HashMap<String, usize> = HashMap::new();
        let mut want = vec![];
        for (k, key) in keys.iter().enumerate() {
            if i >> k & 1 == 1 {
                m.insert(key.to_string(), k * 1000);
                want.push((key.as_bytes().to_vec(), Ben::Int(k as u64 * 1000)));
            }
        }
        want.sort();
        check("dictionary", cut(|| m.encode()), &Ben::Dict(want), c)
    });
    let forms = |x: &str| [String::new(), "a".into(), x.into(), format!("a{x}"), format!("{x}a"), format!("B{x}"), format!("{x}{x}")];
    let wide = ["\u{80}", "\u{a0}", "é", "\u{feff}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "e\u{301}", "ß", "İ"];
    let chars: Vec<String> = (0u8..128).map(|b| char::from(b).to_string()).chain(wide.map(String::from)).collect();
    ctx.enumerate("alike keys", (chars.len() << 7) as u64, |i, c| {
        let forms = forms(&chars[i as usize >> 7]);
        let keys: std::collections::BTreeSet<&String> = (0..7).filter(|k| i >> k & 1 == 1).map(|k| &forms[k]).collect();
        let m: HashMap<String, usize> = keys.iter().map(|k| (k.to_string(), k.len())).collect();
        let mut want: Vec<_> = keys.iter().map(|k| (k.as_bytes().to_vec(), Ben::Int(k.len() as u64))).collect();
        want.sort();
        check("dictionary", cut(|| m.encode()), &Ben::Dict(want), c)
    });
    ctx.enumerate("nested", 400, |i, c| {
        let (a, b) = (i as usize % 20, i as usize / 20);
        let inner: Vec<String> = (0..a % 5).map(|k| "q".repeat(k * b)).collect();
        let m = HashMap::from([("x".to_string(), vec![inner.clone(); b % 4]), ("w".to_string(), vec![])]);
        let wi = Ben::List(inner.iter().map(|s| Ben::s(s)).collect());
        let want = Ben::Dict(vec![("w".into(), Ben::List(vec![])), ("x".into(), Ben::List(vec![wi; b % 4]))]);
        check("nested containers", cut(|| m.encode()), &want, c)
    });
}
