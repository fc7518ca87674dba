//! C20: magnet links.
use crate::util::*;
use rust_bit::verif::torrent::parse_magnet;
use sim::runner::*;
use sim::{ensure, fnv, show};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C20",
        level: "exploration",
        rule: "every combination of hash form (hex lower/upper/mixed, base32 upper/lower; hashes with extreme bytes), parameter order and neighbours (bare, trailing, before the hash), plus every truncation, every single-byte change, and every short string over a magnet alphabet; non-trivial: the link carries a btih hash or starts like one",
        assumptions: &["a link that carries several btih topics may be read as any of them", "percent-encoded topics may be refused"],
        run,
    }]
}

fn forms(h: &[u8]) -> Vec<String> {
    let x = hex(h);
    let mixed: String = x.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
    vec![x.clone(), x.to_uppercase(), mixed, base32(h), base32(h).to_lowercase()]
}

fn parse(uri: &[u8]) -> Result<Option<Vec<u8>>, Fail> {
    let u = uri.to_vec();
    cut(|| parse_magnet(u).ok().map(|m| m.get_info_hash())).map_err(|p| p.fail())
}

/// Reference reading of the link: `Some(Some(hashes))` must be accepted as one of these,
/// `Some(None)` may go either way, `None` must be refused.
fn reference(uri: &[u8]) -> Option<Option<Vec<Vec<u8>>>> {
    let rest = match uri.strip_prefix(b"magnet:?") {
        Some(r) => r,
        None if uri.len() >= 8 && uri[..8].eq_ignore_ascii_case(b"magnet:?") => return Some(None),
        None => return None,
    };
    let mut found = vec![];
    let mut odd = false;
    for p in rest.split(|c| *c == b'&') {
        let Some(eq) = p.iter().position(|c| *c == b'=') else { continue };
        let (k, v) = (&p[..eq], &p[eq + 1..]);
        let is_xt = k == b"xt" || k.starts_with(b"xt.");
        if !is_xt {
            if k.eq_ignore_ascii_case(b"xt") || p.windows(9).any(|w| w.eq_ignore_ascii_case(b"urn:btih:")) {
                odd = true;
            }
            continue;
        }
        if k != b"xt" {
            odd = true;
        }
        let Some(h) = v.strip_prefix(b"urn:btih:") else {
            let other = v.starts_with(b"urn:") && !v[..v.len().min(9)].eq_ignore_ascii_case(b"urn:btih:");
            if v.contains(&b'%') || v.len() >= 4 && v[..4].eq_ignore_ascii_case(b"urn:") && !other {
                odd = true;
            }
            continue;
        };
        if h.len() == 40 && h.iter().all(|c| c.is_ascii_hexdigit()) {
            found.push((0..20).map(|i| u8::from_str_radix(std::str::from_utf8(&h[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect());
        } else if h.len() == 32 && h.iter().all(|c| c.is_ascii_alphabetic() || (b'2'..=b'7').contains(c)) {
            let mut out = vec![];
            let (mut acc, mut bits) = (0u64, 0);
            for c in h {
                let v = if c.is_ascii_digit() { c - b'2' + 26 } else { c.to_ascii_uppercase() - b'A' };
                acc = (acc << 5 | v as u64) & 0xffff;
                bits += 5;
                if bits >= 8 {
                    bits -= 8;
                    out.push((acc >> bits) as u8);
                }
            }
            found.push(out);
        } else if h.contains(&b'%') || h.contains(&b'#') || h.iter().any(|c| c.is_ascii_whitespace() || *c == 0) {
            odd = true;
        }
    }
    match (found.is_empty(), odd) {
        (false, false) => Some(Some(found)),
        (_, true) => Some(None),
        (true, false) => None,
    }
}

pub fn check(uri: &[u8], c: &mut Case) -> Result<(), Fail> {
    c.text(show(uri));
    let got = parse(uri)?;
    if let Some(h) = &got {
        ensure!(h.len() == 20, "info hash is not 20 bytes", "{} bytes", h.len());
    }
    match (reference(uri), got) {
        (Some(Some(want)), Some(h)) => {
            c.nontrivial(fnv(uri));
            ensure!(want.contains(&h), "wrong info hash", "got {}, want {}", hex(&h), hex(&want[0]));
            c.outcome("hash");
        }
        (Some(Some(want)), None) => return fail("refuses a good magnet link", format!("hash {}", hex(&want[0]))),
        (None, Some(h)) => return fail("accepts a bad magnet link", format!("as {}", hex(&h))),
        (None, None) => c.outcome("refused"),
        (Some(None), g) => c.outcome(if g.is_some() { "odd accepted" } else { "odd refused" }),
    }
    Ok(())
}

fn run(ctx: &mut Ctx) {
    let hs = hashes();
    let pre = ["", "dn=x&", "dn=name&tr=udp%3A%2F%2Ft%3A80&", "x.pe=1.2.3.4:5&", "dn=urn&", "xl=40&", "dn=%26xt%3D&"];
    let post = ["", "&", "&dn=x", "&dn=Some.Name.1080p&tr=http%3A%2F%2Ftracker.example.com%3A80%2Fannounce&tr=udp%3A%2F%2Fx%3A1", "&xl=12345", "&tr=a&tr=b&tr=c",
        "&dn=aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "&xt=urn:sha1:ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", "&dn=1234567", "&dn=12345678", "&d=", "&dn", "&so=0-4,7"];
    let radix = [hs.len(), 5, pre.len(), post.len()];
    ctx.enumerate("good links", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let uri = format!("magnet:?{}xt=urn:btih:{}{}", pre[d[2]], forms(&hs[d[0]])[d[1]], post[d[3]]);
        let got = reference(uri.as_bytes());
        if got != Some(Some(vec![hs[d[0]].clone()])) {
            die_engine(&format!("reference misreads {uri}: {got:?}"));
        }
        check(uri.as_bytes(), c)
    });
    let bases: Vec<Vec<u8>> = {
        let h = sha1(b"base");
        let f = forms(&h);
        vec![
            format!("magnet:?xt=urn:btih:{}", f[0]),
            format!("magnet:?xt=urn:btih:{}", f[3]),
            format!("magnet:?xt=urn:btih:{}&dn=a&tr=udp%3A%2F%2Ft%3A80", f[2]),
            format!("magnet:?xt=urn:btih:{}&dn=abcdefg&tr=udp%3A%2F%2Ft%3A80", f[3]),
            format!("magnet:?dn=a&xt=urn:btih:{}&tr=x", f[1]),
            format!("magnet:?dn=a&xt=urn:btih:{}", f[4]),
        ]
        .into_iter()
        .map(|s| s.into_bytes())
        .collect()
    };
    let mut muts: Vec<(usize, usize, i32)> = vec![];
    for (d, b) in bases.iter().enumerate() {
        for p in 0..b.len() {
            muts.push((d, p, -1)); // truncate
            muts.push((d, p, -2)); // drop one byte
            muts.push((d, p, -3)); // double one byte
            muts.push((d, p, -4)); // drop a prefix
            muts.extend((0..256).map(|v| (d, p, v)));
        }
    }
    ctx.enumerate("mutated links", muts.len() as u64, |i, c| {
        let (d, p, v) = muts[i as usize];
        let mut b = bases[d].clone();
        match v {
            -1 => b.truncate(p),
            -2 => {
                b.remove(p);
            }
            -3 => b.insert(p, b[p]),
            -4 => {
                b.drain(..p);
            }
            v => b[p] = v as u8,
        }
        check(&b, c)
    });
    // assembled from tokens
    let h40 = hex(&sha1(b"t"));
    let h32 = base32(&sha1(b"t"));
    let toks: Vec<&[u8]> = vec![
        b"magnet:?", b"xt=", b"urn:btih:", b"&", h40.as_bytes(), h32.as_bytes(), b"dn=", b"=", b"urn:sha1:", b"a", b"urn:btmh:", b"\xff",
    ];
    ctx.enumerate("token strings", strings(toks.len() as u64, ctx.pick(5, 6)), |i, c| {
        let b = string_at(&toks, i);
        check(&b, c)
    });
    // every octet in every place of the hash
    let radix = [256, 20, 5];
    ctx.enumerate("hash octets", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let mut h = sha1(b"octets");
        h[d[1]] = d[0] as u8;
        check(format!("magnet:?xt=urn:btih:{}&dn=x", forms(&h)[d[2]]).as_bytes(), c)
    });
    // long links: other parameters before and after
    let pads: Vec<usize> = (0..300).chain((300..5000).step_by(37)).chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 200_000]).collect();
    let radix = [pads.len(), 5, 4];
    let h = sha1(b"long");
    ctx.enumerate("long links", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let (n, f) = (pads[d[0]], &forms(&h)[d[1]]);
        let many: String = (0..n / 40).map(|k| format!("&tr=udp%3A%2F%2Ftracker{k:04}.example.com%3A80")).collect();
        let uri = match d[2] {
            0 => format!("magnet:?dn={}&xt=urn:btih:{f}", "n".repeat(n)),
            1 => format!("magnet:?xt=urn:btih:{f}&dn={}", "n".repeat(n)),
            2 => format!("magnet:?xt=urn:btih:{f}{many}"),
            _ => format!("magnet:?x=1{many}&xt=urn:btih:{f}{many}"),
        };
        check(uri.as_bytes(), c)
    });
    // lengths of the hash part
    ctx.enumerate("hash lengths", 90 * 4 * 3, |i, c| {
        let d = digits(i, &[90, 4, 3]);
        let ch = ["a", "2", "Z", "9"][d[1]];
        let uri = format!("magnet:?xt=urn:btih:{}{}", ch.repeat(d[0]), ["", "&dn=x", "&dn=0123456789012345678901234567890123456789"][d[2]]);
        check(uri.as_bytes(), c)
    });
}
