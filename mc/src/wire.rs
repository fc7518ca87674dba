//! C12 (wire messages), C24 (compact peer lists).
use crate::util::*;
use rust_bit::verif::messages::*;
use rust_bit::verif::tracker::PeerEndpoint;
use sim::runner::*;
use sim::{ensure, fnv, show};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "C12",
            level: "exploration",
            rule: "every outgoing message over boundary values of its fields compared byte for byte with the protocol, every incoming message id 0-255 with every body of a menu (all lengths 0-80, structured bodies, all truncations) decoded and compared with a reference reading; non-trivial: message carries fields",
            assumptions: &["message id 6 is also read as a block, as the repository's own tests do"],
            run: codec,
        },
        Spec {
            id: "C24",
            level: "exploration",
            rule: "every compact list of up to 3 peers over an alphabet of addresses and ports plus every port value, with 0 to 5 stray trailing bytes, and lists up to 2000 peers; non-trivial: at least one peer",
            assumptions: &[],
            run: compact,
        },
    ]
}

fn bounds() -> Vec<u32> {
    let mut v: Vec<u32> = (0..300).collect();
    for k in 8..32 {
        for d in [-1i64, 0, 1] {
            v.push(((1i64 << k) + d) as u32);
        }
    }
    v.extend([0x01020304, 0xfffefdfc, u32::MAX, u32::MAX - 1, 16384, 16384 * 3]);
    v
}

/// Decoding a hostile body must give a message or an error.
fn decode(id: u8, body: &[u8]) -> Result<Result<Message, String>, Fail> {
    let b = body.to_vec();
    let n = body.len() as u32;
    cut(|| Message::new_raw(b, n, id).map_err(|e| e.to_string())).map_err(|p| p.fail())
}

fn codec(ctx: &mut Ctx) {
    let b = bounds();
    let small: Vec<u32> = b.iter().cloned().step_by(17).collect();
    let n = small.len();
    let same = |what: &str, got: Result<Vec<u8>, Panicked>, want: Vec<u8>, c: &mut Case| -> Result<(), Fail> {
        c.text(format!("{what}: {}", show(&want)));
        c.nontrivial(fnv(&want));
        let got = got.map_err(|p| p.fail())?;
        ensure!(got == want, format!("wrong {what} message"), "sent {}, should be {}", show(&got), show(&want));
        c.outcome(what.to_string());
        Ok(())
    };
    let request = |p: u32, o: u32, l: u32| -> Vec<u8> {
        [13u32.to_be_bytes().to_vec(), vec![6], p.to_be_bytes().to_vec(), o.to_be_bytes().to_vec(), l.to_be_bytes().to_vec()].concat()
    };
    ctx.enumerate("requests", (b.len() * 3) as u64, |i, c| {
        let v = b[i as usize / 3];
        let (p, o, l) = [(v, 16384, 100), (3, v, 16384), (1, 0, v)][i as usize % 3];
        same("request", cut(|| new_request(p, o, l).as_bytes()), request(p, o, l), c)
    });
    ctx.enumerate("requests, combined", (n * n * n) as u64, |i, c| {
        let d = digits(i, &[n, n, n]);
        let (p, o, l) = (small[d[0]], small[d[1]], small[d[2]]);
        same("request", cut(|| new_request(p, o, l).as_bytes()), request(p, o, l), c)
    });
    ctx.enumerate("metadata requests", 256 * 1100, |i, c| {
        let (id, piece) = ((i % 256) as u8, (i / 256) as usize);
        let body = format!("d8:msg_typei0e5:piecei{piece}ee");
        let want = [(body.len() as u32 + 2).to_be_bytes().to_vec(), vec![20, id], body.into_bytes()].concat();
        same("metadata request", cut(|| new_metadata(id, piece).as_bytes()), want, c)
    });
    ctx.enumerate("interested", 1, |_, c| same("interested", cut(|| new_interested().as_bytes()), vec![0, 0, 0, 1, 2], c));
    let hs = hashes();
    ctx.enumerate("handshakes", hs.len() as u64 * 8, |i, c| {
        let h = &hs[i as usize / 8];
        let id = ["-RB0001-abcdefghijkl", "00000000000000000000", "ZZZZZZZZZZZZZZZZZZZZ", "aB3dE6gH9jK2mN5pQ8sT"][i as usize % 4];
        let got = cut(|| new_handshake(h, id).as_bytes());
        let mut want = vec![19u8];
        want.extend(b"BitTorrent protocol");
        want.extend([0, 0, 0, 0, 0, 0x10, 0, 0]);
        want.extend(h);
        want.extend(id.as_bytes());
        same("handshake", got, want.clone(), c)?;
        // and read back
        match decode(19, &want)? {
            Ok(m) => match m.get_content() {
                ContentType::Handshake(x) => {
                    ensure!(x.get_info_hash() == *h, "handshake read back wrong", "{:?}", x.get_info_hash());
                    ensure!(m.as_bytes() == want, "handshake re-encodes differently", "");
                }
                x => return fail("handshake not recognised", format!("{x:?}")),
            },
            Err(e) => return fail("handshake refused", e),
        }
        Ok(())
    });
    // incoming: every id with every short body
    let fills: Vec<fn(usize) -> u8> = vec![|_| 0, |i| i as u8 + 1, |_| 0xff, |i| b"d1:md1:ai3ee13:metadata_sizei5ee"[i % 32], |i| b"\0d8:msg_typei1e5:piecei0ee"[i % 26]];
    let maxlen = ctx.pick(80, 200);
    let nf = fills.len();
    ctx.enumerate("incoming, short", (256 * (maxlen + 1) * nf) as u64, |i, c| {
        let d = digits(i, &[256, maxlen + 1, nf]);
        let body: Vec<u8> = (0..d[1]).map(fills[d[2]]).collect();
        incoming(d[0] as u8, &body, c)
    });
    // extension bodies: every combination of keys
    let exts: Vec<Ben> = {
        let keys: Vec<(&str, Vec<Ben>)> = vec![
            ("m", vec![
                Ben::Dict(vec![]),
                Ben::Dict(vec![(b"ut_metadata".to_vec(), Ben::Int(3)), (b"ut_pex".to_vec(), Ben::Int(1))]),
                Ben::Dict(vec![(b"ut_metadata".to_vec(), Ben::Int(255))]),
                Ben::Dict(vec![(b"lt_donthave".to_vec(), Ben::Int(7)), (b"upload_only".to_vec(), Ben::Int(0)), (b"ut_metadata".to_vec(), Ben::s("x"))]),
                Ben::List(vec![]),
                Ben::Int(1),
            ]),
            ("metadata_size", vec![Ben::Int(0), Ben::Int(1), Ben::Int(16384), Ben::Int(28282), Ben::Int(1 << 33), Ben::s("5")]),
            ("msg_type", vec![Ben::Int(0), Ben::Int(1), Ben::Int(2), Ben::Int(3), Ben::s("1")]),
            ("piece", vec![Ben::Int(0), Ben::Int(2), Ben::Int(300), Ben::s("")]),
            ("total_size", vec![Ben::Int(5), Ben::Int(1 << 40)]),
            ("v", vec![Ben::s("Client 1.0 \u{e9}")]),
        ];
        let radix: Vec<usize> = keys.iter().map(|k| k.1.len() + 1).collect();
        (0..product(&radix))
            .map(|i| {
                let d = digits(i, &radix);
                let mut m = vec![];
                for (k, x) in d.iter().enumerate() {
                    if *x > 0 {
                        m.push((keys[k].0.as_bytes().to_vec(), keys[k].1[x - 1].clone()));
                    }
                }
                m.sort();
                Ben::Dict(m)
            })
            .collect()
    };
    let tails: Vec<Vec<u8>> = vec![vec![], vec![0], b"e".to_vec(), b"d1:ae".to_vec(), (0..=255).collect(), vec![0x55; 16384]];
    let radix = [exts.len(), tails.len(), 4];
    ctx.enumerate("incoming extensions", product(&radix), |i, c| {
        let d = digits(i, &radix);
        let id = [0u8, 1, 2, 255][d[2]];
        let body = [vec![id], exts[d[0]].enc(), tails[d[1]].clone()].concat();
        incoming(20, &body, c)
    });
    let docs: Vec<Vec<u8>> = vec![exts[exts.len() / 2].enc(), exts[exts.len() - 1].enc(), b"d8:msg_typei1e5:piecei0e10:total_sizei5ee12345".to_vec()];
    let mut muts = vec![];
    for (k, d) in docs.iter().enumerate() {
        for p in 0..d.len() {
            for v in -1..256 {
                muts.push((k, p, v));
            }
        }
    }
    ctx.enumerate("incoming extensions, damaged", muts.len() as u64, |i, c| {
        let (k, p, v) = muts[i as usize];
        let mut b = [vec![0], docs[k].clone()].concat();
        if v < 0 {
            b.truncate(p);
        } else {
            b[p + 1] = v as u8;
        }
        incoming(20, &b, c)
    });
    ctx.enumerate("incoming blocks", (b.len() * 6) as u64, |i, c| {
        let v = b[i as usize / 6];
        let len = [0usize, 1, 100, 16383, 16384, 32768][i as usize % 6];
        let data: Vec<u8> = (0..len).map(|k| (k * 7 + v as usize) as u8).collect();
        let body = [v.to_be_bytes().to_vec(), (v ^ 0x4000).to_be_bytes().to_vec(), data].concat();
        incoming(7, &body, c)
    });
}

/// Compares the client's reading of an incoming message with the protocol.
fn incoming(id: u8, body: &[u8], c: &mut Case) -> Result<(), Fail> {
    c.text(format!("id {id} body {}", show(body)));
    let r = decode(id, body)?;
    if let Ok(m) = &r {
        ensure!(m.get_id() == id, "message id changed", "{}", m.get_id());
    }
    let data = |m: &Message| cut(|| m.get_content_data()).map_err(|p| p.fail());
    match (id, r) {
        (5, Ok(m)) => {
            let ContentType::Bitfield(x) = m.get_content() else { return fail("bitfield not recognised", "") };
            let want: Vec<bool> = body.iter().flat_map(|b| (0..8).map(move |k| b >> (7 - k) & 1 == 1)).collect();
            ensure!(x.get_bitfield_as_bit_vector() == want, "bitfield misread", "{:?}", x.get_bitfield_as_bit_vector());
            ensure!(data(&m)? == body, "bitfield bytes changed", "");
            c.nontrivial(fnv(body));
            c.outcome("bitfield");
        }
        (7, r) if body.len() >= 8 => {
            let m = match r {
                Ok(m) => m,
                Err(e) => return fail("block refused", e),
            };
            ensure!(m.is_request_message(), "block not recognised", "");
            ensure!(data(&m)? == body[8..], "block data changed", "{}", show(&data(&m)?));
            c.nontrivial(fnv(body));
            c.outcome("block");
        }
        (6 | 7, Ok(m)) if body.len() < 8 => {
            return fail("short block accepted", format!("{m:?}"));
        }
        (20, r) => {
            let reference = if body.is_empty() { Ref::Bad } else { ref_decode(&body[1..]) };
            match (reference, r) {
                (Ref::Good(Ben::Dict(d), used), Ok(m)) => {
                    let ContentType::Extension(x) = m.get_content() else { return fail("extension not recognised", "") };
                    let int = |k: &str| d.iter().find(|(n, _)| n == k.as_bytes()).and_then(|(_, v)| if let Ben::Int(i) = v { Some(*i as usize) } else { None });
                    ensure!(x.get_metadata_size() == int("metadata_size"), "metadata size misread", "{:?}", x.get_metadata_size());
                    ensure!(x.is_data() == (int("msg_type") == Some(1)), "metadata piece misread", "");
                    ensure!(x.get_data() == body[1 + used..], "extension payload changed", "{}", show(&x.get_data()));
                    let mut want: Vec<(String, u8)> = vec![];
                    if let Some((_, Ben::Dict(m))) = d.iter().find(|(n, _)| n == b"m") {
                        for (k, v) in m {
                            if let Ben::Int(i) = v {
                                want.push((String::from_utf8(k.clone()).unwrap(), *i as u8));
                            }
                        }
                    }
                    let mut got: Vec<(String, u8)> = x.get_extensions().iter().map(|(k, v)| (k.clone(), *v)).collect();
                    // an extension switched off (id 0) may be left out
                    got.retain(|e| e.1 != 0);
                    want.retain(|e| e.1 != 0);
                    got.sort();
                    ensure!(got == want, "extension ids misread", "{got:?} {want:?}");
                    c.nontrivial(fnv(body));
                    c.outcome("extension");
                }
                (Ref::Good(Ben::Dict(_), _), Err(e)) => return fail("extension refused", e),
                (_, Ok(m)) => {
                    // anything else must not be taken for a metadata piece or handshake
                    if let ContentType::Extension(x) = m.get_content() {
                        if matches!(ref_decode(&body[1.min(body.len())..]), Ref::Bad) {
                            ensure!(!x.is_data() && x.get_metadata_size().is_none(), "malformed extension believed", "{m:?}");
                        }
                    }
                    c.outcome("odd extension")
                }
                (_, Err(_)) => c.outcome("extension refused"),
            }
        }
        (19, Ok(m)) => {
            if let ContentType::Handshake(x) = m.get_content() {
                ensure!(body.len() >= 68, "short handshake accepted", "");
                ensure!(x.get_info_hash() == body[28..48], "handshake hash misread", "");
                c.nontrivial(fnv(body));
            }
            c.outcome("handshake");
        }
        (_, Ok(m)) => {
            if !matches!(id, 6) {
                ensure!(!m.is_request_message(), "taken for a block", "id {id}");
            }
            ensure!(!m.is_extension_data_message(), "taken for metadata", "id {id}");
            c.outcome("other");
        }
        (_, Err(_)) => c.outcome("refused"),
    }
    Ok(())
}

fn compact(ctx: &mut Ctx) {
    let addrs: Vec<[u8; 4]> = vec![[0, 0, 0, 0], [1, 2, 3, 4], [127, 0, 0, 1], [255, 255, 255, 255], [10, 200, 30, 99], [192, 168, 100, 9]];
    let ports: Vec<u16> = vec![0, 1, 80, 255, 256, 257, 6881, 32767, 32768, 65280, 65534, 65535];
    let n = addrs.len() * ports.len();
    let one = |k: usize| -> (Vec<u8>, String) {
        let (a, p) = (addrs[k / ports.len()], ports[k % ports.len()]);
        ([a.to_vec(), p.to_be_bytes().to_vec()].concat(), format!("{}.{}.{}.{}:{p}", a[0], a[1], a[2], a[3]))
    };
    let check = |list: Vec<(Vec<u8>, String)>, stray: usize, c: &mut Case| -> Result<(), Fail> {
        let mut b: Vec<u8> = list.iter().flat_map(|x| x.0.clone()).collect();
        b.extend(vec![9u8; stray]);
        c.text(show(&b));
        if !list.is_empty() {
            c.nontrivial(fnv(&b));
        }
        let got = cut(|| PeerEndpoint::from_bytes(&b).iter().map(|p| (p.endpoint(), p.ip(), p.port())).collect::<Vec<_>>()).map_err(|p| p.fail())?;
        let want: Vec<String> = list.iter().map(|x| x.1.clone()).collect();
        ensure!(got.iter().map(|g| g.0.clone()).collect::<Vec<_>>() == want, "wrong peers", "got {got:?}, want {want:?}");
        for g in &got {
            ensure!(g.0 == format!("{}:{}", g.1, g.2), "address and port disagree", "{g:?}");
            ensure!(g.0.parse::<std::net::SocketAddr>().is_ok(), "endpoint is no address", "{g:?}");
        }
        c.outcome(format!("{} peers", got.len().min(4)));
        Ok(())
    };
    ctx.enumerate("up to two peers", ((1 + n + n * n) * 6) as u64, |i, c| {
        let (k, stray) = (i as usize / 6, i as usize % 6);
        let list = if k == 0 {
            vec![]
        } else if k <= n {
            vec![one(k - 1)]
        } else {
            vec![one((k - 1 - n) / n), one((k - 1 - n) % n)]
        };
        check(list, stray, c)
    });
    if ctx.thorough() {
        ctx.enumerate("three peers", (n * n * n) as u64, |i, c| {
            let d = digits(i, &[n, n, n]);
            check(d.iter().map(|k| one(*k)).collect(), 0, c)
        });
    }
    ctx.enumerate("every port and every octet", 65536 + 4 * 256, |i, c| {
        let (mut a, mut p) = ([1u8, 2, 3, 4], i as u16);
        if i >= 65536 {
            let k = (i - 65536) as usize;
            a[k / 256] = (k % 256) as u8;
            p = 6881;
        }
        check(vec![([a.to_vec(), p.to_be_bytes().to_vec()].concat(), format!("{}.{}.{}.{}:{p}", a[0], a[1], a[2], a[3]))], 0, c)
    });
    ctx.enumerate("long lists", 2000, |i, c| check((0..i as usize).map(|k| one(k % n)).collect(), i as usize % 6, c));
}
