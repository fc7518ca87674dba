//! Small shared helpers: finite alphabets, reference bencode, hashing.
use sha1::{Digest, Sha1};

pub fn sha1(b: &[u8]) -> Vec<u8> {
    Sha1::digest(b).as_slice().to_vec()
}

/// Number of strings over `k` letters of length <= max.
pub fn strings(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}

/// The idx-th string (shortest first) over the letters.
pub fn string_at(letters: &[&[u8]], mut idx: u64) -> Vec<u8> {
    let k = letters.len() as u64;
    let mut len = 0u32;
    while idx >= k.pow(len) {
        idx -= k.pow(len);
        len += 1;
    }
    let mut out = vec![];
    for _ in 0..len {
        out.extend_from_slice(letters[(idx % k) as usize]);
        idx /= k;
    }
    out
}

/// Mixed-radix digits of idx.
pub fn digits(mut idx: u64, radix: &[usize]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = (idx % *r as u64) as usize;
            idx /= *r as u64;
            d
        })
        .collect()
}

pub fn product(radix: &[usize]) -> u64 {
    radix.iter().map(|r| *r as u64).product()
}

/// Reference bencode values (dictionaries keep their entries in order).
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ben {
    Int(u64),
    /// The negative integer of this absolute value.
    Neg(u64),
    Str(Vec<u8>),
    List(Vec<Ben>),
    Dict(Vec<(Vec<u8>, Ben)>),
    /// Raw bytes written as they are (for malformed or exotic parts).
    Raw(Vec<u8>),
}

impl Ben {
    pub fn s(x: &str) -> Ben {
        Ben::Str(x.as_bytes().to_vec())
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut o = vec![];
        self.put(&mut o);
        o
    }
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Ben::Int(i) => o.extend(format!("i{i}e").bytes()),
            Ben::Neg(i) => o.extend(format!("i-{i}e").bytes()),
            Ben::Str(s) => {
                o.extend(format!("{}:", s.len()).bytes());
                o.extend(s)
            }
            Ben::List(l) => {
                o.push(b'l');
                l.iter().for_each(|x| x.put(o));
                o.push(b'e')
            }
            Ben::Dict(d) => {
                o.push(b'd');
                for (k, v) in d {
                    Ben::Str(k.clone()).put(o);
                    v.put(o)
                }
                o.push(b'e')
            }
            Ben::Raw(r) => o.extend(r),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ref {
    /// A well-formed canonical value and the bytes it takes.
    Good(Ben, usize),
    /// Well-formed but not canonical (or not representable): may be refused; if taken, takes these bytes.
    Loose(usize),
    Bad,
}

/// Reference reading of the value at the start of `b`.
pub fn ref_decode(b: &[u8]) -> Ref {
    let mut loose = false;
    let mut pos = 0;
    match ref_value(b, &mut pos, &mut loose) {
        None => Ref::Bad,
        Some(_) if loose => Ref::Loose(pos),
        Some(v) => Ref::Good(v, pos),
    }
}

/// What an unusual but well-formed input says.
pub fn ref_loose(b: &[u8]) -> Option<Ben> {
    ref_value(b, &mut 0, &mut false)
}

fn ref_digits(b: &[u8], pos: &mut usize, loose: &mut bool) -> Option<Option<u64>> {
    let start = *pos;
    while *pos < b.len() && b[*pos].is_ascii_digit() {
        *pos += 1;
    }
    if *pos == start {
        return None;
    }
    let d = &b[start..*pos];
    if d.len() > 1 && d[0] == b'0' {
        *loose = true;
    }
    let mut v: u64 = 0;
    for c in d {
        match v.checked_mul(10).and_then(|x| x.checked_add((c - b'0') as u64)) {
            Some(x) => v = x,
            None => return Some(None),
        }
    }
    Some(Some(v))
}

fn ref_string(b: &[u8], pos: &mut usize, loose: &mut bool) -> Option<Vec<u8>> {
    let n = ref_digits(b, pos, loose)??;
    if b.get(*pos) != Some(&b':') {
        return None;
    }
    *pos += 1;
    if n > (b.len() - *pos) as u64 {
        return None;
    }
    let s = b[*pos..*pos + n as usize].to_vec();
    *pos += n as usize;
    Some(s)
}

fn ref_value(b: &[u8], pos: &mut usize, loose: &mut bool) -> Option<Ben> {
    match b.get(*pos)? {
        b'i' => {
            *pos += 1;
            let negative = b.get(*pos) == Some(&b'-');
            *pos += negative as usize;
            let v = ref_digits(b, pos, loose)??;
            if b.get(*pos) != Some(&b'e') || negative && v == 0 {
                return None;
            }
            *pos += 1;
            *loose |= negative && v > 1 << 63;
            Some(if negative { Ben::Neg(v) } else { Ben::Int(v) })
        }
        b'l' => {
            *pos += 1;
            let mut l = vec![];
            while *b.get(*pos)? != b'e' {
                l.push(ref_value(b, pos, loose)?);
            }
            *pos += 1;
            Some(Ben::List(l))
        }
        b'd' => {
            *pos += 1;
            let mut d: Vec<(Vec<u8>, Ben)> = vec![];
            while *b.get(*pos)? != b'e' {
                let k = ref_string(b, pos, loose)?;
                if std::str::from_utf8(&k).is_err() {
                    *loose = true;
                }
                if d.last().map(|(p, _)| *p >= k).unwrap_or(false) {
                    *loose = true;
                }
                let v = ref_value(b, pos, loose)?;
                d.push((k, v));
            }
            *pos += 1;
            Some(Ben::Dict(d))
        }
        c if c.is_ascii_digit() => ref_string(b, pos, loose).map(Ben::Str),
        _ => None,
    }
}

pub fn base32(b: &[u8]) -> String {
    let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
    let mut out = String::new();
    let (mut acc, mut bits) = (0u32, 0);
    for x in b {
        acc = acc << 8 | *x as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(a[(acc >> bits & 31) as usize] as char);
        }
    }
    out
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn hashes() -> Vec<Vec<u8>> {
    let mut v = vec![vec![0u8; 20], vec![0xff; 20], (0..20).collect(), (0xec..=0xff).collect(), sha1(b"a"), sha1(b"b"), sha1(b"rust")];
    for k in 0..20 {
        let mut h = sha1(b"k");
        h[k] = [0x00, 0x0f, 0xf0, 0xa9, 0x9a, 0x26][k % 6];
        v.push(h);
    }
    // every byte value somewhere
    for k in 0..13u32 {
        v.push((0..20).map(|j| (k * 20 + j) as u8).collect());
    }
    v
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        let h = b.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok());
        match (b[i], h) {
            (b'%', Some(v)) => {
                o.push(v);
                i += 3;
            }
            (x, _) => {
                o.push(x);
                i += 1;
            }
        }
    }
    o
}
