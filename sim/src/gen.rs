//! Generators: sizes, content, comments, passwords. Draw 0 is always the
//! simplest value.
use crate::tape::{draw, mix, pick, shm};

const EDGES: &[u64] = &[
    0, 1, 2, 31, 32, 33, 63, 64, 65, 111, 112, 113, 127, 128, 129, 191, 192, 193, 239, 240, 255, 256, 257, 383, 384,
    385, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537,
    65408, 65664, 131071, 131072, 131073, 196608,
];

/// A constant the library compares something with (or a default).
pub fn dict() -> u64 {
    let s = shm();
    if s.dict_n == 0 {
        return 64;
    }
    s.dict[draw(s.dict_n as u64) as usize]
}
/// Near a constant: c-1, c, c+1, 2c.
pub fn near_dict() -> u64 {
    let c = dict();
    match draw(5) {
        0 => c,
        1 => c.wrapping_sub(1),
        2 => c.wrapping_add(1),
        3 => c.wrapping_mul(2),
        _ => c.wrapping_add(draw(64)),
    }
}
pub fn size(max: u64) -> u64 {
    let v = match draw(8) {
        0 => draw(4),
        1 => draw(40),
        2 | 3 => pick(EDGES),
        4 => near_dict(),
        5 => draw(1 << 10),
        6 => draw(1 << 14),
        _ => draw(1 << 18),
    };
    if v > max {
        v % (max + 1)
    } else {
        v
    }
}
pub fn prf(seed: u64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 8);
    let mut i = 0u64;
    while v.len() < len {
        v.extend_from_slice(&mix(seed ^ mix(i)).to_le_bytes());
        i += 1;
    }
    v.truncate(len);
    v
}
pub fn content(len: u64) -> Vec<u8> {
    let len = len as usize;
    let kind = draw(8);
    let seed = draw(1 << 32);
    let mut v = match kind {
        1 => vec![0; len],
        2 => vec![0xff; len],
        3 => (0..len).map(|i| b"line of text\r\n"[i % 14]).collect(),
        4 => (0..len).map(|i| b"abc\n"[i % 4]).collect(),
        _ => prf(seed, len),
    };
    if kind == 5 {
        // leading and trailing bytes that text handling likes to eat
        for (i, b) in b"\xef\xbb\xbf".iter().enumerate() {
            if i < v.len() {
                v[i] = *b;
            }
        }
        if let Some(l) = v.last_mut() {
            *l = b'\n';
        }
    }
    if kind == 6 {
        if let Some(l) = v.last_mut() {
            *l = pick(&[0, b'\n', b' ', 0x1a, 0x80]);
        }
    }
    v
}
pub fn data(max: u64) -> Vec<u8> {
    let n = size(max);
    content(n)
}
/// Different content derived from `d` by a small change.
pub fn tamper(d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    match draw(8) {
        0 if !v.is_empty() => {
            let i = draw(v.len() as u64) as usize;
            v[i] ^= 1 << draw(8);
        }
        1 => v.push(draw(256) as u8),
        2 if !v.is_empty() => {
            v.pop();
        }
        3 if v.len() > 1 => {
            let k = draw(v.len() as u64) as usize;
            v.truncate(k);
        }
        4 => v.insert(0, draw(256) as u8),
        5 if v.len() > 1 => {
            let i = draw(v.len() as u64) as usize;
            let j = draw(v.len() as u64) as usize;
            v.swap(i, j);
        }
        6 if !v.is_empty() => {
            // change near the end, or at a block boundary
            let i = v.len() - 1 - draw((v.len() as u64).min(130)) as usize;
            v[i] = v[i].wrapping_add(1 + draw(254) as u8);
        }
        7 => v.extend_from_slice(&vec![0; 1 + draw(300) as usize]),
        _ => v.push(0),
    }
    if v == d {
        v.push(b'x');
    }
    v
}
const PIECES: &[&str] = &[
    "a", "file:backup.tar", " ", "\t", "timestamp:1234567890", "trusted comment: ", "untrusted comment: ", "é", "日本",
    "\u{1F512}", "=", "==", ":", "hashed", "A\rB", "\u{a0}", "\u{2028}", "\u{85}", "\u{0b}", "\u{0c}", "\0", "\"",
    "\\n", "%s%n", "Z", "0", "prehashed", "\u{feff}", "RWQ", "\u{1c}", "\u{1}", "ß", "\u{301}",
];
/// A comment without line breaks.
pub fn comment() -> String {
    let n = match draw(8) {
        0 => return String::new(),
        1 => {
            // short ones, and such as look like something of the library's own
            let s = pick(&[
                "x", "timestamp:0", "timestamp:", "timestamp:1", "timestamp:4294967296", "timestamp:-1", "timestamp:18446744073709551615",
                "timestamp:1700000000\tfile:a.tar\thashed", "Timestamp:1", " timestamp:1", "time", "signature from minisign secret key",
                "signature from rsign secret key", "minisign public key: 0000000000000001", "rsign encrypted secret key", "#", "-", "0", "\0", "\u{feff}",
                "untrusted comment: ", "trusted comment: x", "RWQ=", "null", "none", "true", "//", "..", "\u{200b}",
            ]);
            return s.into();
        }
        2 => {
            let n = near_dict() % pick(&[3000, 3000, 70_000, 140_000]);
            return "c".repeat(n as usize);
        }
        3 => {
            let n = size(pick(&[5000, 5000, 5000, 100_000]));
            return prf(draw(1 << 32), n as usize).iter().map(|b| (b'a' + b % 26) as char).collect();
        }
        _ => 1 + draw(8),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(pick(PIECES));
    }
    // a line break would be refused; carriage return at the end too
    while s.ends_with('\r') {
        s.pop();
    }
    s
}
/// A password that is not equivalent to any other under HMAC key handling
/// (no NUL, at most 64 bytes unless `long`).
pub fn password() -> String {
    let n = match draw(6) {
        0 => 1,
        1 => 1 + draw(8),
        2 => 8 + draw(24),
        3 => 60 + draw(8),
        4 => pick(&[63, 64, 65, 127, 128, 129, 255, 256, 1022, 1023, 1024]),
        _ => 1 + near_dict() % 1024,
    };
    let seed = draw(1 << 32);
    let mut s: String = prf(seed, n as usize).iter().map(|b| (b'!' + b % 94) as char).collect();
    match draw(6) {
        1 if s.len() > 2 => s.replace_range(0..1, " "),
        2 if s.len() > 2 => {
            s.pop();
            s.push(' ');
        }
        3 if s.len() > 3 => {
            s.pop();
            s.pop();
            s.push('é');
        }
        4 if s.len() > 4 => {
            s.truncate(s.len() - 4);
            s.push('\u{1F511}');
        }
        _ => {}
    }
    s
}
/// A password given by the calling program, which need not be one that can be typed.
pub fn api_password() -> String {
    match draw(10) {
        7 => String::new(),
        8 => {
            let n = 1025 + size(9000);
            prf(draw(1 << 32), n as usize).iter().map(|b| (b'!' + b % 94) as char).collect()
        }
        9 => {
            let mut s = String::new();
            for _ in 0..1 + draw(6) {
                s.push_str(pick(&["e\u{301}", "\u{e9}", "\u{a0}", "\t", "pass", "ß", "SS", "\u{1F511}", "\n", "\r\n", "\u{200b}", "K", "\u{212a}", "\0x", "\0y", "\u{1}", "\u{7f}", "\u{8}z", "word"]));
            }
            s
        }
        _ => password(),
    }
}
/// A different password, close to `p`.
pub fn other_password(p: &str) -> String {
    let mut cs: Vec<char> = p.chars().collect();
    let n = cs.len();
    match draw(21) {
        0 => cs.push('x'),
        1 if n > 0 => {
            cs.pop();
        }
        2 if n > 0 => {
            cs.remove(0);
        }
        3 => cs.insert(0, ' '),
        4 => cs.push(' '),
        5 => cs.push('\n'),
        6 => cs.push('\r'),
        7 if n > 0 => {
            let i = draw(n as u64) as usize;
            cs[i] = if cs[i] == 'q' { 'r' } else { 'q' };
        }
        8 if n > 0 => {
            let i = n - 1;
            cs[i] = if cs[i] == 'q' { 'r' } else { 'q' };
        }
        9 => {
            for c in cs.iter_mut() {
                *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            }
        }
        10 => cs.clear(),
        11 => {
            let q = cs.clone();
            cs.extend(q);
        }
        12 => cs.reverse(),
        // something late in it: only the end differs, or a whole tail is missing
        13 if n > 1 => {
            let at = [16usize, 32, 55, 56, 64, 72, 100, 127, 128, 255, 256, 512, 1000, 1023, 1024];
            let v: Vec<usize> = at.iter().copied().filter(|x| *x < n).collect();
            match v.last() {
                Some(_) => cs.truncate(v[draw(v.len() as u64) as usize]),
                None => cs.truncate(n / 2),
            }
        }
        14 if n > 1 => {
            let i = n - 1 - draw((n as u64).min(40)) as usize;
            cs[i] = if cs[i] == '#' { '%' } else { '#' };
        }
        // white space, normal forms, look-alikes
        15 => cs.retain(|c| !c.is_whitespace()),
        16 => {
            let s: String = cs.iter().collect();
            let t = s.replace('\u{e9}', "e\u{301}");
            let t = if t == s { s.replace("e\u{301}", "\u{e9}") } else { t };
            let t = if t == s { s.replace('\u{212a}', "K").replace('ß', "ss").replace('\u{a0}', " ").replace('\u{200b}', "") } else { t };
            cs = t.chars().collect();
        }
        17 => {
            let s: String = cs.iter().collect();
            cs = s.to_lowercase().chars().collect();
        }
        18 | 19 => {
            // characters nobody sees, or that text handling likes to eat
            let c = pick(&['\u{feff}', '\u{200b}', '\u{a0}', '\t', '\u{7f}', '\u{8}', '\u{85}', '\u{2028}', '\u{ad}', '\u{301}', '\u{200e}', '\u{fe0f}', '"', '\'', '\\', '\u{3000}', '\u{c}', '\u{1b}', '\u{fffd}']);
            match draw(3) {
                0 => cs.push(c),
                1 => cs.insert(0, c),
                _ => {
                    cs.push(c);
                    cs.insert(0, c);
                }
            }
        }
        _ => cs = password().chars().collect(),
    }
    let o: String = cs.into_iter().collect();
    if o == p {
        format!("{p}1")
    } else {
        o
    }
}
pub fn bytes32(seed: u64) -> [u8; 32] {
    prf(seed, 32).try_into().unwrap()
}
pub fn bytes8(seed: u64) -> [u8; 8] {
    prf(seed ^ 0xabcdef, 8).try_into().unwrap()
}
