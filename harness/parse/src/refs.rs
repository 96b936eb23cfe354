//! Reference readers, written from the language definition.
use sym::*;

pub fn is(b: u8, lo: u8, hi: u8) -> bool {
    fork((b >= lo) & (b <= hi))
}

pub fn hexval(b: u8) -> Option<u32> {
    let l = b | 0x20;
    if is(b, b'0', b'9') {
        Some((b - b'0') as u32)
    } else if is(l, b'a', b'f') {
        Some((l - b'a') as u32 + 10)
    } else {
        None
    }
}

pub fn push_char(out: &mut Vec<u8>, c: u32) {
    if fork(c < 0x80) {
        out.push(c as u8);
    } else if fork(c < 0x800) {
        out.push(0xc0 | (c >> 6) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    } else if fork(c < 0x10000) {
        out.push(0xe0 | (c >> 12) as u8);
        out.push(0x80 | (c >> 6 & 0x3f) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    } else {
        out.push(0xf0 | (c >> 18) as u8);
        out.push(0x80 | (c >> 12 & 0x3f) as u8);
        out.push(0x80 | (c >> 6 & 0x3f) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    }
}

pub enum Lit {
    /// bytes, and the offset just after the closing quote
    Ok(Vec<u8>, usize),
    Bad,
}

/// Reads the string literal that starts at `b[i]` (a quote).
pub fn string_literal(b: &[u8], mut i: usize) -> Lit {
    let q = b[i];
    i += 1;
    let mut out = vec![];
    let mut bad = false;
    loop {
        if i >= b.len() {
            return Lit::Bad;
        }
        let c = b[i];
        i += 1;
        if fork(c == q) {
            return if bad { Lit::Bad } else { Lit::Ok(out, i) };
        }
        if fork(c == b'\n') {
            return Lit::Bad;
        }
        if fork(c == 0) {
            bad = true;
            continue;
        }
        if !fork(c == b'\\') {
            out.push(c);
            continue;
        }
        if i >= b.len() {
            return Lit::Bad;
        }
        let e = b[i];
        let simple = [(b'a', 7), (b'b', 8), (b'f', 12), (b'n', 10), (b'r', 13), (b't', 9), (b'v', 11), (b'?', b'?'), (b'\\', b'\\'), (b'\'', b'\''), (b'"', b'"')];
        let mut done = false;
        for (x, v) in simple {
            if fork(e == x) {
                out.push(v);
                i += 1;
                done = true;
                break;
            }
        }
        if done {
            continue;
        }
        if is(e, b'0', b'7') {
            let mut v = (e - b'0') as u32;
            i += 1;
            let mut n = 1;
            while n < 3 && i < b.len() && is(b[i], b'0', b'7') {
                v = v * 8 + (b[i] - b'0') as u32;
                i += 1;
                n += 1;
            }
            if fork(v > 255) {
                bad = true;
            } else {
                out.push(v as u8);
            }
            continue;
        }
        if fork(e | 0x20 == b'x') {
            i += 1;
            let mut v = 0;
            let mut n = 0;
            while n < 2 && i < b.len() {
                let Some(h) = hexval(b[i]) else { break };
                v = v * 16 + h;
                i += 1;
                n += 1;
            }
            if n == 0 {
                bad = true;
            } else {
                out.push(v as u8);
            }
            continue;
        }
        if fork(e | 0x20 == b'u') {
            let k = if fork(e == b'u') { 4 } else { 8 };
            i += 1;
            let mut v: u32 = 0;
            let mut n = 0;
            while n < k && i < b.len() {
                let Some(h) = hexval(b[i]) else { break };
                v = v << 4 | h;
                i += 1;
                n += 1;
            }
            if n < k || fork(v > 0x10ffff) || fork((v >= 0xd800) & (v < 0xe000)) {
                bad = true;
            } else {
                push_char(&mut out, v);
            }
            continue;
        }
        // not an escape; the character itself is read next
        bad = true;
    }
}

/// Is this well-formed UTF-8 (RFC 3629)?
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    let cont = |i: usize, lo: u8, hi: u8| i < b.len() && is(b[i], lo, hi);
    while i < b.len() {
        let c = b[i];
        if fork(c < 0x80) {
            i += 1;
        } else if is(c, 0xc2, 0xdf) {
            if !cont(i + 1, 0x80, 0xbf) {
                return false;
            }
            i += 2;
        } else if is(c, 0xe0, 0xef) {
            let (lo, hi) = if fork(c == 0xe0) {
                (0xa0, 0xbf)
            } else if fork(c == 0xed) {
                (0x80, 0x9f)
            } else {
                (0x80, 0xbf)
            };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) {
                return false;
            }
            i += 3;
        } else if is(c, 0xf0, 0xf4) {
            let (lo, hi) = if fork(c == 0xf0) {
                (0x90, 0xbf)
            } else if fork(c == 0xf4) {
                (0x80, 0x8f)
            } else {
                (0x80, 0xbf)
            };
            if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) || !cont(i + 3, 0x80, 0xbf) {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
