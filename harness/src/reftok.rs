//! Independent reference for the ES2017 lexical grammar (ASCII identifiers), three valued:
//! OK (this token is required), REJECT (no token may be produced), UNSPEC (not covered by the properties).
pub const OK: u8 = 0;
pub const REJECT: u8 = 1;
pub const UNSPEC: u8 = 2;

pub const EOF: u8 = 0;
pub const LT: u8 = 1;
pub const PUNCT: u8 = 2;
pub const LCOM: u8 = 3;
pub const BCOM: u8 = 4;
pub const REGEX: u8 = 5;
pub const IDENT: u8 = 6;
pub const NUM: u8 = 7;
pub const STR: u8 = 8;
pub const TNOSUB: u8 = 9;
pub const THEAD: u8 = 10;
pub const TMID: u8 = 11;
pub const TTAIL: u8 = 12;

#[derive(Clone, Copy)]
pub struct RTok { pub st: u8, pub kind: u8, pub start: usize, pub end: usize, pub a: (usize, usize), pub b: (usize, usize), pub radix: u32, pub frac: bool }

pub static PUNCTS: [&[u8]; 54] = [
    b">>>=", b"...", b"<<=", b">>=", b">>>", b"===", b"!==", b"**=",
    b"<=", b"<<", b">=", b">>", b"!=", b"=>", b"==", b"+=", b"++", b"-=", b"--", b"%=", b"*=", b"**", b"/=", b"&&", b"&=", b"||", b"|=", b"^=",
    b"{", b"}", b"(", b")", b"[", b"]", b";", b",", b"~", b"?", b":", b".", b"<", b">", b"!", b"=", b"+", b"-", b"%", b"*", b"/", b"&", b"|", b"^",
    b"", b"",
];

#[inline]
pub fn at(s: &[u8], i: usize) -> u32 { if i < s.len() { s[i] as u32 } else { 0x100 } }
pub fn digit(c: u32) -> bool { c.wrapping_sub(48) < 10 }
pub fn alpha(c: u32) -> bool { (c | 32).wrapping_sub(97) < 26 }
pub fn id_start(c: u32) -> bool { alpha(c) || c == 36 || c == 95 }
pub fn id_part(c: u32) -> bool { id_start(c) || digit(c) }
pub fn hexval(c: u32) -> u32 { if digit(c) { c - 48 } else if (c | 32).wrapping_sub(97) < 6 { (c | 32) - 87 } else { 99 } }
/// length of the LineTerminatorSequence at i (CRLF counts as one), 0 if none
pub fn lt_len(s: &[u8], i: usize) -> usize {
    let c = at(s, i);
    if c == 13 { if at(s, i + 1) == 10 { 2 } else { 1 } } else if c == 10 { 1 }
    else if c == 0xE2 && at(s, i + 1) == 0x80 && (at(s, i + 2) == 0xA8 || at(s, i + 2) == 0xA9) { 3 } else { 0 }
}
pub fn ws_len(s: &[u8], i: usize) -> usize {
    let c = at(s, i);
    if c == 32 || c == 9 || c == 11 || c == 12 { 1 } else if c == 0xC2 && at(s, i + 1) == 0xA0 { 2 }
    else if c == 0xEF && at(s, i + 1) == 0xBB && at(s, i + 2) == 0xBF { 3 } else { 0 }
}
pub fn char_len(c: u32) -> usize { if c < 0x80 { 1 } else if c < 0xE0 { 2 } else if c < 0xF0 { 3 } else { 4 } }

/// (line, column): lines counted from 1 with CRLF as one terminator; column = code points since the line start
pub fn position(s: &[u8], off: usize) -> (usize, usize) {
    let mut line = 1; let mut col = 0; let mut i = 0;
    while i < off {
        let l = lt_len(s, i);
        if l > 0 && i + l <= off { line += 1; col = 0; i += l; }
        else { i += char_len(at(s, i)); col += 1; }
    }
    (line, col)
}

fn tok(kind: u8, start: usize, end: usize) -> RTok { RTok { st: OK, kind, start, end, a: (start, end), b: (0, 0), radix: 10, frac: false } }
fn rej(start: usize) -> RTok { RTok { st: REJECT, ..tok(EOF, start, start) } }
fn uns(start: usize) -> RTok { RTok { st: UNSPEC, ..tok(EOF, start, start) } }

pub fn next(s: &[u8], pos: usize, expr: bool, tmpl: bool) -> RTok {
    let mut p = pos;
    loop { let w = ws_len(s, p); if w == 0 { break; } p += w; }
    if p >= s.len() { return tok(EOF, p, p); }
    let l = lt_len(s, p);
    if l > 0 { return tok(LT, p, p + l); }
    let c = at(s, p);
    if id_start(c) {
        let mut e = p + 1;
        while id_part(at(s, e)) { e += 1; }
        let n = at(s, e);
        if n == 92 || (n >= 0x80 && n < 0x100 && ws_len(s, e) == 0 && lt_len(s, e) == 0) { return uns(p); }
        return tok(IDENT, p, e);
    }
    if digit(c) || (c == 46 && digit(at(s, p + 1))) { return number(s, p); }
    if c == 34 || c == 39 { return string(s, p, c); }
    if c == 96 { return template(s, p, TNOSUB, THEAD); }
    if c == 125 && tmpl { return template(s, p, TTAIL, TMID); }
    if c == 47 {
        let d = at(s, p + 1);
        if d == 47 { let mut e = p + 2; while e < s.len() && lt_len(s, e) == 0 { e += 1; } let mut t = tok(LCOM, p, e); t.a = (p + 2, e); return t; }
        if d == 42 {
            let mut e = p + 2;
            loop { if e + 1 >= s.len() { return rej(p); } if at(s, e) == 42 && at(s, e + 1) == 47 { break; } e += 1; }
            let mut t = tok(BCOM, p, e + 2); t.a = (p + 2, e); return t;
        }
        if expr { return regex(s, p); }
    }
    for q in PUNCTS.iter() {
        if q.is_empty() { break; }
        let mut k = 0;
        while k < q.len() && at(s, p + k) == q[k] as u32 { k += 1; }
        if k == q.len() { return tok(PUNCT, p, p + k); }
    }
    // every other character (control characters, #, @, \, non-ASCII identifiers and spaces)
    if c >= 0x80 || c == 92 { uns(p) } else { rej(p) }
}

fn number(s: &[u8], p: usize) -> RTok {
    let c = at(s, p); let n = at(s, p + 1) | 32;
    let mut t = tok(NUM, p, p);
    let mut e = p;
    if c == 48 && (n == 120 || n == 111 || n == 98) {
        t.radix = if n == 120 { 16 } else if n == 111 { 8 } else { 2 };
        e = p + 2;
        while hexval(at(s, e)) < t.radix { e += 1; }
        if e == p + 2 { return rej(p); }
        if digit(at(s, e)) { return rej(p); }
    } else {
        if c == 48 && digit(at(s, p + 1)) { return uns(p); }
        while digit(at(s, e)) { e += 1; }
        if at(s, e) == 46 { t.frac = true; e += 1; while digit(at(s, e)) { e += 1; } }
        if at(s, e) | 32 == 101 {
            t.frac = true;
            e += 1;
            let sg = at(s, e);
            if sg == 43 || sg == 45 { e += 1; }
            if !digit(at(s, e)) { return rej(p); }
            while digit(at(s, e)) { e += 1; }
        }
    }
    let x = at(s, e);
    if id_part(x) || x == 92 || (x >= 0x80 && x < 0x100 && ws_len(s, e) == 0 && lt_len(s, e) == 0) { return uns(p); }
    t.end = e; t.a = (p, e);
    t
}

fn string(s: &[u8], p: usize, q: u32) -> RTok {
    let mut e = p + 1;
    loop {
        if e >= s.len() { return rej(p); }
        let c = at(s, e);
        if c == q { let mut t = tok(STR, p, e + 1); t.a = (p + 1, e); return t; }
        if c == 92 {
            e += 1;
            if e >= s.len() { return rej(p); }
            let l = lt_len(s, e);
            if l > 0 { e += l; continue; }
            let d = at(s, e);
            if d == 48 { if digit(at(s, e + 1)) { return uns(p); } e += 1; continue; }
            if digit(d) { return uns(p); }
            if d == 120 { if hexval(at(s, e + 1)) > 15 || hexval(at(s, e + 2)) > 15 { return rej(p); } e += 3; continue; }
            if d == 117 {
                if at(s, e + 1) == 123 {
                    let mut v = 0u32; let mut k = e + 2;
                    while hexval(at(s, k)) < 16 { v = v * 16 + hexval(at(s, k)); if v > 0x10FFFF { return rej(p); } k += 1; }
                    if k == e + 2 || at(s, k) != 125 { return rej(p); }
                    e = k + 1;
                } else {
                    let mut k = 1; while k < 5 { if hexval(at(s, e + k)) > 15 { return rej(p); } k += 1; }
                    e += 5;
                }
                continue;
            }
            e += 1; // also any other (possibly multi-byte) character
            continue;
        }
        if lt_len(s, e) > 0 { return rej(p); }
        e += 1;
    }
}

fn template(s: &[u8], p: usize, full: u8, part: u8) -> RTok {
    let mut e = p + 1;
    loop {
        if e >= s.len() { return rej(p); }
        let c = at(s, e);
        if c == 96 { let mut t = tok(full, p, e + 1); t.a = (p + 1, e); return t; }
        if c == 36 && at(s, e + 1) == 123 { let mut t = tok(part, p, e + 2); t.a = (p + 1, e); return t; }
        if c == 92 { e += 1; if e >= s.len() { return rej(p); } }
        e += 1;
    }
}

fn regex(s: &[u8], p: usize) -> RTok {
    let mut e = p + 1; let mut cls = false;
    loop {
        if e >= s.len() || lt_len(s, e) > 0 { return rej(p); }
        let c = at(s, e);
        if c == 92 { e += 1; if e >= s.len() || lt_len(s, e) > 0 { return rej(p); } e += 1; continue; }
        if c == 91 { cls = true; } else if c == 93 { cls = false; }
        else if c == 47 && !cls { break; }
        e += 1;
    }
    let f = e + 1; let mut k = f;
    while at(s, k).wrapping_sub(97) < 26 { k += 1; }
    let x = at(s, k);
    if id_part(x) || x == 92 || (x >= 0x80 && x < 0x100 && ws_len(s, k) == 0 && lt_len(s, k) == 0) { return uns(p); }
    let mut t = tok(REGEX, p, k); t.a = (p + 1, e); t.b = (f, k);
    t
}
