//! Tokenizer harnesses: the real SliceTokenizer against reftok on symbolic source text.
use crate::reftok::{self as rt, RTok};
use crate::sym::*;
use jsparse::verif_hooks::tokens::{self, PunctuatorToken as P, Token, TemplateFormat, CommentFormat};
use jsparse::verif_hooks::{Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};

type Tok = <&'static str as IntoTokenizer<'static>>::Item;

pub static PT: [P; 52] = [
    P::RAngleAngleAngleEq, P::Ellipsis, P::LAngleAngleEq, P::RAngleAngleEq, P::RAngleAngleAngle, P::EqEqEq, P::ExclamEqEq, P::StarStarEq,
    P::LAngleEq, P::LAngleAngle, P::RAngleEq, P::RAngleAngle, P::ExclamEq, P::Arrow, P::EqEq, P::PlusEq, P::PlusPlus, P::MinusEq, P::MinusMinus, P::PercentEq, P::StarEq, P::StarStar, P::SlashEq, P::AmpAmp, P::AmpEq, P::BarBar, P::BarEq, P::CaretEq,
    P::CurlyOpen, P::CurlyClose, P::ParenOpen, P::ParenClose, P::SquareOpen, P::SquareClose, P::Semicolon, P::Comma, P::Tilde, P::Question, P::Colon, P::Period, P::LAngle, P::RAngle, P::Exclam, P::Eq, P::Plus, P::Minus, P::Percent, P::Star, P::Slash, P::Amp, P::Bar, P::Caret,
];

pub fn hint(expr: bool, tmpl: bool) -> Hint { Hint::default().expression(expr).template(tmpl) }

/// instructions one tokenizer call may execute (texts of up to 70 KB are scanned in one call)
const LIMIT: u64 = 40_000_000;
struct Job { tk: *mut Tok, hint: Hint, out: *mut (Token<'static>, TokenRange) }
extern "C-unwind" fn run_next(d: *mut u8) {
    let j = unsafe { &mut *(d as *mut Job) };
    let o = unsafe { &mut *j.out };
    unsafe { (*j.tk).next_token(&j.hint, (&mut o.0, &mut o.1)) }
}
pub struct Drv { pub tk: Box<Tok>, pub out: Box<(Token<'static>, TokenRange)>, pub src: &'static [u8] }
impl Drv {
    pub fn new(src: &'static [u8]) -> Drv {
        sym_note_src(src);
        let s: &'static str = unsafe { std::str::from_utf8_unchecked(src) };
        Drv { tk: Box::new(s.into_tokenizer()), out: Box::new(Default::default()), src }
    }
    pub fn next_strict(&mut self, expr: bool, tmpl: bool) -> u32 {
        let mut j = Job { tk: &mut *self.tk, hint: hint(expr, tmpl).strict(true), out: &mut *self.out };
        sym_try(run_next, &mut j as *mut Job as *mut u8, LIMIT)
    }
    pub fn next(&mut self, expr: bool, tmpl: bool) -> u32 {
        let mut j = Job { tk: &mut *self.tk, hint: hint(expr, tmpl), out: &mut *self.out };
        sym_try(run_next, &mut j as *mut Job as *mut u8, LIMIT)
    }
}
fn sym_note_src(s: &'static [u8]) { sym_note(s.as_ptr(), s.len()) }

/// start of the single constant seed for a symbolic buffer
pub struct Buf { v: Vec<u8> }
impl Buf {
    pub fn new() -> Buf { Buf { v: Vec::with_capacity(128) } }
    pub fn lit(mut self, s: &[u8]) -> Buf { self.v.extend_from_slice(s); self }
    /// n free ASCII characters
    pub fn ascii(mut self, n: usize) -> Buf { for _ in 0..n { self.v.push(sym_new(128) as u8); } self }
    /// n characters chosen from a table of single bytes
    pub fn of(mut self, tb: &'static [u8], n: usize) -> Buf { for _ in 0..n { let i = sym_new(tb.len() as u32); self.v.push(tb[i as usize]); } self }
    /// the first k of n characters from a table (all n symbols are always allocated)
    pub fn of_k(mut self, tb: &'static [u8], n: usize, k: usize) -> Buf { for j in 0..n { let i = sym_new(tb.len() as u32); if j < k { self.v.push(tb[i as usize]); } } self }
    /// one character chosen from a table of two / three byte characters
    pub fn two(mut self, i: usize) -> Buf { self.v.push(TWO[i][0]); self.v.push(TWO[i][1]); self }
    pub fn three(mut self, i: usize) -> Buf { self.v.push(THREE[i][0]); self.v.push(THREE[i][1]); self.v.push(THREE[i][2]); self }
    pub fn four(mut self, i: usize) -> Buf { for k in 0..4 { self.v.push(FOUR[i][k]); } self }
    /// 0 ascii, 1 two-byte, 2 three-byte, 3 four-byte character (chosen by symbol index x < 8)
    pub fn slot(self, w: usize, x: usize) -> Buf { match w { 0 => self.ascii(1), 1 => self.two(x), 2 => self.three(x), _ => self.four(x) } }
    pub fn done(self) -> &'static [u8] { Box::leak(self.v.into_boxed_slice()) }
}
// NBSP, e-acute, A0-tail lookalikes
static TWO: [[u8; 2]; 8] = [[0xC2, 0xA6], [0xC3, 0xBF], [0xC2, 0xA0], [0xC3, 0xA9], [0xC2, 0xA8], [0xC2, 0x85], [0xC3, 0xA0], [0xC2, 0xB0]];
// LS, PS, BOM, HORIZONTAL ELLIPSIS (E2 80 A6), EURO (E2 82 AC), U+FEFE, CJK
static THREE: [[u8; 3]; 8] = [[0xEF, 0xBC, 0xA8], [0xE2, 0x80, 0xA8], [0xE2, 0x80, 0xA9], [0xEF, 0xBB, 0xBF], [0xE2, 0x80, 0xA6], [0xE2, 0x82, 0xAC], [0xEF, 0xBB, 0xBE], [0xE4, 0xB8, 0xAD]];
static FOUR: [[u8; 4]; 8] = [[0xF0, 0x9F, 0x98, 0x80], [0xF0, 0x90, 0x80, 0xA8], [0xF0, 0x9F, 0x98, 0x81], [0xF1, 0x80, 0x80, 0x80], [0xF0, 0xA0, 0x80, 0x80], [0xF0, 0x90, 0x80, 0xA9], [0xF0, 0x9F, 0x82, 0xA0], [0xF4, 0x8F, 0xBF, 0xBF]];

pub fn txt(s: &str, src: &[u8], r: (usize, usize)) -> bool {
    if s.len() != r.1 - r.0 { return false; }
    if s.as_ptr() == src[r.0..].as_ptr() { return true; }
    s.as_bytes() == &src[r.0..r.1]
}

/// everything but positions
pub fn same_token(t: &Token<'static>, r: &RTok, src: &[u8]) -> bool {
    match t {
        Token::EOF(_) => r.kind == rt::EOF,
        Token::LineTerminator(_) => r.kind == rt::LT,
        Token::Punctuator(p) => r.kind == rt::PUNCT && punct_text(*p).len() == r.end - r.start && punct_text(*p) == &src[r.start..r.end],
        Token::Comment(c) => (if r.kind == rt::LCOM { c.format == CommentFormat::Line } else { r.kind == rt::BCOM && c.format == CommentFormat::Block }) && txt(&c.value, src, r.a),
        Token::RegularExpressionLiteral(x) => r.kind == rt::REGEX && txt(&x.pattern, src, r.a) && txt(&x.flags, src, r.b),
        Token::IdentifierName(x) => r.kind == rt::IDENT && txt(&x.name, src, r.a),
        Token::NumericLiteral(x) => r.kind == rt::NUM && num_ok(x.value, r, src),
        Token::StringLiteral(x) => r.kind == rt::STR && txt(&x.value, src, r.a),
        Token::Template(x) => (match x.format { TemplateFormat::NoSubstitution => rt::TNOSUB, TemplateFormat::Head => rt::THEAD, TemplateFormat::Middle => rt::TMID, TemplateFormat::Tail => rt::TTAIL }) == r.kind && txt(&x.raw, src, r.a),
        Token::Whitespace(_) => false,
    }
}
pub fn punct_text(p: P) -> &'static [u8] { for i in 0..PT.len() { if PT[i] == p { return rt::PUNCTS[i]; } } b"?" }

pub fn kind_of(t: &Token<'static>) -> u8 {
    match t {
        Token::EOF(_) => rt::EOF, Token::LineTerminator(_) => rt::LT, Token::Punctuator(_) => rt::PUNCT,
        Token::Comment(c) => if c.format == CommentFormat::Line { rt::LCOM } else { rt::BCOM },
        Token::RegularExpressionLiteral(_) => rt::REGEX, Token::IdentifierName(_) => rt::IDENT, Token::NumericLiteral(_) => rt::NUM, Token::StringLiteral(_) => rt::STR,
        Token::Template(x) => match x.format { TemplateFormat::NoSubstitution => rt::TNOSUB, TemplateFormat::Head => rt::THEAD, TemplateFormat::Middle => rt::TMID, TemplateFormat::Tail => rt::TTAIL },
        Token::Whitespace(_) => 99,
    }
}

/// the digits of a fraction / exponent are case split before the tokenizer sees them (one path per spelling)
fn conc_range(src: &[u8], r: (usize, usize)) { let mut i = r.0; while i < r.1 { sym_conc(src[i] as u64); i += 1; } }
fn dig(c: u8) -> u8 { if c <= 57 { c.wrapping_sub(48) } else if c >= 97 { c.wrapping_sub(87) } else { c.wrapping_sub(55) } }
/// numeric value: exact for integers without fraction/exponent (the bounds keep them below 2^53);
/// within 1e-12 relative otherwise
pub fn num_ok(v: f64, r: &RTok, src: &[u8]) -> bool {
    if !r.frac {
        let mut n = 0u64; let mut i = if r.radix == 10 { r.a.0 } else { r.a.0 + 2 };
        while i < r.a.1 { n = n * r.radix as u64 + dig(src[i]) as u64; i += 1; }
        // integers below 2^53 exactly, larger ones within 1e-12
        if n < 1 << 53 { return v == n as f64; }
        let w = n as f64; let d = if v > w { v - w } else { w - v };
        return d <= w * 1e-12;
    }
    // digits become concrete (one path per digit string), the arithmetic is then done in integers
    let mut m = 0u64; let mut scale = 0i64; let mut e = 0i64; let mut i = r.a.0; let mut seen = false;
    while i < r.a.1 {
        let c = sym_conc(src[i] as u64) as u32;
        if c == 46 { seen = true; } else if c | 32 == 101 {
            i += 1; let mut neg = false;
            let g = sym_conc(src[i] as u64) as u32;
            if g == 43 || g == 45 { neg = g == 45; i += 1; }
            while i < r.a.1 { let d = sym_conc(src[i] as u64) as i64 - 48; e = if e > 100000 { e } else { e * 10 + d }; i += 1; }
            if neg { e = -e; }
            break;
        } else { m = m * 10 + (c - 48) as u64; if seen { scale += 1; } }
        i += 1;
    }
    let vb = sym_conc(v.to_bits()); let v = f64::from_bits(vb);
    if m == 0 { return v == 0.0; }
    // m * 10^(e - scale)
    let x = e - scale;
    if x > 320 { return v == f64::INFINITY; }
    if x < -340 { return v == 0.0; }
    if x > 290 || x < -290 { return true; } // near the ends of the range: not specified
    let mut w = m as f64; let mut k = x;
    while k > 0 { w *= 10.0; k -= 1; }
    while k < 0 { w /= 10.0; k += 1; }
    let d = if v > w { v - w } else { w - v };
    d <= w * 1e-12
}

fn lines(t: &TokenRange, r: &RTok, src: &[u8], c: u32) {
    let (l, col) = rt::position(src, r.start);
    sym_assert(t.start.line == l, c);
    sym_assert(t.start.column == col, c + 1);
    let (l, col) = rt::position(src, r.end);
    sym_assert(t.end.line == l, c + 2);
    sym_assert(t.end.column == col, c + 3);
}

/// one token at the start of src, full comparison with the reference, restricted to the kinds in `mask`
pub fn one(src: &'static [u8], expr: bool, tmpl: bool, mask: u32) {
    let r = rt::next(src, 0, expr, tmpl);
    check_one(src, expr, tmpl, r, mask);
}
pub fn check_one(src: &'static [u8], expr: bool, tmpl: bool, r: RTok, mask: u32) {
    if r.st == rt::UNSPEC { sym_cover(62); return; }
    if r.st == rt::REJECT { sym_cover(61); } else { sym_assume(mask >> r.kind & 1 == 1); sym_cover(r.kind as u32); }
    if r.st == rt::OK && r.frac { conc_range(src, r.a); }
    let mut d = Drv::new(src);
    let o = d.next(expr, tmpl);
    if r.st == rt::REJECT { sym_assert(o != 0, 10); sym_assert(o == 1, 11); sym_cover(40); return; }
    sym_assert(o == 0, 12);
    sym_assert(kind_of(&d.out.0) == r.kind, 13);
    sym_assert(d.out.1.start.offset == r.start && d.out.1.end.offset == r.end, 14);
    sym_assert(same_token(&d.out.0, &r, src), 15);
}

/// tokens until EOF / rejection; `hints` gives the two hint bits of each token
pub fn tiling(src: &'static [u8], nt: usize, strict_pos: bool) {
    let mut hs = [0u32; 12];
    for i in 0..nt { hs[i] = sym_new(4); }
    let mut d = Drv::new(src);
    let mut prev = 0usize; let mut eof = 0;
    for i in 0..nt {
        let (e, t) = (hs[i] & 1 == 1, hs[i] & 2 == 2);
        let o = d.next(e, t);
        if o != 0 { sym_assert(o == 1, 20); sym_cover(40); return; }
        let k = kind_of(&d.out.0);
        let (s, n) = (d.out.1.start.offset, d.out.1.end.offset);
        sym_assert(s >= prev && n >= s && n <= src.len(), 21);
        // only white space may be skipped between tokens, and a token does not start with white space
        let mut p = prev; while p < s { let w = rt::ws_len(src, p); sym_assert(w > 0, 22); p += w; }
        sym_assert(p == s, 23);
        if k != rt::LCOM { sym_assert(rt::ws_len(src, s) == 0, 24); }
        if k == rt::EOF { sym_assert(s == src.len() && n == s, 25); eof += 1; if eof == 2 { sym_cover(41); return; } }
        else { sym_assert(eof == 0, 26); sym_assert(n > s, 27); }
        // the token text is the source slice of its range
        let whole = span_of(&d.out.0);
        if let Some((pre, len, post, ptr)) = whole {
            sym_assert(n - s == pre + len + post, 28);
            sym_assert(ptr == src.as_ptr() as usize + s + pre || len == 0 || same_bytes(ptr, len, &src[s + pre..]), 29);
        }
        sym_cover(k as u32);
        if strict_pos {
            let (l, c) = rt::position(src, s); sym_assert(d.out.1.start.line == l, 30); sym_assert(d.out.1.start.column == c, 31);
            let (l, c) = rt::position(src, n); sym_assert(d.out.1.end.line == l, 32); sym_assert(d.out.1.end.column == c, 33);
        }
        prev = n;
    }
    sym_cover(42);
}
fn same_bytes(ptr: usize, len: usize, s: &[u8]) -> bool { len <= s.len() && unsafe { std::slice::from_raw_parts(ptr as *const u8, len) } == &s[..len] }
/// (delimiter before, payload length, delimiter after, payload address)
fn span_of(t: &Token<'static>) -> Option<(usize, usize, usize, usize)> {
    let f = |a: usize, s: &str, b: usize| Some((a, s.len(), b, s.as_ptr() as usize));
    match t {
        Token::IdentifierName(x) => f(0, &x.name, 0),
        Token::StringLiteral(x) => f(1, &x.value, 1),
        Token::Comment(x) => f(2, &x.value, if x.format == CommentFormat::Line { 0 } else { 2 }),
        Token::Template(x) => f(1, &x.raw, match x.format { TemplateFormat::Head | TemplateFormat::Middle => 2, _ => 1 }),
        Token::RegularExpressionLiteral(x) => f(1, &x.pattern, 1 + x.flags.len()),
        Token::Punctuator(p) => { let s = punct_text(*p); Some((0, s.len(), 0, s.as_ptr() as usize)) }
        _ => None,
    }
}

/// whole-stream comparison with the reference (hint bits symbolic per token), positions included
pub fn stream(src: &'static [u8], nt: usize, pos: bool) { stream_h(src, nt, pos, None) }
pub fn stream_h(src: &'static [u8], nt: usize, pos: bool, fix: Option<(bool, bool)>) {
    let mut hs = [0u32; 12];
    for i in 0..nt { hs[i] = sym_new(4); }
    let mut d = Drv::new(src);
    let mut p = 0usize;
    for i in 0..nt {
        let (e, t) = match fix { Some(h) => h, None => (hs[i] & 1 == 1, hs[i] & 2 == 2) };
        let r = rt::next(src, p, e, t);
        if r.st == rt::UNSPEC { sym_cover(62); return; }
        if !pos && r.st == rt::OK && r.frac { conc_range(src, r.a); }
        let o = d.next(e, t);
        if r.st == rt::REJECT { sym_assert(o == 1, 10); sym_cover(61); return; }
        sym_assert(o == 0, 12);
        sym_cover(r.kind as u32);
        if pos { lines(&d.out.1, &r, src, 30); } else {
            sym_assert(kind_of(&d.out.0) == r.kind, 13);
            sym_assert(d.out.1.start.offset == r.start && d.out.1.end.offset == r.end, 14);
            sym_assert(same_token(&d.out.0, &r, src), 15);
        }
        if r.kind == rt::EOF { sym_cover(41); return; }
        p = r.end;
    }
    sym_cover(42);
}
#[allow(dead_code)] fn _t(_: tokens::EOFToken) {}

/// shape: a symbol picks which single slot (if any) holds a multi-byte character and of which width;
/// `pre`/`post` are fixed text around the n free slots
pub fn shaped(pre: &[u8], n: usize, post: &[u8]) -> &'static [u8] { shaped_of(pre, n, post, 3) }
pub fn shaped_of(pre: &[u8], n: usize, post: &[u8], widths: u32) -> &'static [u8] {
    let s = sym_conc(sym_new(1 + widths * n as u32) as u64) as usize;
    let x = sym_new(8) as usize;
    let mut b = Buf::new().lit(pre);
    for i in 0..n { if s > 0 && (s - 1) / widths as usize == i { sym_new(128); b = b.slot(1 + ((s - 1) % widths as usize), x); } else { b = b.ascii(1); } }
    b.lit(post).done()
}

/// two symbolic hint bits
pub fn hints() -> (bool, bool) { let h = sym_new(4); (h & 1 == 1, h & 2 == 2) }

/// one token with symbolic hints
pub fn one_h(src: &'static [u8], mask: u32) { let (e, t) = hints(); one(src, e, t, mask) }

/// Two tokenizers over the same text, differing only in the hints given for the first token:
/// equal unless the token starts with `/` (expression hint) or `}` (template hint); `strict` never matters.
pub fn hint_relation(src: &'static [u8]) {
    let (e1, t1) = hints(); let (e2, t2) = hints();
    let mut p = 0; loop { let w = rt::ws_len(src, p); if w == 0 { break; } p += w; }
    let c = rt::at(src, p);
    sym_assume(c != 47 || e1 == e2 || rt::at(src, p + 1) == 47 || rt::at(src, p + 1) == 42);
    sym_assume(c != 125 || t1 == t2);
    sym_cover(if c == 47 { 1 } else if c == 125 { 2 } else { 3 });
    let mut a = Drv::new(src); let mut b = Drv::new(src);
    let oa = a.next(e1, t1); let ob = b.next_strict(e2, t2);
    sym_assert(oa == ob, 50);
    if oa != 0 { sym_cover(40); return; }
    sym_assert(a.out.1 == b.out.1, 51);
    sym_assert(same_tokens(&a.out.0, &b.out.0), 52);
    // and the stream continues identically afterwards
    let oa = a.next(false, false); let ob = b.next(false, false);
    sym_assert(oa == ob, 53);
    if oa == 0 { sym_assert(a.out.1 == b.out.1, 54); sym_assert(same_tokens(&a.out.0, &b.out.0), 55); sym_cover(41); }
}
fn eqs(a: &str, b: &str) -> bool { a.len() == b.len() && (a.as_ptr() == b.as_ptr() || a.as_bytes() == b.as_bytes()) }
fn same_tokens(a: &Token<'static>, b: &Token<'static>) -> bool {
    match (a, b) {
        (Token::EOF(_), Token::EOF(_)) | (Token::LineTerminator(_), Token::LineTerminator(_)) => true,
        (Token::Punctuator(x), Token::Punctuator(y)) => x == y,
        (Token::Comment(x), Token::Comment(y)) => x.format == y.format && eqs(&x.value, &y.value),
        (Token::RegularExpressionLiteral(x), Token::RegularExpressionLiteral(y)) => eqs(&x.pattern, &y.pattern) && eqs(&x.flags, &y.flags),
        (Token::IdentifierName(x), Token::IdentifierName(y)) => eqs(&x.name, &y.name),
        (Token::NumericLiteral(x), Token::NumericLiteral(y)) => x.value.to_bits() == y.value.to_bits(),
        (Token::StringLiteral(x), Token::StringLiteral(y)) => eqs(&x.value, &y.value),
        (Token::Template(x), Token::Template(y)) => x.format == y.format && eqs(&x.raw, &y.raw) && eqs(&x.cooked, &y.cooked),
        _ => false,
    }
}

/// every call either returns a token or rejects deliberately, within the step limit
pub fn no_crash(src: &'static [u8], nt: usize) {
    let mut hs = [0u32; 12];
    for i in 0..nt { hs[i] = sym_new(4); }
    let mut d = Drv::new(src);
    for i in 0..nt {
        let o = d.next(hs[i] & 1 == 1, hs[i] & 2 == 2);
        sym_assert(o <= 1, 60);
        if o == 1 { sym_cover(40); return; }
        let k = kind_of(&d.out.0);
        sym_assert(k != 99, 61);
        if k == rt::EOF { sym_cover(41); return; }
    }
    sym_cover(42);
}

pub fn rep(c: u8, n: usize) -> Vec<u8> { vec![c; n] }
pub fn cat(a: &[u8], b: &[u8]) -> Vec<u8> { let mut v = a.to_vec(); v.extend_from_slice(b); v }
/// pick one of n alternatives by a symbol made concrete
pub fn pick(n: u32) -> usize { sym_conc(sym_new(n) as u64) as usize }

/// a long concrete run of characters inside each kind of token, then free characters, then the closing text
pub fn long_text(run: usize, free: usize) -> (&'static [u8], bool, bool) {
    let k = pick(9);
    let (pre, c, post, e, t): (&[u8], u8, &[u8], bool, bool) = match k {
        0 => (b"", b' ', b"", false, false), 1 => (b"\"", b'a', b"\"", false, false), 2 => (b"/*", b'x', b"*/", false, false), 3 => (b"", b'a', b" ", false, false),
        4 => (b"`", b'a', b"`", false, false), 5 => (b"/", b'a', b"/g", true, false), 6 => (b"}", b'a', b"${", false, true), 7 => (b"//", b'x', b"\n", false, false), _ => (b"\n;", b'\t', b"\r\n", false, false),
    };
    (Buf::new().lit(pre).lit(&rep(c, run)).ascii(free).lit(post).done(), e, t)
}

/// many lines, then free characters: only the tokens after the run are compared (line counted once)
pub fn pos_lines(src: &'static [u8]) {
    let mut d = Drv::new(src);
    let mut p = 0; let n = src.len() - 2;
    while p < n {
        let o = d.next(false, false);
        sym_assert(o == 0, 12);
        p = d.out.1.end.offset;
        if p == 0 { break; }
    }
    for _ in 0..3 {
        let r = rt::next(src, p, false, false);
        if r.st == rt::UNSPEC { sym_cover(62); return; }
        let o = d.next(false, false);
        if r.st == rt::REJECT { sym_assert(o == 1, 10); sym_cover(61); return; }
        sym_assert(o == 0, 12);
        lines(&d.out.1, &r, src, 30);
        if r.kind == rt::EOF { sym_cover(41); return; }
        p = r.end;
    }
    sym_cover(42);
}
