//! Parser harnesses: the real parser over symbolic token classes, against the reference recognizer.
use crate::cls::*;
use crate::gram::{newline, Bad, Ref};
use crate::sym::*;
use jsparse::verif_hooks::tokens::{self, Token};
use jsparse::verif_hooks::{Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};
use std::borrow::Cow;

/// A tokenizer over a sequence of token classes. What depends on the hints (`/` and `}`) is decided as the
/// real tokenizer decides it.
#[derive(Clone, Debug)]
pub struct Mock { c: &'static [u8], nl: &'static [u8], i: usize, st: u8, sub: u8, line: usize }

impl IntoTokenizer<'static> for Mock { type Item = Mock; fn into_tokenizer(self) -> Mock { self } }

fn com(format: tokens::CommentFormat) -> Token<'static> { tokens::CommentToken { format, value: Cow::Borrowed("c") }.into() }
fn tpl(format: tokens::TemplateFormat) -> Token<'static> { tokens::TemplateToken { format, cooked: Cow::Borrowed("m"), raw: Cow::Borrowed("m") }.into() }
fn slash() -> Token<'static> { tokens::PunctuatorToken::Slash.into() }
fn ident(c: u8) -> Token<'static> {
    let s: &'static str = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(NAMES[c as usize].as_ptr(), NLEN[c as usize] as usize)) };
    tokens::IdentifierNameToken { name: Cow::Borrowed(s) }.into()
}

/// separators: 0 white space, 1 line terminator, 2 block comment, 3 block comment over two lines, 4 line comment,
/// 5 line terminator then block comment, 6 block comment then line terminator
pub const SEPS: [&str; 7] = [" ", " \n", " /*c*/ ", " /*\n*/ ", " //c\n", "\n /*c*/ ", " /*c*/ \n"];

impl Mock {
    pub fn new(c: &'static [u8], nl: &'static [u8]) -> Mock { Mock { c, nl, i: 0, st: 0, sub: 0, line: 0 } }
    fn lt(&mut self) -> Token<'static> { self.line += 1; tokens::LineTerminatorToken {}.into() }
    /// the next separator token, if any is left before the current token
    fn sep(&mut self) -> Option<Token<'static>> {
        let s = self.nl[self.i];
        if self.st == 0 {
            self.st = 1;
            match s {
                0 => {}
                1 => { self.st = 2; return Some(self.lt()); }
                2 => { self.st = 2; return Some(com(tokens::CommentFormat::Block)); }
                3 => { self.st = 2; self.line += 1; return Some(com(tokens::CommentFormat::Block)); }
                4 => return Some(com(tokens::CommentFormat::Line)),
                5 => return Some(self.lt()),
                _ => return Some(com(tokens::CommentFormat::Block)),
            }
            self.st = 2;
        }
        if self.st == 1 {
            self.st = 2;
            return Some(if s == 5 { com(tokens::CommentFormat::Block) } else { self.lt() });
        }
        None
    }
    fn advance(&mut self) { self.i += 1; self.st = 0; }
    fn token(&mut self, expr: bool, tmpl: bool) -> Token<'static> {
        if self.sub != 0 { return self.sub_token(expr); }
        loop {
            if let Some(t) = self.sep() { return t; }
            if self.i >= self.c.len() { return tokens::EOFToken {}.into(); }
            if self.c[self.i] != NONE { break; }
            self.advance();
        }
        let c = self.c[self.i];
        match KIND[c as usize] {
            K_ID => { self.advance(); ident(c) }
            K_P => { self.advance(); PV[c as usize].into() }
            K_NUM => { self.advance(); tokens::NumericLiteralToken { value: 1.0 }.into() }
            K_STR => { self.advance(); tokens::StringLiteralToken { value: Cow::Borrowed("s") }.into() }
            K_NT => { self.advance(); tpl(tokens::TemplateFormat::NoSubstitution) }
            K_HD => { self.advance(); tpl(tokens::TemplateFormat::Head) }
            K_RB => { if tmpl { panic!("text is not a template continuation"); } self.advance(); tokens::PunctuatorToken::CurlyClose.into() }
            K_TM | K_TT => {
                if tmpl { self.advance(); return tpl(if c == TM { tokens::TemplateFormat::Middle } else { tokens::TemplateFormat::Tail }); }
                self.sub = 1;
                tokens::PunctuatorToken::CurlyClose.into()
            }
            K_RE => {
                if expr { self.advance(); return tokens::RegularExpressionLiteralToken { pattern: Cow::Borrowed("r"), flags: Cow::Borrowed("") }.into(); }
                self.sub = 1;
                slash()
            }
            _ => { if expr { panic!("text is not a regular expression"); } self.advance(); if c == SL { slash() } else { tokens::PunctuatorToken::SlashEq.into() } }
        }
    }
    /// `}m${` and `/r/` read where no template / regular expression is expected
    fn sub_token(&mut self, expr: bool) -> Token<'static> {
        let c = self.c[self.i];
        if self.sub == 1 {
            if c == TT { panic!("unterminated template"); }
            self.sub = 2;
            return ident(A);
        }
        if c == RE && expr { panic!("text is not a regular expression"); }
        self.sub = 0;
        self.advance();
        if c == RE { slash() } else { tokens::PunctuatorToken::CurlyOpen.into() }
    }
}
impl Tokenizer<'static> for Mock {
    fn next_token(&mut self, hint: &Hint, out: (&mut Token<'static>, &mut TokenRange)) {
        let h = *hint;
        let expr = h == h.expression(true);
        let tmpl = h == h.template(true);
        out.1.start.line = self.line;
        out.1.start.offset = self.i;
        *out.0 = self.token(expr, tmpl);
        out.1.end.line = self.line;
        out.1.end.offset = self.i;
    }
}

extern "C-unwind" fn run_mock(d: *mut u8) { let m = unsafe { &*(d as *mut Mock) }; jsparse::parser::parse_root::<_, ()>(m.clone()) }
extern "C-unwind" fn run_text(d: *mut u8) { let s: &'static str = unsafe { *(d as *mut &'static str) }; jsparse::parser::parse_root::<_, ()>(s) }

pub const LIMIT: u64 = 20_000_000;
pub fn parse(c: &'static [u8], nl: &'static [u8]) -> u32 { let mut m = Mock::new(c, nl); sym_try(run_mock, &mut m as *mut Mock as *mut u8, LIMIT) }
pub fn parse_text(s: &'static str) -> u32 { let mut s = s; sym_try(run_text, &mut s as *mut &'static str as *mut u8, LIMIT) }

pub fn render(c: &[u8], nl: &[u8]) -> String {
    let mut s = String::new();
    for i in 0..c.len() { s.push_str(SEPS[nl[i] as usize]); s.push_str(TEXT[c[i] as usize]); }
    s.push_str(SEPS[nl[c.len()] as usize]);
    s
}

/// a program under construction: token classes and the separator before each
pub struct Prog { pub c: Vec<u8>, pub nl: Vec<u8>, last: u8 }
impl Prog {
    pub fn new() -> Prog { Prog { c: Vec::with_capacity(64), nl: Vec::with_capacity(64), last: 0 } }
    pub fn lit(mut self, s: &[u8]) -> Prog { for x in s { self.c.push(*x); self.nl.push(0); } self }
    /// n tokens, each any class of the table; a NONE in the table stands for no token and may only be followed by NONE
    pub fn of(mut self, tb: &'static [u8], n: usize) -> Prog {
        for _ in 0..n { let i = sym_new(tb.len() as u32); self.c.push(tb[i as usize]); self.nl.push(0); }
        self
    }
    /// n tokens of the table or nothing from some point on
    pub fn upto(mut self, tb: &'static [u8], n: usize) -> Prog {
        for _ in 0..n { let i = sym_new(tb.len() as u32 + 1); self.c.push(if i == tb.len() as u32 { NONE } else { tb[i as usize] }); self.nl.push(0); }
        self
    }
    pub fn rep(mut self, s: &[u8], n: usize) -> Prog { for _ in 0..n { for x in s { self.c.push(*x); self.nl.push(0); } } self }
    /// a free separator before the next token
    pub fn done(mut self) -> (&'static [u8], &'static [u8]) {
        self.nl.push(self.last);
        (Box::leak(self.c.into_boxed_slice()), Box::leak(self.nl.into_boxed_slice()))
    }
    /// free separators (any of the first k kinds) before the tokens from..to
    pub fn seps(mut self, from: usize, to: usize, k: u32) -> Prog { for i in from..to { self.nl[i] = sym_new(k) as u8; } self }
    pub fn len(&self) -> usize { self.c.len() }
    pub fn check(self) { let (c, nl) = self.done(); check(c, nl) }
    pub fn total(self) { let (c, nl) = self.done(); check_all(c, nl, true) }
}

pub fn check(c: &'static [u8], nl: &'static [u8]) { check_all(c, nl, false) }
/// `total`: also run the programs the reference leaves unspecified (for internal crashes)
pub fn check_all(c: &'static [u8], nl: &'static [u8], total: bool) {
    note(c, nl);
    let want = Ref::new(c, nl).module();
    if !total && want == Err(Bad::Un) { sym_cover(3); return; }
    let got = parse(c, nl);
    match want {
        Ok(_) => { sym_cover(1); sym_assert(got == 0, 70); }
        Err(Bad::No) => { sym_cover(2); sym_assert(got != 0, 71); sym_assert(got == 1, 72); }
        Err(Bad::Un) => { sym_cover(3); sym_assert(got <= 1, 73); }
    }
}

// ------------------------------------------------------------------------------------------------ programs from text
fn word_class(w: &[u8]) -> u8 {
    let mut i = 0;
    while i < NONE as usize { if TEXT[i].as_bytes() == w { return i as u8; } i += 1; }
    panic!("harness: unknown token")
}
/// Appends a token specification: words separated by blanks; `@n` is n free tokens of the table (nothing from some
/// point on included), `!n` is exactly n free tokens, `~` makes the separator before the next token free, `#` is
/// replaced by the next specification of `fill`.
static mut BUMP: u8 = 0;
/// every `@n` of the following specifications stands for n + k tokens
pub fn bump(k: u8) { unsafe { BUMP = k; } }
pub fn build(p: &mut Prog, spec: &str, fill: &[&str], tb: &'static [u8]) {
    let b = spec.as_bytes();
    let mut i = 0;
    let mut sep = false;
    while i < b.len() {
        if b[i] == b' ' { i += 1; continue; }
        let s = i;
        while i < b.len() && b[i] != b' ' { i += 1; }
        let w = &b[s..i];
        if w[0] == b'~' && w.len() == 2 && w[1] == b'~' { sep = true; continue; }
        if w[0] == b'#' { build(p, fill[0], &fill[1..], tb); continue; }
        if w.len() == 2 && (w[0] == b'@' || w[0] == b'$') {
            let n = w[1] - b'0' + if w[0] == b'@' { unsafe { BUMP } } else { 0 };
            for _ in 0..n {
                if sep { let x = draw(7, tb); p.nl.push(x as u8); } else { p.nl.push(0); }
                let m = tb.len() as u32;
                if w[0] == b'@' { let x = draw(m + 1, tb); p.c.push(if x == m { NONE } else { tb[x as usize] }); }
                else { let x = draw(m, tb); p.c.push(tb[x as usize]); }
            }
            sep = false;
            continue;
        }
        p.c.push(word_class(w));
        if sep { let x = draw(7, tb); p.nl.push(x as u8); sep = false; } else { p.nl.push(0); }
    }
    if sep { p.last = draw(7, tb) as u8; }
}
pub fn prog(spec: &str, fill: &[&str], tb: &'static [u8]) -> Prog { let mut p = Prog::new(); build(&mut p, spec, fill, tb); p }
/// one of n values, from a symbol whose domain is the same for every symbol over this table
fn draw(n: u32, tb: &'static [u8]) -> u32 {
    let m = if tb.len() < 7 { 8 } else { tb.len() as u32 + 1 };
    let x = sym_new(m);
    if n < m { sym_assume(x < n); }
    x
}
fn choose(l: &'static [&'static str]) -> &'static str { l[crate::tokh::pick(l.len() as u32)] }
/// every specification of the list
pub fn each(l: &'static [&'static str], tb: &'static [u8]) { prog(choose(l), &[], tb).check() }
/// every wrapper of the list around every specification of the other
pub fn cross(o: &'static [&'static str], l: &'static [&'static str], tb: &'static [u8]) { let a = choose(o); let b = choose(l); prog(a, &[b], tb).check() }
pub fn cross3(o: &'static [&'static str], l: &'static [&'static str], k: &'static [&'static str], tb: &'static [u8]) { let a = choose(o); let b = choose(l); let c = choose(k); prog(a, &[b, c], tb).check() }
/// every chain of specifications, each filling the hole of the one before
pub fn chain(ls: &[&'static [&'static str]], tb: &'static [u8]) {
    let mut f: Vec<&str> = Vec::with_capacity(ls.len());
    for l in ls { f.push(choose(l)); }
    prog(f[0], &f[1..], tb).check()
}
/// the domain of a place in a program, whatever the program's length
const PLACES: u32 = 160;
fn place(at: u32, n: usize) -> usize { sym_assert(n <= PLACES as usize, 99); sym_assume((at as usize) < n); sym_conc(at as u64) as usize }
/// every chain of specifications with one token inserted, replaced or left out anywhere
pub fn mutate(ls: &[&'static [&'static str]], tb: &'static [u8]) { let (c, nl) = mutant(ls, tb); check(c, nl) }
pub fn bmutate(ls: &[&'static [&'static str]], tb: &'static [u8]) { let (c, nl) = mutant(ls, tb); bracketed(c, nl) }
pub fn cmutate(ls: &[&'static [&'static str]], tb: &'static [u8]) { let (c, nl) = mutant(ls, tb); crashless(c, nl) }
fn mutant(ls: &[&'static [&'static str]], tb: &'static [u8]) -> (&'static [u8], &'static [u8]) {
    let mut f: Vec<&str> = Vec::with_capacity(ls.len());
    for l in ls { f.push(choose(l)); }
    let at = sym_new(PLACES);
    let m = tb.len() as u32;
    let x = sym_new(m + 1);
    let mut p = prog(f[0], &f[1..], tb);
    let k = place(at, 2 * p.c.len() + 1);
    let t = if x == m { NONE } else { tb[x as usize] };
    if k & 1 == 1 { p.c[k / 2] = t; } else { p.c.insert(k / 2, t); p.nl.insert(k / 2, 0); }
    p.done()
}
/// every chain of specifications with any separator at any place
pub fn separate(ls: &[&'static [&'static str]], tb: &'static [u8], mode: u8) {
    let mut f: Vec<&str> = Vec::with_capacity(ls.len());
    for l in ls { f.push(choose(l)); }
    let at = sym_new(PLACES);
    let x = sym_new(7) as u8;
    let p = prog(f[0], &f[1..], tb);
    let (c, nl) = p.done();
    let k = place(at, nl.len());
    let mut v: Vec<u8> = nl.to_vec();
    v[k] = x;
    let nl: &'static [u8] = Box::leak(v.into_boxed_slice());
    match mode { 0 => check(c, nl), 1 => equivalent(c, nl), _ => crashless(c, nl) }
}
/// no internal failure on any specification of the list
pub fn each_total(l: &'static [&'static str], tb: &'static [u8]) { let (c, nl) = prog(choose(l), &[], tb).done(); crashless(c, nl) }
/// a wrapper nested n times around each specification
pub fn nest(o: &'static [&'static str], n: usize, l: &'static [&'static str], tb: &'static [u8]) {
    let a = choose(o); let b = choose(l);
    let mut fill: Vec<&str> = Vec::with_capacity(n + 1);
    for _ in 0..n - 1 { fill.push(a); }
    fill.push(b);
    prog(a, &fill, tb).check()
}

// ------------------------------------------------------------------------------------------------ other oracles
/// Bracket structure alone: every opener closed by its own kind, templates included.
pub fn balanced(c: &[u8]) -> bool {
    let mut st: Vec<u8> = Vec::with_capacity(c.len());
    for i in 0..c.len() {
        let k = c[i];
        match k {
            LB | LP | LS | HD => st.push(k),
            RB => if st.pop() != Some(LB) { return false; },
            RP => if st.pop() != Some(LP) { return false; },
            RS => if st.pop() != Some(LS) { return false; },
            TM => match st.pop() { Some(HD) => st.push(HD), Some(LB) => st.push(LB), _ => return false },
            TT => if st.pop() != Some(HD) { return false; },
            _ => {}
        }
    }
    st.is_empty()
}
/// whatever is accepted is balanced
pub fn brackets(o: &'static [&'static str], l: &'static [&'static str], tb: &'static [u8]) {
    let a = choose(o); let b = choose(l);
    let (c, nl) = prog(a, &[b], tb).done();
    bracketed(c, nl)
}
fn bracketed(c: &'static [u8], nl: &'static [u8]) {
    note(c, nl);
    let got = parse(c, nl);
    if got == 0 { sym_cover(4); sym_assert(balanced(c), 80); } else { sym_cover(5); sym_assert(got == 1, 81); }
}
/// no internal failure, whatever the program
pub fn totality(o: &'static [&'static str], l: &'static [&'static str], tb: &'static [u8]) {
    let a = choose(o); let b = choose(l);
    let (c, nl) = prog(a, &[b], tb).done();
    crashless(c, nl)
}
fn crashless(c: &'static [u8], nl: &'static [u8]) {
    note(c, nl);
    let got = parse(c, nl);
    sym_cover(4 + (got != 0) as u32);
    sym_assert(got <= 1, 82);
}
/// no internal failure in any chain
pub fn crash(ls: &[&'static [&'static str]], tb: &'static [u8]) {
    let mut f: Vec<&str> = Vec::with_capacity(ls.len());
    for l in ls { f.push(choose(l)); }
    let (c, nl) = prog(f[0], &f[1..], tb).done();
    note(c, nl);
    let got = parse(c, nl);
    sym_cover(4 + (got != 0) as u32);
    sym_assert(got <= 1, 82);
}
/// the verdict depends on the separators only through "is there a line terminator"
pub fn trivia(o: &'static [&'static str], l: &'static [&'static str], tb: &'static [u8]) {
    let a = choose(o); let b = choose(l);
    let (c, nl) = prog(a, &[b], tb).done();
    equivalent(c, nl)
}
fn equivalent(c: &'static [u8], nl: &'static [u8]) {
    note(c, nl);
    let got = parse(c, nl);
    let mut m: Vec<u8> = Vec::with_capacity(nl.len());
    for i in 0..nl.len() { m.push(if nl[i] > 0 { if newline(nl[i]) { 1 } else { 0 } } else { 0 }); }
    let m: &'static [u8] = Box::leak(m.into_boxed_slice());
    let plain = parse(c, m);
    sym_cover(4 + (got != 0) as u32);
    sym_assert((got == 0) == (plain == 0), 83);
}
/// a complete construct followed by a program: accepted exactly when that program alone is (inside the same wrapper)
pub fn compose(o: &'static [&'static str], pre: &'static [&'static str], l: &'static [&'static str], tb: &'static [u8]) {
    let a = choose(o); let b = choose(pre); let k = choose(l);
    let (c, nl) = prog(a, &[b, k], tb).done();
    note(c, nl);
    let mut s: Vec<u8> = Vec::with_capacity(c.len());
    // drop the tokens of `pre`: they start where the wrapper's hole starts
    let at = hole_at(a); let n = words(b);
    for i in 0..c.len() { if i < at || i >= at + n { s.push(c[i]); } }
    let s: &'static [u8] = Box::leak(s.into_boxed_slice());
    let both = parse(c, nl);
    let alone = parse(s, nl);
    sym_cover(4 + (both != 0) as u32);
    sym_assert((both == 0) == (alone == 0), 84);
}
fn hole_at(spec: &str) -> usize { let b = spec.as_bytes(); let mut n = 0; let mut i = 0; while i < b.len() && b[i] != b'#' { if b[i] != b' ' && (i == 0 || b[i - 1] == b' ') { n += 1; } i += 1; } n }
/// words of a specification that ends in `#`, without it
fn words(spec: &str) -> usize { hole_at(spec) }
fn note(c: &'static [u8], nl: &'static [u8]) { if native() { let s: &'static str = Box::leak(render(c, nl).into_boxed_str()); sym_note(s.as_ptr(), s.len()); } }

/// a unit repeated n times between a prefix and a suffix
pub fn long(l: &'static [(&'static str, &'static str, &'static str)], n: usize, tb: &'static [u8]) {
    let (a, u, z) = l[crate::tokh::pick(l.len() as u32)];
    let mut p = Prog { c: Vec::with_capacity(8 * n + 64), nl: Vec::with_capacity(8 * n + 64), last: 0 };
    build(&mut p, a, &[], tb);
    let s = p.c.len();
    build(&mut p, u, &[], tb);
    let e = p.c.len();
    for _ in 1..n { for i in s..e { let x = p.c[i]; p.c.push(x); p.nl.push(0); } }
    build(&mut p, z, &[], tb);
    let (c, nl) = p.done();
    if native() && c.len() < 4000 { note(c, nl); }
    let want = Ref::new(c, nl).module();
    if want == Err(Bad::Un) { sym_cover(3); return; }
    let mut m = Mock::new(c, nl);
    let got = sym_try(run_mock, &mut m as *mut Mock as *mut u8, LIMIT * 100);
    match want { Ok(_) => { sym_cover(1); sym_assert(got == 0, 70); } _ => { sym_cover(2); sym_assert(got == 1, 71); } }
}

// ------------------------------------------------------------------------------------------------ end to end
const SLOT: usize = 12;
/// the program as text: every token in its own blank-padded slot
fn text_of(c: &[u8], nl: &[u8]) -> &'static str {
    let mut t: Vec<u8> = Vec::with_capacity(c.len() * (SLOT + 8) + 8);
    for i in 0..c.len() {
        let sp = sym_conc(nl[i] as u64) as usize;
        t.extend_from_slice(SEPS[sp].as_bytes());
        for k in 0..SLOT { t.push(if c[i] == NONE { b' ' } else { NAMES[c[i] as usize][k] }); }
    }
    t.extend_from_slice(SEPS[sym_conc(nl[c.len()] as u64) as usize].as_bytes());
    let s: &'static [u8] = Box::leak(t.into_boxed_slice());
    sym_note(s.as_ptr(), s.len());
    unsafe { std::str::from_utf8_unchecked(s) }
}
pub fn text(o: &'static [&'static str], l: &'static [&'static str], tb: &'static [u8]) {
    let a = choose(o); let b = choose(l);
    let (c, nl) = prog(a, &[b], tb).done();
    let want = Ref::new(c, nl).module();
    if want == Err(Bad::Un) { sym_cover(3); return; }
    let got = parse_text(text_of(c, nl));
    match want { Ok(_) => { sym_cover(1); sym_assert(got == 0, 90); } _ => { sym_cover(2); sym_assert(got == 1, 91); } }
}
/// class of a spelled word: one of the known names, or a plain identifier
fn spelled(w: &[u8]) -> u8 {
    let mut i = 0;
    while i <= WITH as usize { if NLEN[i] as usize == w.len() && &NAMES[i][..w.len()] == w { return i as u8; } i += 1; }
    A
}
static LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyz$_A0";
/// a freely spelled word of k <= n letters at every `$1` of the specification, through the real tokenizer
pub fn spelling(l: &'static [&'static str], n: usize) {
    let a = choose(l);
    let k = crate::tokh::pick(n as u32) + 1;
    let mut w: Vec<u8> = Vec::with_capacity(k);
    for i in 0..k { let x = sym_new(30); if i == 0 { sym_assume(x != 29); } w.push(LETTERS[x as usize]); }
    let cl = spelled(&w);
    let b = a.as_bytes();
    let mut t: Vec<u8> = Vec::with_capacity(b.len() * 4 + 64);
    let mut p = Prog::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b' ' { t.push(b' '); i += 1; continue; }
        let s = i;
        while i < b.len() && b[i] != b' ' { i += 1; }
        if b[s] == b'$' { t.extend_from_slice(&w); p.c.push(cl); } else { t.extend_from_slice(&b[s..i]); p.c.push(word_class(&b[s..i])); }
        p.nl.push(0);
    }
    let (c, nl) = p.done();
    let s: &'static [u8] = Box::leak(t.into_boxed_slice());
    sym_note(s.as_ptr(), s.len());
    let want = Ref::new(c, nl).module();
    if want == Err(Bad::Un) { sym_cover(3); return; }
    let got = parse_text(unsafe { std::str::from_utf8_unchecked(s) });
    match want { Ok(_) => { sym_cover(1); sym_assert(got == 0, 92); } _ => { sym_cover(2); sym_assert(got == 1, 93); } }
}
/// free characters inside a program text, lexed by the reference tokenizer (programs in which `/` or a template
/// substitution occurs outside comments, strings and plain templates are left out)
pub fn chars(l: &'static [(&'static str, &'static str)], n: usize, tb: &'static [u8]) {
    use crate::reftok as rt;
    let (a, z) = l[crate::tokh::pick(l.len() as u32)];
    let mut t: Vec<u8> = Vec::with_capacity(a.len() + z.len() + n);
    t.extend_from_slice(a.as_bytes());
    for _ in 0..n { if tb.is_empty() { t.push(sym_new(128) as u8); } else { let x = sym_new(tb.len() as u32); t.push(tb[x as usize]); } }
    t.extend_from_slice(z.as_bytes());
    let s: &'static [u8] = Box::leak(t.into_boxed_slice());
    sym_note(s.as_ptr(), s.len());
    let mut p = Prog::new();
    let mut pos = 0; let mut sep = 0u8; let mut rej = false;
    loop {
        let r = rt::next(s, pos, false, false);
        if r.st == rt::UNSPEC { sym_cover(3); return; }
        if r.st == rt::REJECT { rej = true; break; }
        pos = r.end;
        let k = match r.kind {
            rt::EOF => break,
            rt::LT | rt::LCOM => { sep = 1; continue; }
            rt::BCOM => { let mut j = r.start; while j < r.end { if rt::lt_len(s, j) > 0 { sep = 1; } j += 1; } continue; }
            rt::IDENT => spelled(&s[r.start..r.end]),
            rt::NUM => NUM, rt::STR => STR, rt::TNOSUB => NT,
            rt::PUNCT => { let w = &s[r.start..r.end]; if w == b"}" { RB } else { let k = punct_class(w); if k == SL || k == SLEQ { sym_cover(3); return; } k } }
            _ => { sym_cover(3); return; }
        };
        p.c.push(k); p.nl.push(sep); sep = 0;
    }
    p.last = sep;
    let (c, nl) = p.done();
    // a text whose rest cannot be tokenized is rejected whatever precedes it
    let want = if rej { Err(Bad::No) } else { Ref::new(c, nl).module() };
    if want == Err(Bad::Un) { sym_cover(3); return; }
    let got = parse_text(unsafe { std::str::from_utf8_unchecked(s) });
    match want { Ok(_) => { sym_cover(1); sym_assert(got == 0, 94); } _ => { sym_cover(2); sym_assert(got == 1, 95); } }
}
fn punct_class(w: &[u8]) -> u8 {
    let mut i = LB as usize;
    while i < NUM as usize { if TEXT[i].as_bytes() == w { return i as u8; } i += 1; }
    if w.len() == 1 { SL } else { SLEQ }
}
