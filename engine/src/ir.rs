//! Textual LLVM IR -> compact bytecode. Functions are decoded lazily on first call.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, I(u16), F32, F64, Ptr, Arr(u64, Box<Ty>), Vec(u64, Box<Ty>), Struct(Vec<Ty>, bool), Meta, Fn }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Leaf { I(u16), F32, F64 }
impl Leaf {
    pub fn bytes(self) -> u32 { match self { Leaf::I(w) => (w as u32 + 7) / 8, Leaf::F32 => 4, Leaf::F64 => 8 } }
    pub fn bits(self) -> u16 { match self { Leaf::I(w) => w, Leaf::F32 => 32, Leaf::F64 => 64 } }
}

fn align_to(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::I(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two().min(16) }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two().max(1),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Fn => 0,
            Ty::I(w) => align_to((*w as u64 + 7) / 8, self.align()),
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => if let Ty::I(1) = **t { (n + 7) / 8 } else { n * t.size() },
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs { if !*packed { o = align_to(o, f.align()); } o += f.size(); }
                if !*packed { o = align_to(o, self.align()); }
                o
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (j, f) in fs.iter().enumerate() {
                    if !*packed { o = align_to(o, f.align()); }
                    if j == i { return o; }
                    o += f.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, Leaf)>) {
        match self {
            Ty::I(w) => out.push((base, Leaf::I(*w))),
            Ty::Ptr => out.push((base, Leaf::I(64))),
            Ty::F32 => out.push((base, Leaf::F32)),
            Ty::F64 => out.push((base, Leaf::F64)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => for i in 0..*n { t.leaves(base + i * t.size(), out) },
            Ty::Struct(fs, _) => for i in 0..fs.len() { fs[i].leaves(base + self.field_off(i), out) },
            _ => {}
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(fs, _) => fs.iter().map(|f| f.nleaves()).sum(),
            _ => 0,
        }
    }
    fn elem(&self, i: usize) -> &Ty { match self { Ty::Struct(fs, _) => &fs[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => self } }
    fn leaf_index(&self, i: usize) -> usize {
        match self { Ty::Struct(fs, _) => fs[..i].iter().map(|f| f.nleaves()).sum(), Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.nleaves(), _ => 0 }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Local(String), Global(String), Int(i128), Word(String), Str(Vec<u8>), P(char), Hex(u64), Meta, Attr }

pub fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(b.len() / 4);
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    fn quoted(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
        // b[i] == '"'
        i += 1;
        let mut v = vec![];
        while b[i] != b'"' {
            if b[i] == b'\\' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
                v.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
                i += 3;
            } else if b[i] == b'\\' && b[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
            else { v.push(b[i]); i += 1; }
        }
        (v, i + 1)
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' { let (v, j) = quoted(b, i + 1); name = String::from_utf8_lossy(&v).into_owned(); i = j; }
                else { let st = i + 1; i += 1; while i < b.len() && isid(b[i]) { i += 1; } name = s[st..i].to_string(); }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && isid(b[i]) { i += 1; }
                out.push(Tok::Meta);
            }
            b'#' => { i += 1; while i < b.len() && isid(b[i]) { i += 1; } out.push(Tok::Attr); }
            b'"' => { let (v, j) = quoted(b, i); i = j; out.push(Tok::Str(v)); }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let (v, j) = quoted(b, i + 1); i = j; out.push(Tok::Str(v)); }
            b'-' | b'+' if i + 3 < b.len() && (s[i + 1..].starts_with("inf") || s[i + 1..].starts_with("nan") || s[i + 1..].starts_with("qnan")) => {
                let neg = c == b'-'; i += 1; let st = i;
                while i < b.len() && isid(b[i]) { i += 1; }
                let v: u64 = if &s[st..i] == "inf" { 0x7ff0 << 48 } else { 0x7ff8 << 48 };
                out.push(Tok::Hex(v | (neg as u64) << 63));
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || (b[i] == b'+' || b[i] == b'-') && (b[i-1] == b'e' || b[i-1] == b'E') && !s[st..i].starts_with("0x")) { i += 1; }
                let t = &s[st..i];
                if let Some(h) = t.strip_prefix("0x") { out.push(Tok::Hex(u64::from_str_radix(h, 16).map_err(|_| format!("bad hex {}", t))?)); }
                else if t.contains('.') { out.push(Tok::Hex(t.parse::<f64>().map_err(|_| format!("bad float {}", t))?.to_bits())); }
                else { out.push(Tok::Int(t.parse::<i128>().or_else(|_| t.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("bad int {}", t))?)); }
            }
            b'.' if i + 2 < b.len() && b[i + 1] == b'.' => { i += 3; out.push(Tok::Word("...".into())); }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let st = i;
                while i < b.len() && isid(b[i]) { i += 1; }
                let wd = &s[st..i];
                match wd.strip_prefix("f0x").and_then(|h| u64::from_str_radix(h, 16).ok()) { Some(h) => out.push(Tok::Hex(h)), None => out.push(Tok::Word(wd.to_string())) }
            }
            _ => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    Ok(out)
}

pub type Reg = u32;
#[derive(Clone, Copy, Debug)]
pub enum Opd { R(Reg), C(u64), W(&'static u128) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp { Trunc, ZExt, SExt, Bit, UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Intr {
    Nop, Memcpy, Memset, Bcmp, Memcmp, Strlen,
    UMax, UMin, SMax, SMin, USubSat, UAddSat, SAddSat, SSubSat, UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    Ctlz, Cttz, Ctpop, Bswap, BitRev, Fshl, Fshr, Ucmp, Scmp, Abs, IsConst, Powi, Ident, Trap, FptouiSat, FptosiSat,
    Expect, Fabs, FMulAdd, Floor, Ceil, FTrunc, Copysign, LoadRelative,
    Alloc, AllocZeroed, Realloc, Dealloc, Getenv, ClockGettime, Print,
    Panic(PanicKind),
    SymNew, SymAssume, SymAssert, SymCover, SymTry, SymNote, SymConc, SymSteps,
    Unsupported,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PanicKind { Fmt, Str, Bounds, Overflow, Slice, StrSlice, OptionUnwrap, ResultUnwrap, Other, Begin }

#[derive(Debug)]
pub enum Callee { Func(u32), Ind(Opd), Intr(Intr, String) }

#[derive(Debug)]
pub struct Edge { pub target: u32, pub block: u32, pub moves: Box<[(Reg, Opd)]> }

#[derive(Debug)]
pub enum Inst {
    Bin(BinOp, u16, Reg, Opd, Opd),
    ICmp(Pred, u16, Reg, Opd, Opd),
    FCmp(FPred, u16, Reg, Opd, Opd),
    FNeg(u16, Reg, Opd),
    Cast(CastOp, u16, u16, Reg, Opd),
    Select(u16, Reg, Opd, Opd, Opd),
    Move(Reg, Opd),
    Load(Reg, u32, u16, Opd),          // dst, bytes, bits, addr
    Store(u32, u16, Opd, Opd),         // bytes, bits, val, addr
    LoadOff(Reg, u32, u16, Opd, u64),
    StoreOff(u32, u16, Opd, Opd, u64),
    Gep(Reg, Opd, u64, Box<[(Opd, u16, u64)]>), // base, const off, (idx, idx bits, scale)
    Alloca(Reg, Opd, u64, u64),        // count, elem size, align
    Call(Box<CallI>),
    Br(Edge),
    CondBr(Opd, Box<(Edge, Edge)>),
    Switch(u16, Opd, Box<(Vec<(u64, u32)>, Vec<Edge>, HashMap<u64, u32>)>), // cases -> edge idx, edge 0 = default
    Ret(Box<[Opd]>),
    Rmw(BinOp2, u16, Reg, Opd, Opd),
    CmpXchg(u16, Reg, Opd, Opd, Opd),
    Unreachable,
    Bits2Int(u16, Reg, Box<[Opd]>),    // concat of i1 lanes
    Trap(String),
}
#[derive(Clone, Copy, Debug)]
pub enum BinOp2 { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Debug)]
pub struct CallI { pub callee: Callee, pub args: Box<[Opd]>, pub dst: Reg, pub nret: u32, pub w: u16 }

#[derive(Debug)]
pub struct Code { pub nregs: u32, pub params: Vec<Reg>, pub insts: Vec<Inst>, pub block_of: Vec<u32>, pub nblocks: u32 }

pub struct Func { pub name: String, pub body: (usize, usize), pub header: String, pub code: OnceLock<Code>, pub intr: Option<Intr>, pub declared_only: bool }

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub constant: bool }

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, u64>,
    pub aliases: HashMap<String, String>,
    pub ro: Vec<u8>,
    pub rw: Vec<u8>,
}
pub const FN_BASE: u64 = 0x0100_0000;
pub const RO_BASE: u64 = 0x1000_0000;
pub const RW_BASE: u64 = 0x2000_0000;

pub struct P<'a> { t: &'a [Tok], i: usize, m: &'a Module }

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> { self.t.get(self.i) }
    fn peek_at(&self, k: usize) -> Option<&'a Tok> { self.t.get(self.i + k) }
    fn next(&mut self) -> R<&'a Tok> { let r = self.t.get(self.i).ok_or("eof")?; self.i += 1; Ok(r) }
    fn is_p(&self, c: char) -> bool { matches!(self.peek(), Some(Tok::P(x)) if *x == c) }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::Word(x)) if x == w) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn expect_p(&mut self, c: char) -> R<()> { if self.eat_p(c) { Ok(()) } else { Err(format!("expected {} got {:?}", c, self.peek())) } }
    fn is_ty_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
                || matches!(w.as_str(), "ptr" | "void" | "double" | "float" | "metadata" | "label" | "token"),
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        let mut ty = match t {
            Tok::Word(w) => match w.as_str() {
                "ptr" => Ty::Ptr, "void" => Ty::Void, "double" => Ty::F64, "float" => Ty::F32, "metadata" | "label" | "token" => Ty::Meta,
                _ if w.starts_with('i') => Ty::I(w[1..].parse::<u16>().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("type {}", w)),
            },
            Tok::P('[') => {
                let n = match self.next()? { Tok::Int(n) => *n as u64, x => return Err(format!("arr len {:?}", x)) };
                if !self.eat_w("x") { return Err("x".into()); }
                let e = self.ty()?; self.expect_p(']')?; Ty::Arr(n, Box::new(e))
            }
            Tok::P('{') => { let fs = self.ty_list('}')?; Ty::Struct(fs, false) }
            Tok::P('<') => {
                if self.eat_p('{') { let fs = self.ty_list('}')?; self.expect_p('>')?; Ty::Struct(fs, true) }
                else {
                    let n = match self.next()? { Tok::Int(n) => *n as u64, x => return Err(format!("vec len {:?}", x)) };
                    if !self.eat_w("x") { return Err("x".into()); }
                    let e = self.ty()?; self.expect_p('>')?; Ty::Vec(n, Box::new(e))
                }
            }
            Tok::Local(n) => self.m.types.get(n).cloned().ok_or(format!("named type {}", n))?,
            x => return Err(format!("type tok {:?}", x)),
        };
        // function type "T (args)" / "T (...)"
        if self.is_p('(') && matches!(self.peek_at(1), Some(Tok::Word(w)) if w == "..." || w == "ptr" || w.starts_with('i')) && self.looks_fn_ty() {
            let mut d = 0;
            loop { match self.next()? { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { break; } } _ => {} } }
            let _ = &mut ty;
        }
        Ok(ty)
    }
    fn looks_fn_ty(&self) -> bool {
        // after the closing paren must come a callee (Local/Global)
        let mut d = 0; let mut j = self.i;
        while let Some(t) = self.t.get(j) {
            match t { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return matches!(self.t.get(j + 1), Some(Tok::Local(_)) | Some(Tok::Global(_))); } } _ => {} }
            j += 1;
        }
        false
    }
    fn ty_list(&mut self, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(close) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat_p(',') { continue; } self.expect_p(close)?; return Ok(v); }
    }
    fn skip_paren(&mut self) -> R<()> {
        if !self.is_p('(') { return Ok(()); }
        let mut d = 0;
        loop { match self.next()? { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return Ok(()); } } _ => {} } }
    }
    /// skip attribute words until a type / value starts
    fn skip_attrs_before_ty(&mut self) -> R<()> {
        while !self.is_ty_start() {
            match self.next()? {
                Tok::Word(w) => { if w == "align" && matches!(self.peek(), Some(Tok::Int(_))) { self.i += 1; } else { self.skip_paren()?; } }
                Tok::Attr | Tok::Str(_) => { if self.eat_p('=') { self.i += 1; } }
                x => return Err(format!("attr {:?}", x)),
            }
        }
        Ok(())
    }
    fn is_val_word(w: &str) -> bool {
        matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "splat" | "asm" | "dso_local_equivalent" | "no_cfi")
    }
    fn skip_attrs_before_val(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) if !Self::is_val_word(w) => {
                    self.i += 1;
                    if w == "align" && matches!(self.peek(), Some(Tok::Int(_))) { self.i += 1; } else { self.skip_paren()?; }
                }
                Some(Tok::Attr) => { self.i += 1; }
                _ => return Ok(()),
            }
        }
    }
    /// constant scalar expression
    fn const_expr(&mut self, w: &str) -> R<u64> {
        // current token after the word
        match w {
            "getelementptr" => {
                while matches!(self.peek(), Some(Tok::Word(_))) { self.i += 1; self_skip_inrange(self)?; }
                self.expect_p('(')?;
                let ety = self.ty()?; self.expect_p(',')?;
                let pt = self.ty()?; let base = self.const_scalar(&pt)?;
                let mut addr = base; let mut cur = ety.clone(); let mut first = true;
                while self.eat_p(',') {
                    let it = self.ty()?; let idx = self.const_scalar(&it)?;
                    let idx = sext64(idx, bits_of(&it)) as u64;
                    if first { addr = addr.wrapping_add(idx.wrapping_mul(ety.size())); first = false; }
                    else { addr = addr.wrapping_add(if let Ty::Struct(..) = cur { cur.field_off(idx as usize) } else { idx.wrapping_mul(cur.elem(0).size()) }); cur = cur.elem(idx as usize).clone(); }
                }
                self.expect_p(')')?;
                Ok(addr)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                self.expect_p('(')?;
                let t = self.ty()?; let v = self.const_scalar(&t)?;
                if !self.eat_w("to") { return Err("to".into()); }
                let t2 = self.ty()?; self.expect_p(')')?;
                Ok(v & mask(bits_of(&t2)))
            }
            "add" | "sub" | "xor" => {
                while matches!(self.peek(), Some(Tok::Word(_))) { self.i += 1; }
                self.expect_p('(')?;
                let t = self.ty()?; let a = self.const_scalar(&t)?; self.expect_p(',')?;
                let t2 = self.ty()?; let b = self.const_scalar(&t2)?; self.expect_p(')')?;
                Ok(match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & mask(bits_of(&t)))
            }
            _ => Err(format!("const expr {}", w)),
        }
    }
    fn const_scalar(&mut self, t: &Ty) -> R<u64> {
        match self.next()? {
            Tok::Int(n) => Ok((*n as u64) & mask(bits_of(t))),
            Tok::Hex(h) => Ok(if *t == Ty::F32 { (f64::from_bits(*h) as f32).to_bits() as u64 } else { *h }),
            Tok::Word(w) => match w.as_str() {
                "true" => Ok(1), "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(0),
                w => self.const_expr(w),
            },
            Tok::Global(g) => self.m.addr_of(g),
            x => Err(format!("const {:?}", x)),
        }
    }
    /// write constant of type t into buf
    fn const_into(&mut self, t: &Ty, buf: &mut [u8]) -> R<()> {
        match t {
            Ty::I(w) if *w > 64 => { if let Tok::Int(n) = self.next()? { let b = (*n as u128).to_le_bytes(); let l = buf.len().min(16); buf[..l].copy_from_slice(&b[..l]); } else { self.i -= 1; self.const_scalar(t)?; } Ok(()) }
            Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64 => { let v = self.const_scalar(t)?; let b = v.to_le_bytes(); let l = buf.len().min(8); buf[..l].copy_from_slice(&b[..l]); Ok(()) }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                match self.next()? {
                    Tok::Word(_) => Ok(()),
                    Tok::Str(s) => { let l = buf.len().min(s.len()); buf[..l].copy_from_slice(&s[..l]); Ok(()) }
                    Tok::P('[') | Tok::P('<') => {
                        let es = e.size() as usize; let mut k = 0;
                        if self.eat_p(']') || self.eat_p('>') { return Ok(()); }
                        loop {
                            let et = self.ty()?;
                            self.const_into(&et, &mut buf[k * es..(k + 1) * es])?; k += 1;
                            if self.eat_p(',') { continue; }
                            if self.eat_p(']') || self.eat_p('>') { return Ok(()); }
                            return Err("array const".into());
                        }
                    }
                    x => Err(format!("array const {:?}", x)),
                }
            }
            Ty::Struct(fs, _) => {
                if let Some(Tok::Word(_)) = self.peek() { self.i += 1; return Ok(()); }
                let packed = self.eat_p('<');
                self.expect_p('{')?;
                for (i, f) in fs.iter().enumerate() {
                    if i > 0 { self.expect_p(',')?; }
                    let _ = self.ty()?;
                    let o = t.field_off(i) as usize; let s = f.size() as usize;
                    self.const_into(f, &mut buf[o..o + s])?;
                }
                self.expect_p('}')?;
                if packed { self.expect_p('>')?; }
                Ok(())
            }
            _ => Err(format!("const of {:?}", t)),
        }
    }
}
fn self_skip_inrange(p: &mut P) -> R<()> { if p.is_p('(') && p.t.get(p.i.wrapping_sub(1)).map_or(false, |t| matches!(t, Tok::Word(w) if w == "inrange")) { p.skip_paren()?; } Ok(()) }

pub fn mask(w: u16) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sext64(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn bits_of(t: &Ty) -> u16 { match t { Ty::I(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 64 } }

impl Module {
    pub fn addr_of(&self, g: &str) -> R<u64> {
        if let Some(a) = self.gaddr.get(g) { return Ok(*a); }
        if let Some(f) = self.fidx.get(g) { return Ok(FN_BASE + 16 * *f as u64); }
        if let Some(a) = self.aliases.get(g) { return self.addr_of(a); }
        Err(format!("unknown global {}", g))
    }

    pub fn parse(text: String) -> R<Module> {
        let mut m = Module { text: String::new(), types: HashMap::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gaddr: HashMap::new(), aliases: HashMap::new(), ro: vec![], rw: vec![] };
        let mut pending: Vec<(String, usize, usize)> = vec![]; // global name, line range
        let mut pos = 0usize;
        let bytes = text.as_bytes();
        let mut infn: Option<(String, String, usize)> = None;
        while pos < bytes.len() {
            let end = text[pos..].find('\n').map(|e| pos + e).unwrap_or(bytes.len());
            let line = &text[pos..end];
            if let Some((name, hdr, st)) = &infn {
                if line == "}" {
                    let intr = classify(name);
                    m.fidx.insert(name.clone(), m.funcs.len() as u32);
                    m.funcs.push(Func { name: name.clone(), body: (*st, pos), header: hdr.clone(), code: OnceLock::new(), intr, declared_only: false });
                    infn = None;
                }
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').ok_or("define without name")?;
                let name = if line.as_bytes()[at + 1] == b'"' { let e = line[at + 2..].find('"').unwrap(); line[at + 2..at + 2 + e].to_string() } else { let e = line[at..].find('(').unwrap(); line[at + 1..at + e].to_string() };
                if line.starts_with("define ") { infn = Some((name, line.to_string(), end + 1)); }
                else {
                    let intr = Some(classify(&name).unwrap_or(Intr::Unsupported));
                    m.fidx.insert(name.clone(), m.funcs.len() as u32);
                    m.funcs.push(Func { name, body: (0, 0), header: line.to_string(), code: OnceLock::new(), intr, declared_only: true });
                }
            } else if line.starts_with('@') {
                let name = if line.as_bytes()[1] == b'"' { let e = line[2..].find('"').unwrap(); line[2..2 + e].to_string() } else { let e = line.find(' ').unwrap(); line[1..e].to_string() };
                pending.push((name, pos, end));
            } else if line.starts_with('%') {
                let toks = lex(line)?;
                if let (Tok::Local(n), Some(Tok::P('=')), Some(Tok::Word(w))) = (&toks[0], toks.get(1), toks.get(2)) {
                    if w == "type" {
                        let n = n.clone();
                        let mut p = P { t: &toks, i: 3, m: &m };
                        let t = p.ty().unwrap_or(Ty::Void);
                        m.types.insert(n, t);
                    }
                }
            }
            pos = end + 1;
        }
        // globals: first pass sizes, second pass contents
        let mut items: Vec<(String, Vec<Tok>, usize, Ty, u64, bool)> = vec![];
        let (mut ro, mut rw) = (RO_BASE, RW_BASE);
        for (name, s, e) in pending {
            let toks = lex(&text[s..e])?;
            let mut i = 2;
            let mut constant = false; let mut external = false; let mut alias = false;
            loop {
                match toks.get(i) {
                    Some(Tok::Word(w)) => {
                        i += 1;
                        if w == "constant" { constant = true; break; }
                        if w == "global" { break; }
                        if w == "alias" { alias = true; break; }
                        if w.starts_with("extern") { external = true; }
                        if matches!(toks.get(i), Some(Tok::P('('))) { while !matches!(toks.get(i), Some(Tok::P(')'))) { i += 1; } i += 1; }
                    }
                    x => return Err(format!("global {}: {:?}", name, x)),
                }
            }
            let mut p = P { t: &toks, i, m: &m };
            if alias { let _ = p.ty()?; p.expect_p(',')?; let _ = p.ty()?; if let Tok::Global(g) = p.next()? { m.aliases.insert(name, g.clone()); } continue; }
            let ty = p.ty()?;
            let vi = p.i;
            let al = { let mut a = ty.align(); let mut k = vi; while k + 1 < toks.len() { if let (Tok::Word(w), Tok::Int(n)) = (&toks[k], &toks[k + 1]) { if w == "align" { a = *n as u64; } } k += 1; } a.max(1) };
            let sz = ty.size().max(1);
            let cur = if constant { &mut ro } else { &mut rw };
            *cur = align_to(*cur, al.max(8));
            let addr = *cur;
            *cur += sz + 8;
            m.gaddr.insert(name.clone(), addr);
            m.globals.push(Global { name: name.clone(), addr, size: sz, constant });
            if !external || vi < toks.len() && !matches!(toks.get(vi), Some(Tok::P(','))) { items.push((name, toks, vi, ty, addr, constant)); }
        }
        let mut rob = vec![0u8; (ro - RO_BASE) as usize + 64];
        let mut rwb = vec![0u8; (rw - RW_BASE) as usize + 64];
        for (name, toks, vi, ty, addr, constant) in &items {
            let mut p = P { t: toks, i: *vi, m: &m };
            let (b, base) = if *constant { (&mut rob, RO_BASE) } else { (&mut rwb, RW_BASE) };
            let o = (*addr - base) as usize;
            p.const_into(ty, &mut b[o..o + ty.size() as usize]).map_err(|e| format!("global {}: {}", name, e))?;
        }
        m.ro = rob; m.rw = rwb;
        m.text = text;
        Ok(m)
    }

    pub fn code(&self, f: u32) -> &Code {
        let fun = &self.funcs[f as usize];
        fun.code.get_or_init(|| {
            match decode(self, fun) {
                Ok(c) => c,
                Err(e) => Code { nregs: 64, params: (0..32).collect(), insts: vec![Inst::Trap(format!("decode {}: {}", fun.name, e))], block_of: vec![0], nblocks: 1 },
            }
        })
    }
}

/// functions replaced by engine semantics (by name)
fn classify(name: &str) -> Option<Intr> {
    use PanicKind as K;
    if let Some(n) = name.strip_prefix("llvm.") {
        let st = |p: &str| n.starts_with(p);
        return Some(
            if st("lifetime") || st("assume") || st("experimental.noalias") || st("x86.sse2.pause") || st("invariant") || st("prefetch") || st("dbg") || st("donothing") || st("stackrestore") || st("stacksave") { Intr::Nop }
            else if st("memcpy") || st("memmove") { Intr::Memcpy } else if st("memset") { Intr::Memset }
            else if st("umax") { Intr::UMax } else if st("umin") { Intr::UMin } else if st("smax") { Intr::SMax } else if st("smin") { Intr::SMin }
            else if st("usub.sat") { Intr::USubSat } else if st("uadd.sat") { Intr::UAddSat } else if st("sadd.sat") { Intr::SAddSat } else if st("ssub.sat") { Intr::SSubSat }
            else if st("uadd.with") { Intr::UAddO } else if st("usub.with") { Intr::USubO } else if st("umul.with") { Intr::UMulO }
            else if st("sadd.with") { Intr::SAddO } else if st("ssub.with") { Intr::SSubO } else if st("smul.with") { Intr::SMulO }
            else if st("ctlz") { Intr::Ctlz } else if st("cttz") { Intr::Cttz } else if st("ctpop") { Intr::Ctpop }
            else if st("bswap") { Intr::Bswap } else if st("bitreverse") { Intr::BitRev }
            else if st("fshl") { Intr::Fshl } else if st("fshr") { Intr::Fshr }
            else if st("ucmp") { Intr::Ucmp } else if st("scmp") { Intr::Scmp } else if st("abs") { Intr::Abs }
            else if st("is.constant") { Intr::IsConst } else if st("powi") { Intr::Powi }
            else if st("threadlocal") || st("launder") || st("strip.inv") { Intr::Ident }
            else if st("expect") { Intr::Expect } else if st("trap") || st("ubsantrap") { Intr::Trap }
            else if st("fptoui.sat") { Intr::FptouiSat } else if st("fptosi.sat") { Intr::FptosiSat }
            else if st("fabs") { Intr::Fabs } else if st("fmuladd") || st("fma") { Intr::FMulAdd }
            else if st("floor") { Intr::Floor } else if st("ceil") { Intr::Ceil } else if st("trunc.") { Intr::FTrunc } else if st("copysign") { Intr::Copysign }
            else if st("load.relative") { Intr::LoadRelative }
            else { Intr::Unsupported });
    }
    match name {
        "memcpy" | "memmove" => return Some(Intr::Memcpy), "memset" => return Some(Intr::Memset),
        "bcmp" => return Some(Intr::Bcmp), "memcmp" => return Some(Intr::Memcmp), "strlen" => return Some(Intr::Strlen),
        "getenv" => return Some(Intr::Getenv), "clock_gettime" => return Some(Intr::ClockGettime),
        "abort" => return Some(Intr::Trap),
        "sym_new" => return Some(Intr::SymNew), "sym_assume" => return Some(Intr::SymAssume), "sym_assert" => return Some(Intr::SymAssert),
        "sym_cover" => return Some(Intr::SymCover), "sym_try" => return Some(Intr::SymTry), "sym_note" => return Some(Intr::SymNote),
        "sym_conc" => return Some(Intr::SymConc), "sym_steps" => return Some(Intr::SymSteps),
        _ => {}
    }
    let h = |s: &str| name.contains(s);
    if h("7___rustc") {
        if h("12___rust_alloc") { return Some(Intr::Alloc); }
        if h("19___rust_alloc_zeroed") { return Some(Intr::AllocZeroed); }
        if h("14___rust_realloc") { return Some(Intr::Realloc); }
        if h("14___rust_dealloc") { return Some(Intr::Dealloc); }
        if h("35___rust_no_alloc_shim_is_unstable_v2") { return Some(Intr::Nop); }
        if h("17rust_begin_unwind") || h("10rust_panic") { return Some(Intr::Panic(K::Other)); }
    }
    if name.ends_with("5stdio6__print") || name.ends_with("5stdio7__eprint") || name.ends_with("5stdio6_print") || name.ends_with("5stdio7_eprint") { return Some(Intr::Print); }
    // core panics (v0-mangled paths)
    if h("4core9panicking") {
        if h("9panicking9panic_fmt") { return Some(Intr::Panic(K::Fmt)); }
        if h("9panicking18panic_bounds_check") { return Some(Intr::Panic(K::Bounds)); }
        if h("11panic_const") { return Some(Intr::Panic(K::Overflow)); }
        if h("19unreachable_display") { return Some(Intr::Panic(K::Bounds)); }
        if h("9panicking5panic") && name.ends_with("9panicking5panic") { return Some(Intr::Panic(K::Str)); }
        if h("9panicking9panic_str") || h("13panic_display") || h("14panic_explicit") || h("14panic_str_2015") { return Some(Intr::Panic(K::Begin)); }
        if h("13assert_failed") { return Some(Intr::Panic(K::Bounds)); }
        if h("9panicking14panic_nounwind") || h("20panic_cannot_unwind") { return Some(Intr::Panic(K::Bounds)); }
    }
    if h("4core6option13unwrap_failed") { return Some(Intr::Panic(K::OptionUnwrap)); }
    // expect carries a message of the program: a rejection by choice, as a native run classifies it too
    if h("4core6option13expect_failed") { return Some(Intr::Panic(K::Begin)); }
    if h("4core6result13unwrap_failed") { return Some(Intr::Panic(K::ResultUnwrap)); }
    if h("5slice5index") && (h("_fail") || h("slice_index_fail")) { return Some(Intr::Panic(K::Slice)); }
    if h("4core3str") && h("16slice_error_fail") { return Some(Intr::Panic(K::StrSlice)); }
    if h("copy_from_slice") && h("len_mismatch_fail") { return Some(Intr::Panic(K::Slice)); }
    if h("3std9panicking11begin_panic") { return Some(Intr::Panic(K::Begin)); }
    if h("5alloc") && (h("18handle_alloc_error") || h("12handle_error") && h("raw_vec") || h("17capacity_overflow")) { return Some(Intr::Panic(K::Other)); }
    None
}

struct Dec<'a> { m: &'a Module, names: HashMap<String, (Reg, Ty)>, nregs: u32 }
impl<'a> Dec<'a> {
    fn def(&mut self, n: &str, t: &Ty) -> Reg {
        if let Some((r, _)) = self.names.get(n) { return *r; }
        let r = self.nregs; self.nregs += t.nleaves().max(1) as u32;
        self.names.insert(n.to_string(), (r, t.clone()));
        r
    }
    fn val(&mut self, p: &mut P, t: &Ty) -> R<Vec<Opd>> {
        match p.peek() {
            Some(Tok::Local(n)) => {
                p.i += 1;
                let r = self.def(n, t);
                Ok((0..t.nleaves() as u32).map(|k| Opd::R(r + k)).collect())
            }
            _ => match t {
                Ty::I(w) if *w > 64 => {
                    match p.next()? {
                        Tok::Int(n) => { let b: &'static u128 = Box::leak(Box::new((*n as u128) & (if *w >= 128 { !0 } else { (1u128 << *w) - 1 }))); Ok(vec![Opd::W(b)]) }
                        Tok::Word(_) => Ok(vec![Opd::W(&0)]),
                        x => Err(format!("wide {:?}", x)),
                    }
                }
                Ty::I(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Ok(vec![Opd::C(p.const_scalar(t)?)]),
                Ty::Meta => { p.i += 1; p.skip_paren()?; Ok(vec![]) }
                _ => {
                    if p.is_w("splat") { p.i += 1; p.expect_p('(')?; let et = p.ty()?; let c = p.const_scalar(&et)?; p.expect_p(')')?; return Ok(vec![Opd::C(c); t.nleaves()]); }
                    // aggregates: elementwise constant with possible registers inside? only constants
                    if let Some(Tok::Word(_)) = p.peek() { p.i += 1; return Ok(vec![Opd::C(0); t.nleaves()]); }
                    let (close, packed) = match p.next()? { Tok::P('{') => ('}', false), Tok::P('[') => (']', false), Tok::P('<') => if p.eat_p('{') { ('}', true) } else { ('>', false) }, x => return Err(format!("agg {:?}", x)) };
                    let mut v = vec![];
                    if !p.is_p(close) { loop { let et = p.ty()?; v.extend(self.val(p, &et)?); if !p.eat_p(',') { break; } } }
                    p.expect_p(close)?; if packed { p.expect_p('>')?; }
                    Ok(v)
                }
            },
        }
    }
    fn val1(&mut self, p: &mut P, t: &Ty) -> R<Opd> { let v = self.val(p, t)?; v.get(0).copied().ok_or("empty".into()) }
}

fn decode(m: &Module, f: &Func) -> R<Code> {
    let mut d = Dec { m, names: HashMap::new(), nregs: 0 };
    // header params
    let htoks = lex(&f.header)?;
    let mut hi = htoks.iter().position(|t| matches!(t, Tok::Global(g) if *g == f.name)).ok_or("hdr")? + 1;
    let mut params = vec![];
    let mut unnamed = 0u32;
    {
        let mut p = P { t: &htoks, i: hi, m };
        p.expect_p('(')?;
        while !p.is_p(')') {
            if p.eat_w("...") { break; }
            let t = p.ty()?;
            while let Some(Tok::Word(w)) = p.peek() { p.i += 1; if w == "byval" { return Err("byval".into()); } if w == "align" { p.i += 1; } else { p.skip_paren()?; } }
            let n = match p.peek() { Some(Tok::Local(n)) => { p.i += 1; n.clone() } _ => { let n = unnamed.to_string(); n } };
            if n.bytes().all(|c| c.is_ascii_digit()) { unnamed = n.parse::<u32>().unwrap() + 1; }
            let r = d.def(&n, &t);
            for k in 0..t.nleaves() as u32 { params.push(r + k); }
            if !p.eat_p(',') { break; }
        }
        hi = p.i;
    }
    let _ = hi;
    // split into blocks
    let body = &m.text[f.body.0..f.body.1];
    let mut blocks: Vec<(String, Vec<Vec<Tok>>)> = vec![(unnamed.to_string(), vec![])];
    let mut first = true;
    let mut acc: Option<String> = None;
    for line in body.lines() {
        if let Some(a) = &mut acc {
            a.push(' '); a.push_str(line);
            if line.trim_start().starts_with(']') { let l = acc.take().unwrap(); blocks.last_mut().unwrap().1.push(lex(&l)?); }
            continue;
        }
        if line.is_empty() { continue; }
        if !line.starts_with(' ') {
            if let Some(c) = line.find(':') {
                let lab = line[..c].trim_matches('"').to_string();
                if first && blocks[0].1.is_empty() { blocks[0].0 = lab; } else { blocks.push((lab, vec![])); }
                first = false;
                continue;
            }
        }
        first = false;
        let tl = line.trim_start();
        if tl.starts_with('#') { continue; }
        if tl.starts_with("switch ") && !tl.contains(']') { acc = Some(line.to_string()); continue; }
        blocks.last_mut().unwrap().1.push(lex(line)?);
    }
    let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
    // phis: block -> list of (dst reg, type, incoming(label -> operands))
    let mut phis: Vec<Vec<(Reg, Vec<(u32, Vec<Opd>)>)>> = vec![vec![]; blocks.len()];
    for (bi, (_, ls)) in blocks.iter().enumerate() {
        for l in ls {
            if let (Some(Tok::Local(n)), Some(Tok::P('=')), Some(Tok::Word(w))) = (l.get(0), l.get(1), l.get(2)) {
                if w == "phi" {
                    let mut p = P { t: l, i: 3, m };
                    while !p.is_ty_start() { p.i += 1; }
                    let t = p.ty()?;
                    let r = d.def(n, &t);
                    let mut inc = vec![];
                    loop {
                        p.expect_p('[')?;
                        let v = d.val(&mut p, &t)?; p.expect_p(',')?;
                        let lab = match p.next()? { Tok::Local(x) => x.clone(), x => return Err(format!("phi lab {:?}", x)) };
                        p.expect_p(']')?;
                        inc.push((*bidx.get(&lab).ok_or(format!("label {}", lab))?, v));
                        if !(p.is_p(',') && matches!(p.peek_at(1), Some(Tok::P('[')))) { break; }
                        p.i += 1;
                    }
                    phis[bi].push((r, inc));
                }
            }
        }
    }
    let edge = |from: u32, lab: &str| -> R<Edge> {
        let to = *bidx.get(lab).ok_or(format!("label {}", lab))?;
        let mut mv = vec![];
        for (r, inc) in &phis[to as usize] {
            let v = &inc.iter().find(|x| x.0 == from).ok_or("phi edge")?.1;
            for (k, o) in v.iter().enumerate() { mv.push((*r + k as u32, *o)); }
        }
        Ok(Edge { target: 0, block: to, moves: mv.into_boxed_slice() })
    };
    let mut insts: Vec<Inst> = vec![];
    let mut block_of: Vec<u32> = vec![];
    let mut starts = vec![0u32; blocks.len()];
    for bi in 0..blocks.len() {
        starts[bi] = insts.len() as u32;
        for l in &blocks[bi].1 {
            let before = insts.len();
            if let Err(e) = decode_inst(m, &mut d, l, bi as u32, &edge, &mut insts) {
                insts.truncate(before);
                insts.push(Inst::Trap(format!("{} in {:?}", e, l)));
            }
            while block_of.len() < insts.len() { block_of.push(bi as u32); }
        }
    }
    let fix = |e: &mut Edge| e.target = starts[e.block as usize];
    for i in insts.iter_mut() {
        match i {
            Inst::Br(e) => fix(e),
            Inst::CondBr(_, b) => { fix(&mut b.0); fix(&mut b.1); }
            Inst::Switch(_, _, b) => for e in b.1.iter_mut() { fix(e) },
            _ => {}
        }
    }
    Ok(Code { nregs: d.nregs, params, insts, block_of, nblocks: blocks.len() as u32 })
}

fn ordering_skip(_p: &mut P) {}

fn decode_inst(m: &Module, d: &mut Dec, l: &[Tok], bi: u32, edge: &dyn Fn(u32, &str) -> R<Edge>, out: &mut Vec<Inst>) -> R<()> {
    let mut p = P { t: l, i: 0, m };
    let mut dst: Option<String> = None;
    if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (l.get(0), l.get(1)) { dst = Some(n.clone()); p.i = 2; }
    let w = match p.next()? { Tok::Word(w) => w.as_str(), x => return Err(format!("inst {:?}", x)) };
    let dn = dst.as_deref();
    let flags = |p: &mut P| { while let Some(Tok::Word(x)) = p.peek() { if matches!(x.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak") { p.i += 1; } else { break; } } };
    use BinOp::*;
    let bop = match w { "add" => Some(Add), "sub" => Some(Sub), "mul" => Some(Mul), "udiv" => Some(UDiv), "sdiv" => Some(SDiv), "urem" => Some(URem), "srem" => Some(SRem), "and" => Some(And), "or" => Some(Or), "xor" => Some(Xor), "shl" => Some(Shl), "lshr" => Some(LShr), "ashr" => Some(AShr), "fadd" => Some(FAdd), "fsub" => Some(FSub), "fmul" => Some(FMul), "fdiv" => Some(FDiv), "frem" => Some(FRem), _ => None };
    if let Some(op) = bop {
        flags(&mut p);
        let t = p.ty()?; let a = d.val(&mut p, &t)?; p.expect_p(',')?; let b = d.val(&mut p, &t)?;
        let r = d.def(dn.ok_or("dst")?, &t);
        let mut lv = vec![]; t.leaves(0, &mut lv);
        if lv.len() == 1 { out.push(Inst::Bin(op, lv[0].1.bits(), r, a[0], b[0])); }
        else { for k in 0..lv.len() { out.push(Inst::Bin(op, lv[k].1.bits(), r + k as u32, a[k], b[k])); } }
        return Ok(());
    }
    let cop = match w { "trunc" => Some(CastOp::Trunc), "zext" => Some(CastOp::ZExt), "sext" => Some(CastOp::SExt), "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => Some(CastOp::Bit), "uitofp" => Some(CastOp::UIToFP), "sitofp" => Some(CastOp::SIToFP), "fptoui" => Some(CastOp::FPToUI), "fptosi" => Some(CastOp::FPToSI), "fpext" => Some(CastOp::FPExt), "fptrunc" => Some(CastOp::FPTrunc), _ => None };
    if let Some(op) = cop {
        flags(&mut p);
        let t = p.ty()?; let a = d.val(&mut p, &t)?;
        if !p.eat_w("to") { return Err("to".into()); }
        let t2 = p.ty()?;
        let r = d.def(dn.ok_or("dst")?, &t2);
        let (mut l1, mut l2) = (vec![], vec![]);
        t.leaves(0, &mut l1); t2.leaves(0, &mut l2);
        if l1.len() == l2.len() {
            for k in 0..l1.len() {
                let (fb, tb) = (l1[k].1.bits(), l2[k].1.bits());
                let op = if op == CastOp::Bit && fb < tb { CastOp::ZExt } else if op == CastOp::Bit && fb > tb { CastOp::Trunc } else { op };
                out.push(Inst::Cast(op, fb, tb, r + k as u32, a[k]));
            }
            return Ok(());
        }
        if op == CastOp::Bit && l2.len() == 1 && l1.iter().all(|x| x.1 == Leaf::I(1)) && l2[0].1.bits() <= 64 {
            out.push(Inst::Bits2Int(l2[0].1.bits(), r, a.into_boxed_slice()));
            return Ok(());
        }
        // general bitcast through shifts for sizes <= 64 bits
        return Err("vector bitcast".into());
    }
    match w {
        "icmp" => {
            flags(&mut p);
            let pr = match p.next()? { Tok::Word(x) => match x.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err("pred".into()) }, _ => return Err("pred".into()) };
            let t = p.ty()?; let a = d.val(&mut p, &t)?; p.expect_p(',')?; let b = d.val(&mut p, &t)?;
            let mut lv = vec![]; t.leaves(0, &mut lv);
            let rt = if let Ty::Vec(n, _) = t { Ty::Vec(n, Box::new(Ty::I(1))) } else { Ty::I(1) };
            let r = d.def(dn.ok_or("dst")?, &rt);
            for k in 0..lv.len() { out.push(Inst::ICmp(pr, lv[k].1.bits(), r + k as u32, a[k], b[k])); }
        }
        "fcmp" => {
            flags(&mut p);
            let pr = match p.next()? { Tok::Word(x) => match x.as_str() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, _ => return Err("fpred".into()) }, _ => return Err("fpred".into()) };
            let t = p.ty()?; let a = d.val1(&mut p, &t)?; p.expect_p(',')?; let b = d.val1(&mut p, &t)?;
            let r = d.def(dn.ok_or("dst")?, &Ty::I(1));
            out.push(Inst::FCmp(pr, bits_of(&t), r, a, b));
        }
        "fneg" => { flags(&mut p); let t = p.ty()?; let a = d.val1(&mut p, &t)?; let r = d.def(dn.ok_or("dst")?, &t); out.push(Inst::FNeg(bits_of(&t), r, a)); }
        "freeze" => { let t = p.ty()?; let a = d.val(&mut p, &t)?; let r = d.def(dn.ok_or("dst")?, &t); for (k, o) in a.iter().enumerate() { out.push(Inst::Move(r + k as u32, *o)); } }
        "phi" => {}
        "select" => {
            flags(&mut p);
            let ct = p.ty()?; let c = d.val(&mut p, &ct)?; p.expect_p(',')?;
            let t = p.ty()?; let a = d.val(&mut p, &t)?; p.expect_p(',')?;
            let t2 = p.ty()?; let b = d.val(&mut p, &t2)?;
            let r = d.def(dn.ok_or("dst")?, &t);
            let mut lv = vec![]; t.leaves(0, &mut lv);
            for k in 0..lv.len() { out.push(Inst::Select(lv[k].1.bits(), r + k as u32, if c.len() > 1 { c[k] } else { c[0] }, a[k], b[k])); }
        }
        "extractvalue" => {
            let t = p.ty()?; let a = d.val(&mut p, &t)?;
            let mut cur = t; let mut base = 0;
            while p.is_p(',') && matches!(p.peek_at(1), Some(Tok::Int(_))) { p.i += 1; if let Tok::Int(n) = p.next()? { base += cur.leaf_index(*n as usize); cur = cur.elem(*n as usize).clone(); } }
            let r = d.def(dn.ok_or("dst")?, &cur);
            for k in 0..cur.nleaves() { out.push(Inst::Move(r + k as u32, a[base + k])); }
        }
        "insertvalue" => {
            let t = p.ty()?; let a = d.val(&mut p, &t)?; p.expect_p(',')?;
            let et = p.ty()?; let e = d.val(&mut p, &et)?;
            let mut cur = t.clone(); let mut base = 0;
            while p.is_p(',') && matches!(p.peek_at(1), Some(Tok::Int(_))) { p.i += 1; if let Tok::Int(n) = p.next()? { base += cur.leaf_index(*n as usize); cur = cur.elem(*n as usize).clone(); } }
            let r = d.def(dn.ok_or("dst")?, &t);
            for k in 0..a.len() { let o = if k >= base && k < base + e.len() { e[k - base] } else { a[k] }; out.push(Inst::Move(r + k as u32, o)); }
        }
        "extractelement" => {
            let t = p.ty()?; let a = d.val(&mut p, &t)?; p.expect_p(',')?; let it = p.ty()?; let i = d.val1(&mut p, &it)?;
            let et = t.elem(0).clone();
            let r = d.def(dn.ok_or("dst")?, &et);
            if let Opd::C(i) = i { out.push(Inst::Move(r, a[i as usize])); } else { return Err("dynamic extractelement".into()); }
        }
        "insertelement" => {
            let t = p.ty()?; let a = d.val(&mut p, &t)?; p.expect_p(',')?; let et = p.ty()?; let e = d.val1(&mut p, &et)?; p.expect_p(',')?; let it = p.ty()?; let i = d.val1(&mut p, &it)?;
            let r = d.def(dn.ok_or("dst")?, &t);
            if let Opd::C(i) = i { for k in 0..a.len() { out.push(Inst::Move(r + k as u32, if k == i as usize { e } else { a[k] })); } } else { return Err("dynamic insertelement".into()); }
        }
        "shufflevector" => {
            let t = p.ty()?; let a = d.val(&mut p, &t)?; p.expect_p(',')?; let t2 = p.ty()?; let b = d.val(&mut p, &t2)?; p.expect_p(',')?;
            let mt = p.ty()?; let mk = d.val(&mut p, &mt)?;
            let n = mk.len();
            let rt = Ty::Vec(n as u64, Box::new(t.elem(0).clone()));
            let r = d.def(dn.ok_or("dst")?, &rt);
            for k in 0..n { if let Opd::C(i) = mk[k] { let i = i as usize; out.push(Inst::Move(r + k as u32, if i < a.len() { a[i] } else { b[i - a.len()] })); } }
        }
        "load" => {
            flags(&mut p);
            let t = p.ty()?; p.expect_p(',')?; let pt = p.ty()?; let a = d.val1(&mut p, &pt)?;
            let r = d.def(dn.ok_or("dst")?, &t);
            let mut lv = vec![]; t.leaves(0, &mut lv);
            if let Ty::Vec(_, e) = &t { if **e == Ty::I(1) { return Err("load <n x i1>".into()); } }
            for (k, (o, lf)) in lv.iter().enumerate() { out.push(if *o == 0 { Inst::Load(r + k as u32, lf.bytes(), lf.bits(), a) } else { Inst::LoadOff(r + k as u32, lf.bytes(), lf.bits(), a, *o) }); }
        }
        "store" => {
            flags(&mut p);
            let t = p.ty()?; let v = d.val(&mut p, &t)?; p.expect_p(',')?; let pt = p.ty()?; let a = d.val1(&mut p, &pt)?;
            let mut lv = vec![]; t.leaves(0, &mut lv);
            if let Ty::Vec(_, e) = &t { if **e == Ty::I(1) { return Err("store <n x i1>".into()); } }
            for (k, (o, lf)) in lv.iter().enumerate() { out.push(if *o == 0 { Inst::Store(lf.bytes(), lf.bits(), v[k], a) } else { Inst::StoreOff(lf.bytes(), lf.bits(), v[k], a, *o) }); }
        }
        "getelementptr" => {
            flags(&mut p);
            let ety = p.ty()?; p.expect_p(',')?;
            let pt = p.ty()?; let base = d.val1(&mut p, &pt)?;
            if !matches!(pt, Ty::Ptr) { return Err("vector gep".into()); }
            let mut c = 0u64; let mut dynv = vec![]; let mut cur = ety.clone(); let mut first = true;
            while p.is_p(',') && !matches!(p.peek_at(1), Some(Tok::Meta)) {
                p.i += 1;
                let it = p.ty()?; let i = d.val1(&mut p, &it)?;
                let iw = bits_of(&it);
                if first {
                    first = false;
                    match i { Opd::C(x) => c = c.wrapping_add((sext64(x, iw) as u64).wrapping_mul(ety.size())), o => dynv.push((o, iw, ety.size())) }
                } else {
                    match (&cur, i) {
                        (Ty::Struct(..), Opd::C(x)) => { c = c.wrapping_add(cur.field_off(x as usize)); cur = cur.elem(x as usize).clone(); }
                        (_, Opd::C(x)) => { c = c.wrapping_add((sext64(x, iw) as u64).wrapping_mul(cur.elem(0).size())); cur = cur.elem(0).clone(); }
                        (_, o) => { dynv.push((o, iw, cur.elem(0).size())); cur = cur.elem(0).clone(); }
                    }
                }
            }
            let r = d.def(dn.ok_or("dst")?, &Ty::Ptr);
            out.push(Inst::Gep(r, base, c, dynv.into_boxed_slice()));
        }
        "alloca" => {
            let t = p.ty()?;
            let mut cnt = Opd::C(1); let mut al = t.align();
            while p.eat_p(',') {
                if p.eat_w("align") { if let Tok::Int(n) = p.next()? { al = *n as u64; } }
                else if p.is_ty_start() { let it = p.ty()?; cnt = d.val1(&mut p, &it)?; }
                else { break; }
            }
            let r = d.def(dn.ok_or("dst")?, &Ty::Ptr);
            out.push(Inst::Alloca(r, cnt, t.size(), al));
        }
        "tail" | "musttail" | "notail" | "call" => {
            if w != "call" { if !p.eat_w("call") { return Err("call".into()); } }
            flags(&mut p);
            p.skip_attrs_before_ty()?;
            let rt = p.ty()?;
            let callee_tok = p.next()?;
            let mut name = String::new();
            let mut ind = None;
            match callee_tok {
                Tok::Global(g) => name = m.aliases.get(g).cloned().unwrap_or(g.clone()),
                Tok::Local(n) => ind = Some(Opd::R(d.def(n, &Ty::Ptr))),
                Tok::Word(x) if x == "asm" => name = "asm".into(),
                Tok::Word(x) => { let c = p.const_expr(x)?; ind = Some(Opd::C(c)); }
                x => return Err(format!("callee {:?}", x)),
            }
            if name == "asm" {
                // optimisation barriers / empty asm only
                while let Some(t) = p.peek() { if matches!(t, Tok::P('(')) { break; } p.i += 1; }
                if !rt.eq(&Ty::Void) { return Err("asm with result".into()); }
                return Ok(());
            }
            p.expect_p('(')?;
            let mut args = vec![]; let mut w0 = 0u16;
            while !p.is_p(')') {
                let t = p.ty()?;
                if t == Ty::Meta { // skip to , or )
                    let mut dd = 0;
                    while let Some(x) = p.peek() { match x { Tok::P('(') | Tok::P('{') => dd += 1, Tok::P('}') => dd -= 1, Tok::P(')') => { if dd == 0 { break; } dd -= 1; } Tok::P(',') if dd == 0 => break, _ => {} } p.i += 1; }
                } else {
                    p.skip_attrs_before_val()?;
                    if args.is_empty() { w0 = bits_of(&t); }
                    args.extend(d.val(&mut p, &t)?);
                }
                if !p.eat_p(',') { break; }
            }
            p.expect_p(')')?;
            let nret = rt.nleaves() as u32;
            let r = if let Some(n) = dn { d.def(n, &rt) } else if nret > 0 { let r = d.nregs; d.nregs += nret; r } else { 0 };
            let callee = if let Some(i) = ind { Callee::Ind(i) } else {
                let fi = *m.fidx.get(&name).ok_or(format!("no function {}", name))?;
                match m.funcs[fi as usize].intr { Some(i) => { if i == Intr::Nop && nret == 0 { return Ok(()); } Callee::Intr(i, name.clone()) } None => Callee::Func(fi) }
            };
            out.push(Inst::Call(Box::new(CallI { callee, args: args.into_boxed_slice(), dst: r, nret, w: w0 })));
        }
        "br" => {
            if p.eat_w("label") { if let Tok::Local(n) = p.next()? { out.push(Inst::Br(edge(bi, n)?)); } }
            else {
                let t = p.ty()?; let c = d.val1(&mut p, &t)?; p.expect_p(',')?;
                if !p.eat_w("label") { return Err("label".into()); }
                let a = match p.next()? { Tok::Local(n) => n, _ => return Err("label".into()) };
                p.expect_p(',')?; if !p.eat_w("label") { return Err("label".into()); }
                let b = match p.next()? { Tok::Local(n) => n, _ => return Err("label".into()) };
                out.push(Inst::CondBr(c, Box::new((edge(bi, a)?, edge(bi, b)?))));
            }
        }
        "switch" => {
            let t = p.ty()?; let v = d.val1(&mut p, &t)?; p.expect_p(',')?; if !p.eat_w("label") { return Err("label".into()); }
            let def = match p.next()? { Tok::Local(n) => n, _ => return Err("label".into()) };
            let mut edges = vec![edge(bi, def)?]; let mut cases = vec![];
            p.expect_p('[')?;
            while !p.eat_p(']') {
                let ct = p.ty()?; let c = match d.val1(&mut p, &ct)? { Opd::C(c) => c, Opd::W(x) => { if *x >> 64 != 0 { return Err("wide switch".into()); } *x as u64 } _ => return Err("case".into()) };
                p.expect_p(',')?; if !p.eat_w("label") { return Err("label".into()); }
                let lab = match p.next()? { Tok::Local(n) => n, _ => return Err("label".into()) };
                cases.push((c, edges.len() as u32)); edges.push(edge(bi, lab)?);
            }
            let hm = cases.iter().cloned().collect();
            out.push(Inst::Switch(bits_of(&t), v, Box::new((cases, edges, hm))));
        }
        "ret" => { let t = p.ty()?; let v = if t == Ty::Void { vec![] } else { d.val(&mut p, &t)? }; out.push(Inst::Ret(v.into_boxed_slice())); }
        "unreachable" => out.push(Inst::Unreachable),
        "resume" => out.push(Inst::Trap("resume".into())),
        "fence" => {}
        "atomicrmw" => {
            flags(&mut p);
            let op = match p.next()? { Tok::Word(x) => match x.as_str() { "xchg" => BinOp2::Xchg, "add" => BinOp2::Add, "sub" => BinOp2::Sub, "and" => BinOp2::And, "or" => BinOp2::Or, "xor" => BinOp2::Xor, "max" => BinOp2::Max, "min" => BinOp2::Min, "umax" => BinOp2::UMax, "umin" => BinOp2::UMin, "nand" => BinOp2::Nand, _ => return Err("rmw".into()) }, _ => return Err("rmw".into()) };
            let pt = p.ty()?; let a = d.val1(&mut p, &pt)?; p.expect_p(',')?; let t = p.ty()?; let v = d.val1(&mut p, &t)?;
            let r = if let Some(n) = dn { d.def(n, &t) } else { let r = d.nregs; d.nregs += 1; r };
            ordering_skip(&mut p);
            out.push(Inst::Rmw(op, bits_of(&t), r, a, v));
        }
        "cmpxchg" => {
            flags(&mut p);
            let pt = p.ty()?; let a = d.val1(&mut p, &pt)?; p.expect_p(',')?; let t = p.ty()?; let e = d.val1(&mut p, &t)?; p.expect_p(',')?; let t2 = p.ty()?; let n = d.val1(&mut p, &t2)?;
            let rt = Ty::Struct(vec![t.clone(), Ty::I(1)], false);
            let r = if let Some(x) = dn { d.def(x, &rt) } else { let r = d.nregs; d.nregs += 2; r };
            out.push(Inst::CmpXchg(bits_of(&t), r, a, e, n));
        }
        _ => return Err(format!("unsupported inst {}", w)),
    }
    let _ = d.m;
    Ok(())
}
