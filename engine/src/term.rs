//! Hash-consed bit-vector terms. Terms over a single symbol are canonicalised by their value
//! vector over the symbol's domain; every such canonicalisation is queued for discharge by the SMT solver.
use crate::ir::{mask, sext64, BinOp, CastOp, FPred, Pred};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Mutex, OnceLock, RwLock};

#[derive(Clone, Copy)]
pub enum V { C(u64), S(&'static Term), W(&'static u128) }
impl V {
    pub fn key(&self) -> (u8, u64) { match self { V::C(c) => (0, *c), V::S(t) => (1, t.id as u64), V::W(x) => (2, *x as *const _ as u64) } }
}
impl std::fmt::Debug for V { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { V::C(c) => write!(f, "{:#x}", c), V::S(t) => write!(f, "t{}:{}", t.id, t.w), V::W(x) => write!(f, "W{:x}", x) } } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Sym,
    Bin(BinOp), Cmp(Pred), FCmp(FPred), Cast(CastOp),
    Extract(u16),     // lo bit
    Concat,           // args hi, lo
    Ite,
    Narrow,           // arg restricted to the domain with id aux (a fixed value outside it)
    Table,            // aux = table id, arg = address term
    Intr(u16),        // misc concrete-evaluable intrinsic (see eval_intr)
    IntF64,           // f64 known to be exactly the integer arg (< 2^53)
    BoolAnd,          // conjunction of 1-bit args (2-ary)
}

pub struct Term {
    pub id: u32,
    pub op: Op,
    pub w: u16,
    pub from_w: u16,
    pub args: Vec<V>,
    pub aux: u64,
    pub syms: u64,
    pub sym: u8,                     // 255 when several
    pub vals: Option<Vec<u64>>,      // over the full domain, single symbol only
    pub truth: OnceLock<&'static Dom>,
    pub alpha: OnceLock<u32>,
    pub fp: bool,                    // involves floating point
    pub enc: bool,                   // expressible in SMT-LIB
    pub ub: u64,                     // upper bound (unsigned)
}
impl Term {
    pub fn single(&self) -> bool { self.sym != 255 }
}

#[derive(PartialEq, Eq, Hash)]
pub struct Dom { pub id: u32, pub bits: Vec<u64>, pub count: u32 }
impl Dom {
    pub fn first(&self) -> usize { for (i, w) in self.bits.iter().enumerate() { if *w != 0 { return i * 64 + w.trailing_zeros() as usize; } } 0 }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        self.bits.iter().enumerate().flat_map(|(i, &w)| { let mut w = w; std::iter::from_fn(move || { if w == 0 { None } else { let t = w.trailing_zeros() as usize; w &= w - 1; Some(i * 64 + t) } }) })
    }
    pub fn has(&self, i: usize) -> bool { self.bits.get(i / 64).map_or(false, |w| w >> (i % 64) & 1 == 1) }
}

pub struct SymInfo { pub name: String, pub n: u32, pub term: &'static Term }

static DOMS: OnceLock<Mutex<HashMap<Vec<u64>, &'static Dom>>> = OnceLock::new();
static DOM_ID: AtomicU32 = AtomicU32::new(1);
pub fn mk_dom(bits: Vec<u64>) -> &'static Dom {
    let mut g = DOMS.get_or_init(Default::default).lock().unwrap();
    if let Some(d) = g.get(&bits) { return d; }
    let count = bits.iter().map(|w| w.count_ones()).sum();
    let d: &'static Dom = Box::leak(Box::new(Dom { id: DOM_ID.fetch_add(1, Ordering::Relaxed), bits: bits.clone(), count }));
    g.insert(bits, d);
    d
}
pub fn full_dom(n: u32) -> &'static Dom {
    let mut b = vec![0u64; (n as usize + 63) / 64];
    for i in 0..n as usize { b[i / 64] |= 1 << (i % 64); }
    mk_dom(b)
}

static SYMS: RwLock<Vec<&'static SymInfo>> = RwLock::new(Vec::new());
pub fn sym_info(i: u8) -> &'static SymInfo { SYMS.read().unwrap()[i as usize] }
pub fn sym_count() -> usize { SYMS.read().unwrap().len() }
/// i-th symbol of the harness (deterministic numbering per path); n must agree across paths
pub fn get_sym(i: usize, n: u32) -> Result<&'static Term, String> {
    { let g = SYMS.read().unwrap(); if i < g.len() { if g[i].n != n { return Err(format!("symbol {} domain {} vs {}", i, g[i].n, n)); } return Ok(g[i].term); } }
    let mut g = SYMS.write().unwrap();
    if i < g.len() { if g[i].n != n { return Err(format!("symbol {} domain {} vs {}", i, g[i].n, n)); } return Ok(g[i].term); }
    if i >= 62 { return Err("too many symbols".into()); }
    if i != g.len() { return Err("symbol order".into()); }
    let t = intern_new(Op::Sym, 32, 0, vec![], i as u64, 1u64 << i, i as u8, Some((0..n as u64).collect()), n as u64 - 1);
    g.push(Box::leak(Box::new(SymInfo { name: format!("s{}", i), n, term: t })));
    Ok(t)
}

const NSH: usize = 64;
type Key = (Op, u16, u16, Vec<(u8, u64)>, u64);
struct Shard { struct_map: HashMap<Key, V>, val_map: HashMap<(u8, u16, Vec<u64>), &'static Term> }
static SHARDS: OnceLock<Vec<Mutex<Shard>>> = OnceLock::new();
static TERM_ID: AtomicU32 = AtomicU32::new(0);
fn shards() -> &'static Vec<Mutex<Shard>> { SHARDS.get_or_init(|| (0..NSH).map(|_| Mutex::new(Shard { struct_map: HashMap::new(), val_map: HashMap::new() })).collect()) }
pub fn term_count() -> u32 { TERM_ID.load(Ordering::Relaxed) }

fn hash_of<T: std::hash::Hash>(t: &T) -> usize { use std::hash::{Hasher, DefaultHasher}; let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() as usize }

fn intern_new(op: Op, w: u16, from_w: u16, args: Vec<V>, aux: u64, syms: u64, sym: u8, vals: Option<Vec<u64>>, ub: u64) -> &'static Term {
    let id = TERM_ID.fetch_add(1, Ordering::Relaxed);
    let fp = matches!(op, Op::FCmp(_) | Op::IntF64 | Op::Bin(BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) | Op::Cast(CastOp::UIToFP | CastOp::SIToFP | CastOp::FPToUI | CastOp::FPToSI | CastOp::FPExt | CastOp::FPTrunc)) || args.iter().any(|a| matches!(a, V::S(t) if t.fp));
    let enc = crate::solver::encodable_op(op, w, &args) && args.iter().all(|a| match a { V::S(t) => t.enc, V::C(_) => true, V::W(_) => false });
    Box::leak(Box::new(Term { id, op, w, from_w, args, aux, syms, sym, vals, truth: OnceLock::new(), alpha: OnceLock::new(), fp, enc, ub }))
}

static ALPHA: Mutex<Option<HashMap<Key, u32>>> = Mutex::new(None);
/// structural identity of a single-symbol term up to renaming of the symbol
pub fn alpha(t: &'static Term) -> u32 {
    *t.alpha.get_or_init(|| {
        let key: Key = if t.op == Op::Sym { (t.op, t.w, 0, vec![], sym_info(t.sym).n as u64) } else { (t.op, t.w, t.from_w, t.args.iter().map(|a| match a { V::S(x) => (1u8, alpha(x) as u64), v => v.key() }).collect(), t.aux) };
        let mut g = ALPHA.lock().unwrap(); let g = g.get_or_insert_with(HashMap::new);
        let n = g.len() as u32;
        *g.entry(key).or_insert(n)
    })
}

/// canonicalisation facts (op(args) over the whole domain == canonical value) to be discharged by the solver
pub enum Canon { ToConst(&'static Term, u64), ToTerm(&'static Term, &'static Term) }
pub static CANON: Mutex<Vec<Canon>> = Mutex::new(Vec::new());

pub static TABLES: RwLock<Vec<&'static Vec<(u64, u64)>>> = RwLock::new(Vec::new());
static TABLE_IX: Mutex<Option<HashMap<Vec<(u64, u64)>, u64>>> = Mutex::new(None);
pub fn mk_table(v: Vec<(u64, u64)>) -> u64 {
    let mut g = TABLE_IX.lock().unwrap();
    let g = g.get_or_insert_with(HashMap::new);
    if let Some(i) = g.get(&v) { return *i; }
    let mut t = TABLES.write().unwrap();
    let i = t.len() as u64;
    g.insert(v.clone(), i);
    t.push(Box::leak(Box::new(v)));
    i
}
pub fn table(i: u64) -> &'static Vec<(u64, u64)> { TABLES.read().unwrap()[i as usize] }

pub fn truth(t: &'static Term) -> &'static Dom {
    t.truth.get_or_init(|| {
        let v = t.vals.as_ref().expect("truth of multi");
        let mut b = vec![0u64; (v.len() + 63) / 64];
        for (i, x) in v.iter().enumerate() { if *x & 1 == 1 { b[i / 64] |= 1 << (i % 64); } }
        mk_dom(b)
    })
}

pub fn bin_c(op: BinOp, w: u16, a: u64, b: u64) -> Option<u64> {
    use BinOp::*;
    let m = mask(w);
    Some(match op {
        Add => a.wrapping_add(b) & m, Sub => a.wrapping_sub(b) & m, Mul => a.wrapping_mul(b) & m,
        UDiv => { if b == 0 { return None; } a / b } URem => { if b == 0 { return None; } a % b }
        SDiv => { if b == 0 { return None; } (sext64(a, w).wrapping_div(sext64(b, w)) as u64) & m }
        SRem => { if b == 0 { return None; } (sext64(a, w).wrapping_rem(sext64(b, w)) as u64) & m }
        And => a & b, Or => a | b, Xor => a ^ b,
        Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        LShr => if b >= w as u64 { 0 } else { a >> b },
        AShr => (sext64(a, w) >> b.min(63).min(w as u64 - 1)) as u64 & m,
        FAdd | FSub | FMul | FDiv | FRem => {
            // NaN results are canonicalised (payload and sign of a NaN are not modelled), as in the SMT encoding
            if w == 64 { let (x, y) = (f64::from_bits(a), f64::from_bits(b)); let r = match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y }; if r.is_nan() { 0x7ff8 << 48 } else { r.to_bits() } }
            else { let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32)); let r = match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y }; if r.is_nan() { 0x7fc0 << 16 } else { r.to_bits() as u64 } }
        }
    })
}
pub fn cmp_c(p: Pred, w: u16, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
        Pred::Sgt => sext64(a, w) > sext64(b, w), Pred::Sge => sext64(a, w) >= sext64(b, w), Pred::Slt => sext64(a, w) < sext64(b, w), Pred::Sle => sext64(a, w) <= sext64(b, w),
    }
}
pub fn fcmp_c(p: FPred, w: u16, a: u64, b: u64) -> bool {
    let (x, y) = if w == 64 { (f64::from_bits(a), f64::from_bits(b)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
    let un = x.is_nan() || y.is_nan();
    match p {
        FPred::False => false, FPred::True => true, FPred::Ord => !un, FPred::Uno => un,
        FPred::Oeq => x == y, FPred::Ogt => x > y, FPred::Oge => x >= y, FPred::Olt => x < y, FPred::Ole => x <= y, FPred::One => !un && x != y,
        FPred::Ueq => un || x == y, FPred::Ugt => un || x > y, FPred::Uge => un || x >= y, FPred::Ult => un || x < y, FPred::Ule => un || x <= y, FPred::Une => un || x != y,
    }
}
pub fn cast_c(op: CastOp, from: u16, to: u16, a: u64) -> u64 {
    match op {
        CastOp::Trunc => a & mask(to), CastOp::ZExt | CastOp::Bit => a,
        CastOp::SExt => sext64(a, from) as u64 & mask(to),
        CastOp::UIToFP => if to == 64 { (a as f64).to_bits() } else { (a as f32).to_bits() as u64 },
        CastOp::SIToFP => if to == 64 { (sext64(a, from) as f64).to_bits() } else { (sext64(a, from) as f32).to_bits() as u64 },
        CastOp::FPToUI => { let x = if from == 64 { f64::from_bits(a) } else { f32::from_bits(a as u32) as f64 }; (x as u64) & mask(to) }
        CastOp::FPToSI => { let x = if from == 64 { f64::from_bits(a) } else { f32::from_bits(a as u32) as f64 }; (x as i64 as u64) & mask(to) }
        CastOp::FPExt => (f32::from_bits(a as u32) as f64).to_bits(),
        CastOp::FPTrunc => (f64::from_bits(a) as f32).to_bits() as u64,
    }
}
// misc intrinsics usable on symbolic single-symbol args
pub const I_CTLZ: u16 = 1; pub const I_CTTZ: u16 = 2; pub const I_CTPOP: u16 = 3; pub const I_BSWAP: u16 = 4;
pub const I_SADDSAT: u16 = 33; pub const I_SSUBSAT: u16 = 34;
pub const I_UMAX: u16 = 5; pub const I_UMIN: u16 = 6; pub const I_SMAX: u16 = 7; pub const I_SMIN: u16 = 8; pub const I_USUBSAT: u16 = 9; pub const I_UADDSAT: u16 = 10;
pub const I_UADDO: u16 = 11; pub const I_USUBO: u16 = 12; pub const I_UMULO: u16 = 13; pub const I_SADDO: u16 = 14; pub const I_SSUBO: u16 = 15; pub const I_SMULO: u16 = 16;
pub const I_FSHL: u16 = 17; pub const I_FSHR: u16 = 18; pub const I_UCMP: u16 = 19; pub const I_SCMP: u16 = 20; pub const I_ABS: u16 = 21; pub const I_POWI: u16 = 22; pub const I_BITREV: u16 = 23;
pub const I_FPTOUISAT: u16 = 24; pub const I_FPTOSISAT: u16 = 25; pub const I_FABS: u16 = 26; pub const I_FMA: u16 = 27; pub const I_FLOOR: u16 = 28; pub const I_CEIL: u16 = 29; pub const I_FTRUNC: u16 = 30; pub const I_FNEG: u16 = 31; pub const I_COPYSIGN: u16 = 32;

pub fn intr_c(k: u16, w: u16, rw: u16, a: &[u64]) -> u64 {
    let m = mask(w);
    let s = |x: u64| sext64(x, w);
    match k {
        I_CTLZ => if a[0] == 0 { w as u64 } else { (a[0].leading_zeros() as u64) - (64 - w as u64) },
        I_CTTZ => if a[0] == 0 { w as u64 } else { a[0].trailing_zeros() as u64 },
        I_CTPOP => a[0].count_ones() as u64,
        I_BSWAP => a[0].swap_bytes() >> (64 - w), I_BITREV => a[0].reverse_bits() >> (64 - w),
        I_UMAX => a[0].max(a[1]), I_UMIN => a[0].min(a[1]),
        I_SMAX => s(a[0]).max(s(a[1])) as u64 & m, I_SMIN => s(a[0]).min(s(a[1])) as u64 & m,
        I_USUBSAT => a[0].saturating_sub(a[1]),
        I_SADDSAT | I_SSUBSAT => { let r = if k == I_SADDSAT { s(a[0]) as i128 + s(a[1]) as i128 } else { s(a[0]) as i128 - s(a[1]) as i128 }; let hi = (m >> 1) as i128; (r.clamp(-hi - 1, hi) as i64 as u64) & m }
        I_UADDSAT => { let r = a[0] as u128 + a[1] as u128; if r > m as u128 { m } else { r as u64 } }
        I_UADDO => (a[0] as u128 + a[1] as u128 > m as u128) as u64, I_USUBO => (a[0] < a[1]) as u64,
        I_UMULO => (a[0] as u128 * a[1] as u128 > m as u128) as u64,
        I_SADDO => { let r = s(a[0]) as i128 + s(a[1]) as i128; (r != sext64(r as u64, w) as i128) as u64 }
        I_SSUBO => { let r = s(a[0]) as i128 - s(a[1]) as i128; (r != sext64(r as u64, w) as i128) as u64 }
        I_SMULO => { let r = s(a[0]) as i128 * s(a[1]) as i128; (r != sext64(r as u64, w) as i128) as u64 }
        I_FSHL => { let n = a[2] % w as u64; if n == 0 { a[0] } else { ((a[0] << n) | (a[1] >> (w as u64 - n))) & m } }
        I_FSHR => { let n = a[2] % w as u64; if n == 0 { a[1] } else { ((a[0] << (w as u64 - n)) | (a[1] >> n)) & m } }
        I_UCMP => (if a[0] < a[1] { !0 } else { (a[0] > a[1]) as u64 }) & mask(rw),
        I_SCMP => (if s(a[0]) < s(a[1]) { !0 } else { (s(a[0]) > s(a[1])) as u64 }) & mask(rw),
        I_ABS => s(a[0]).wrapping_abs() as u64 & m,
        I_POWI => f64::from_bits(a[0]).powi(a[1] as u32 as i32).to_bits(),
        I_FPTOUISAT => { let x = if w == 64 { f64::from_bits(a[0]) } else { f32::from_bits(a[0] as u32) as f64 }; (x as u64).min(mask(rw)) }
        I_FPTOSISAT => { let x = if w == 64 { f64::from_bits(a[0]) } else { f32::from_bits(a[0] as u32) as f64 }; let hi = (mask(rw) >> 1) as i64; ((x as i64).clamp(-hi - 1, hi)) as u64 & mask(rw) }
        I_FABS => a[0] & (mask(w) >> 1),
        I_FMA => if w == 64 { f64::from_bits(a[0]).mul_add(f64::from_bits(a[1]), f64::from_bits(a[2])).to_bits() } else { 0 },
        I_FLOOR => if w == 64 { f64::from_bits(a[0]).floor().to_bits() } else { f32::from_bits(a[0] as u32).floor().to_bits() as u64 },
        I_CEIL => if w == 64 { f64::from_bits(a[0]).ceil().to_bits() } else { f32::from_bits(a[0] as u32).ceil().to_bits() as u64 },
        I_FTRUNC => if w == 64 { f64::from_bits(a[0]).trunc().to_bits() } else { f32::from_bits(a[0] as u32).trunc().to_bits() as u64 },
        I_FNEG => a[0] ^ (1u64 << (w - 1)),
        I_COPYSIGN => { let sb = 1u64 << (w - 1); (a[0] & !sb) | (a[1] & sb) }
        _ => panic!("intr_c {}", k),
    }
}

fn eval(op: Op, w: u16, from_w: u16, aux: u64, a: &[u64], lo_w: u16) -> Option<u64> {
    Some(match op {
        Op::Bin(b) => return bin_c(b, w, a[0], a[1]),
        Op::Cmp(p) => cmp_c(p, from_w, a[0], a[1]) as u64,
        Op::FCmp(p) => fcmp_c(p, from_w, a[0], a[1]) as u64,
        Op::Cast(c) => cast_c(c, from_w, w, a[0]),
        Op::Extract(lo) => (a[0] >> lo) & mask(w),
        Op::Concat => (a[0] << lo_w) | a[1],
        Op::Ite => if a[0] & 1 == 1 { a[1] } else { a[2] },
        Op::Table => { let t = table(aux); match t.binary_search_by_key(&a[0], |x| x.0) { Ok(i) => t[i].1, Err(_) => 0 } }
        Op::Intr(k) => intr_c(k, from_w, w, a),
        Op::IntF64 => (a[0] as f64).to_bits(),
        Op::BoolAnd => a[0] & a[1],
        Op::Sym | Op::Narrow => return None,
    })
}

thread_local! { static LOCAL: std::cell::RefCell<HashMap<Key, V>> = std::cell::RefCell::new(HashMap::new()); }

/// build op(args); from_w = operand width (compares/casts/intrinsics). At least one arg symbolic.
/// For Concat from_w = width of the low part.
pub fn mk(op: Op, w: u16, from_w: u16, args: &[V], aux: u64) -> V {
    let key: Key = (op, w, from_w, args.iter().map(|a| a.key()).collect(), aux);
    if let Some(v) = LOCAL.with(|l| l.borrow().get(&key).copied()) { return v; }
    let v = mk_slow(&key, op, w, from_w, args, aux);
    LOCAL.with(|l| { let mut l = l.borrow_mut(); if l.len() > 400_000 { l.clear(); } l.insert(key, v); });
    v
}
fn mk_slow(key: &Key, op: Op, w: u16, from_w: u16, args: &[V], aux: u64) -> V {
    let sh = &shards()[hash_of(key) % NSH];
    if let Some(v) = sh.lock().unwrap().struct_map.get(key) { return *v; }
    let mut syms = 0u64;
    let mut single = true; let mut sym = 255u8;
    for a in args { if let V::S(t) = a { syms |= t.syms; if t.single() && (sym == 255 || sym == t.sym) { sym = t.sym } else { single = false; } } }
    single &= syms.count_ones() == 1 && args.iter().all(|a| match a { V::S(t) => t.vals.is_some(), V::C(_) => true, V::W(_) => false });
    let r: V;
    if single {
        let n = sym_info(sym).n as usize;
        let mut vals = Vec::with_capacity(n);
        let mut buf = [0u64; 4];
        let mut undefined = false;
        for i in 0..n {
            for (k, a) in args.iter().enumerate() { buf[k] = match a { V::C(c) => *c, V::S(t) => t.vals.as_ref().unwrap()[i], V::W(_) => 0 }; }
            match eval(op, w, from_w, aux, &buf[..args.len()], from_w) { Some(x) => vals.push(x), None => { undefined = true; vals.push(0) } }
        }
        let _ = undefined; // division by zero: callers fork on the divisor beforehand
        if vals.iter().all(|x| *x == vals[0]) && !undefined {
            let nt = intern_new(op, w, from_w, args.to_vec(), aux, syms, sym, Some(vec![]), 0);
            CANON.lock().unwrap().push(Canon::ToConst(nt, vals[0]));
            r = V::C(vals[0]);
        } else {
            let vk = (sym, w, vals);
            let vs = &shards()[hash_of(&vk) % NSH];
            let mut g = vs.lock().unwrap();
            if let Some(t) = g.val_map.get(&vk).copied() {
                drop(g);
                let nt = intern_new(op, w, from_w, args.to_vec(), aux, syms, sym, Some(vec![]), 0);
                CANON.lock().unwrap().push(Canon::ToTerm(nt, t));
                r = V::S(t);
            } else {
                let ub = vk.2.iter().copied().max().unwrap();
                let t = intern_new(op, w, from_w, args.to_vec(), aux, syms, sym, Some(vk.2.clone()), ub);
                g.val_map.insert(vk, t);
                r = V::S(t);
            }
        }
    } else {
        let ub = ub_of(op, w, from_w, args);
        r = V::S(intern_new(op, w, from_w, args.to_vec(), aux, syms, 255, None, ub));
    }
    let mut g = sh.lock().unwrap();
    if let Some(v) = g.struct_map.get(key) { return *v; }
    g.struct_map.insert(key.clone(), r);
    r
}
static DOM_BY_ID: RwLock<Vec<&'static Dom>> = RwLock::new(Vec::new());
pub fn dom_by_id(i: u64) -> &'static Dom { DOM_BY_ID.read().unwrap()[i as usize] }
/// t with its values outside d replaced by one of its values inside d (equal to t wherever the path condition holds)
pub fn narrow(t: &'static Term, d: &'static Dom) -> V {
    let vs = match &t.vals { Some(v) if !v.is_empty() => v, _ => return V::S(t) };
    let mx = d.iter().map(|i| vs[i]).max().unwrap_or(t.ub);
    if mx >= t.ub { return V::S(t); }
    let key: Key = (Op::Narrow, t.w, 0, vec![V::S(t).key()], d.id as u64);
    let sh = &shards()[hash_of(&key) % NSH];
    if let Some(r) = sh.lock().unwrap().struct_map.get(&key) { return *r; }
    let f = vs[d.first()];
    let nv: Vec<u64> = (0..vs.len()).map(|i| if d.has(i) { vs[i] } else { f }).collect();
    { let mut g = DOM_BY_ID.write().unwrap(); if g.len() <= d.id as usize { g.resize(d.id as usize + 1, d); } g[d.id as usize] = d; }
    if nv.iter().all(|x| *x == f) {
        let nt = intern_new(Op::Narrow, t.w, 0, vec![V::S(t)], d.id as u64, t.syms, t.sym, Some(vec![]), 0);
        CANON.lock().unwrap().push(Canon::ToConst(nt, f));
        sh.lock().unwrap().struct_map.insert(key, V::C(f));
        return V::C(f);
    }
    let vk = (t.sym, t.w, nv);
    let vsh = &shards()[hash_of(&vk) % NSH];
    let mut g = vsh.lock().unwrap();
    let r = if let Some(u) = g.val_map.get(&vk).copied() {
        drop(g);
        let nt = intern_new(Op::Narrow, t.w, 0, vec![V::S(t)], d.id as u64, t.syms, t.sym, Some(vec![]), 0);
        CANON.lock().unwrap().push(Canon::ToTerm(nt, u));
        u
    } else {
        let u = intern_new(Op::Narrow, t.w, 0, vec![V::S(t)], d.id as u64, t.syms, t.sym, Some(vk.2.clone()), mx);
        g.val_map.insert(vk, u);
        drop(g);
        u
    };
    sh.lock().unwrap().struct_map.insert(key, V::S(r));
    V::S(r)
}
pub fn ub(v: &V) -> u64 { match v { V::C(c) => *c, V::S(t) => t.ub, V::W(_) => !0 } }
fn ub_of(op: Op, w: u16, from_w: u16, a: &[V]) -> u64 {
    let m = mask(w);
    let f = |x: u128| if x > m as u128 { m } else { x as u64 };
    match op {
        Op::Bin(BinOp::Add) => f(ub(&a[0]) as u128 + ub(&a[1]) as u128),
        Op::Bin(BinOp::Mul) => f(ub(&a[0]) as u128 * ub(&a[1]) as u128),
        Op::Bin(BinOp::And) => ub(&a[0]).min(ub(&a[1])),
        Op::Bin(BinOp::LShr) => if let V::C(c) = a[1] { if c < 64 { ub(&a[0]) >> c } else { 0 } } else { m },
        Op::Cast(CastOp::ZExt) | Op::Cast(CastOp::Bit) => ub(&a[0]),
        Op::Cast(CastOp::Trunc) => ub(&a[0]).min(m),
        Op::Ite => ub(&a[1]).max(ub(&a[2])),
        Op::Concat if from_w < 64 => f(((ub(&a[0]) as u128) << from_w) + ub(&a[1]).min(mask(from_w)) as u128),
        Op::Extract(lo) => if lo < 64 { (ub(&a[0]) >> lo).min(m) } else { m },
        Op::Cmp(_) | Op::FCmp(_) | Op::BoolAnd => 1,
        _ => m,
    }
}

pub fn not(v: V) -> V { match v { V::C(c) => V::C(c & 1 ^ 1), _ => mk(Op::Bin(BinOp::Xor), 1, 1, &[v, V::C(1)], 0) } }

pub fn bin(op: BinOp, w: u16, a: V, b: V) -> Option<V> {
    use BinOp::*;
    if let (V::C(x), V::C(y)) = (a, b) { return bin_c(op, w, x, y).map(V::C); }
    if let (V::W(_), _) | (_, V::W(_)) = (a, b) { return None; }
    // local simplifications (needed for multi-symbol terms)
    match (op, a, b) {
        (Add | Or | Xor | Shl | LShr | AShr | Sub, x, V::C(0)) | (Add | Or | Xor, V::C(0), x) => return Some(x),
        (And | Mul, _, V::C(0)) | (And | Mul, V::C(0), _) => return Some(V::C(0)),
        (And, x, V::C(c)) | (And, V::C(c), x) if c == mask(w) => return Some(x),
        (Mul | UDiv, x, V::C(1)) | (Mul, V::C(1), x) => return Some(x),
        (And, x, V::C(1)) | (And, V::C(1), x) if w == 1 => return Some(x),
        (Sub | Xor, V::S(x), V::S(y)) if std::ptr::eq(x, y) => return Some(V::C(0)),
        (And | Or, V::S(x), V::S(y)) if std::ptr::eq(x, y) => return Some(a),
        _ => {}
    }
    if matches!(op, FAdd | FSub | FMul | FDiv | FRem) {
        if let Some(r) = fint(op, w, a, b) { return Some(r); }
    }
    if let (Mul, V::S(t), V::C(c)) = (op, a, b) { if c.is_power_of_two() && !t.single() { return bin(Shl, w, a, V::C(c.trailing_zeros() as u64)); } }
    // x >> c over concat / zext byte structure
    if let (LShr, V::S(t), V::C(c)) = (op, a, b) { if !t.single() && c < w as u64 { let hi = mk_extract(a, c as u16, w - c as u16); return Some(zext(hi, w - c as u16, w)); } }
    if let (And, V::S(t), V::C(c)) = (op, a, b) { if !t.single() && (c + 1).is_power_of_two() { let k = c.trailing_ones() as u16; return Some(zext(mk_extract(a, 0, k), k, w)); } }
    // x << k  =>  x ++ 0^k
    if let (Shl, V::S(t), V::C(c)) = (op, a, b) { if !t.single() && c > 0 && c < w as u64 { return Some(concat(mk_extract(a, 0, w - c as u16), w - c as u16, V::C(0), c as u16)); } }
    // disjoint pieces: (hi ++ 0^k) | lo  =>  hi ++ lo
    if let (Or | Add, V::S(x), V::S(y)) = (op, a, b) {
        if !(x.single() && y.single() && x.sym == y.sym) {
            for (p, q) in [(a, b), (b, a)] {
                if let (V::S(pt), V::S(qt)) = (p, q) {
                    if pt.op == Op::Concat && !pt.single() { if let V::C(0) = pt.args[1] { let k = pt.from_w; if k < 64 && qt.ub < (1u64 << k) { return Some(concat(pt.args[0], w - k, mk_extract(q, 0, k), k)); } } }
                    if pt.single() && qt.ub < mask(w) {
                        let k = 64 - qt.ub.leading_zeros() as u16;
                        if k > 0 && k < w && pt.vals.as_ref().map_or(false, |v| !v.is_empty() && v.iter().all(|x| x & ((1u64 << k) - 1) == 0) && (op == Or || v.iter().fold(0u64, |g, x| gcd(g, x >> k)) <= 1)) { return Some(concat(mk_extract(p, k, w - k), w - k, mk_extract(q, 0, k), k)); }
                    }
                }
            }
        }
    }
    let (a, b) = if matches!(op, Add | Mul | And | Or | Xor) && matches!(a, V::C(_)) { (b, a) } else { (a, b) };
    Some(mk(Op::Bin(op), w, w, &[a, b], 0))
}
fn gcd(a: u64, b: u64) -> u64 { if b == 0 { a } else { gcd(b, a % b) } }
fn as_int(v: V) -> Option<V> {
    match v {
        V::C(c) => { let f = f64::from_bits(c); if f >= 0.0 && f < 9007199254740992.0 && f.fract() == 0.0 && !(f == 0.0 && f.is_sign_negative()) { Some(V::C(f as u64)) } else { None } }
        V::S(t) => if t.op == Op::IntF64 { Some(t.args[0]) } else if let Some(vs) = &t.vals {
            // a single-symbol double whose every value is a small exact integer
            if t.w == 64 && vs.iter().all(|x| { let f = f64::from_bits(*x); f >= 0.0 && f < 9007199254740992.0 && f.fract() == 0.0 && !(f == 0.0 && f.is_sign_negative()) }) { Some(mk(Op::Cast(CastOp::FPToUI), 64, 64, &[v], 0)) } else { None }
        } else { None },
        V::W(_) => None,
    }
}
fn fint(op: BinOp, w: u16, a: V, b: V) -> Option<V> {
    if w != 64 { return None; }
    if let (V::S(x), V::S(y)) = (a, b) { if x.single() && y.single() && x.sym == y.sym { return None; } }
    let single = |v: &V| match v { V::S(t) => t.single(), _ => true };
    if single(&a) && single(&b) && !(matches!(a, V::S(_)) && matches!(b, V::S(_))) { return None; }
    let (x, y) = (as_int(a)?, as_int(b)?);
    let (bx, by) = (ub(&x) as u128, ub(&y) as u128);
    match op {
        BinOp::FAdd if bx + by < 1 << 53 => Some(int_f64(bin(BinOp::Add, 64, x, y)?)),
        BinOp::FMul if bx * by < 1 << 53 => Some(int_f64(bin(BinOp::Mul, 64, x, y)?)),
        _ => None,
    }
}
pub fn int_f64(v: V) -> V { match v { V::C(c) => V::C((c as f64).to_bits()), _ => mk(Op::IntF64, 64, 64, &[v], 0) } }

pub fn cmp(p: Pred, w: u16, a: V, b: V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) { return V::C(cmp_c(p, w, x, y) as u64); }
    if let (V::S(x), V::S(y)) = (a, b) { if std::ptr::eq(x, y) { return V::C(matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle) as u64); } }
    match p {
        Pred::Ne => return not(cmp(Pred::Eq, w, a, b)),
        Pred::Ugt => return cmp(Pred::Ult, w, b, a), Pred::Uge => return not(cmp(Pred::Ult, w, a, b)), Pred::Ule => return not(cmp(Pred::Ult, w, b, a)),
        Pred::Sgt => return cmp(Pred::Slt, w, b, a), Pred::Sge => return not(cmp(Pred::Slt, w, a, b)), Pred::Sle => return not(cmp(Pred::Slt, w, b, a)),
        _ => {}
    }
    if p == Pred::Eq {
        let (a, b) = if matches!(a, V::C(_)) { (b, a) } else { (a, b) };
        if let (V::S(t), V::C(c)) = (a, b) {
            if !t.single() {
                match t.op {
                    Op::Concat => { let lw = t.from_w; let hi = cmp(Pred::Eq, w - lw, t.args[0], V::C(c >> lw)); let lo = cmp(Pred::Eq, lw, t.args[1], V::C(c & mask(lw))); return and(hi, lo); }
                    Op::Cast(CastOp::ZExt) => { if c > mask(t.from_w) { return V::C(0); } return cmp(Pred::Eq, t.from_w, t.args[0], V::C(c)); }
                    // sums and products of unsigned values that cannot wrap are zero exactly when their parts are
                    Op::Bin(BinOp::Add) if c == 0 && ub(&t.args[0]) as u128 + ub(&t.args[1]) as u128 <= mask(w) as u128 => return and(cmp(Pred::Eq, w, t.args[0], V::C(0)), cmp(Pred::Eq, w, t.args[1], V::C(0))),
                    Op::Bin(BinOp::Mul) if c == 0 && matches!(t.args[1], V::C(k) if k != 0) && ub(&t.args[0]) as u128 * ub(&t.args[1]) as u128 <= mask(w) as u128 => return cmp(Pred::Eq, w, t.args[0], V::C(0)),
                    Op::IntF64 => { return match as_int(V::C(c)) { Some(i) => cmp(Pred::Eq, 64, t.args[0], i), None => V::C(0) }; }
                    _ => {}
                }
            }
        }
        if let (V::S(x), V::S(y)) = (a, b) { if x.op == Op::IntF64 || y.op == Op::IntF64 { if let (Some(i), Some(j)) = (as_int(a), as_int(b)) { return cmp(Pred::Eq, 64, i, j); } } }
        let (a, b) = if let (V::S(x), V::S(y)) = (a, b) { if x.id > y.id { (b, a) } else { (a, b) } } else { (a, b) };
        return mk(Op::Cmp(Pred::Eq), 1, w, &[a, b], 0);
    }
    if ub(&a) < ub_min(&b) && p == Pred::Ult { return V::C(1); }
    if p == Pred::Ult { if let (V::S(x), V::S(y)) = (a, b) { if x.op == Op::Concat && y.op == Op::Concat && x.from_w == y.from_w && x.args[0].key() == y.args[0].key() { return cmp(Pred::Ult, x.from_w, x.args[1], y.args[1]); } } }
    // concatenations against constants: lexicographic
    if p == Pred::Ult {
        if let (V::C(c), V::S(t)) = (a, b) { if t.op == Op::Concat && !t.single() { let lw = t.from_w; let (ch, cl) = (V::C(c >> lw), V::C(c & mask(lw))); return or(cmp(Pred::Ult, w - lw, ch, t.args[0]), and(cmp(Pred::Eq, w - lw, t.args[0], ch), cmp(Pred::Ult, lw, cl, t.args[1]))); } }
        if let (V::S(t), V::C(c)) = (a, b) { if t.op == Op::Concat && !t.single() { let lw = t.from_w; let (ch, cl) = (V::C(c >> lw), V::C(c & mask(lw))); return or(cmp(Pred::Ult, w - lw, t.args[0], ch), and(cmp(Pred::Eq, w - lw, t.args[0], ch), cmp(Pred::Ult, lw, t.args[1], cl))); } }
        if let (V::C(c), V::S(t)) = (a, b) { if t.op == Op::Cast(CastOp::ZExt) && !t.single() { if c > mask(t.from_w) { return V::C(0); } return cmp(Pred::Ult, t.from_w, a, t.args[0]); } }
        if let (V::S(t), V::C(c)) = (a, b) { if t.op == Op::Cast(CastOp::ZExt) && !t.single() { if c > mask(t.from_w) { return V::C(1); } return cmp(Pred::Ult, t.from_w, t.args[0], b); } }
    }
    if p == Pred::Ult { if let V::C(c) = a { if ub(&b) <= c { return V::C(0); } } }
    // x + y < x is the carry of an addition that cannot wrap
    if p == Pred::Ult { if let V::S(t) = a { if t.op == Op::Bin(BinOp::Add) && !t.single() && ub(&t.args[0]) as u128 + ub(&t.args[1]) as u128 <= mask(w) as u128 && (t.args[0].key() == b.key() || t.args[1].key() == b.key()) { return V::C(0); } } }
    mk(Op::Cmp(p), 1, w, &[a, b], 0)
}
fn ub_min(v: &V) -> u64 { match v { V::C(c) => *c, _ => 0 } }
pub fn and(a: V, b: V) -> V {
    match (a, b) { (V::C(c), x) | (x, V::C(c)) => if c & 1 == 1 { x } else { V::C(0) }, _ => mk(Op::BoolAnd, 1, 1, &[a, b], 0) }
}
pub fn or(a: V, b: V) -> V { not(and(not(a), not(b))) }
pub fn fcmp(p: FPred, w: u16, a: V, b: V) -> V {
    if let (V::C(x), V::C(y)) = (a, b) { return V::C(fcmp_c(p, w, x, y) as u64); }
    let single2 = { let mut s = 0u64; for v in [&a, &b] { if let V::S(t) = v { s |= t.syms; } } s.count_ones() <= 1 };
    if !single2 && w == 64 {
        // IntF64 against anything whose order we can decide on integers
        if let (Some(i), Some(j)) = (as_int(a), as_int(b)) {
            let pr = match p { FPred::Oeq | FPred::Ueq => Pred::Eq, FPred::One | FPred::Une => Pred::Ne, FPred::Ogt | FPred::Ugt => Pred::Ugt, FPred::Oge | FPred::Uge => Pred::Uge, FPred::Olt | FPred::Ult => Pred::Ult, FPred::Ole | FPred::Ule => Pred::Ule, FPred::Ord | FPred::True => return V::C(1), FPred::Uno | FPred::False => return V::C(0) };
            return cmp(pr, 64, i, j);
        }
    }
    // a sum of two non-negative numbers is zero exactly when both are
    if w == 64 && !single2 && matches!(p, FPred::Oeq | FPred::Une) {
        if let (V::S(t), V::C(c)) = (a, b) { if c << 1 == 0 && t.op == Op::Bin(BinOp::FAdd) && nonneg(&t.args[0]) && nonneg(&t.args[1]) {
            let r = and(fcmp(FPred::Oeq, w, t.args[0], b), fcmp(FPred::Oeq, w, t.args[1], b));
            return if p == FPred::Oeq { r } else { not(r) };
        } }
    }
    mk(Op::FCmp(p), 1, w, &[a, b], 0)
}
fn nonneg(v: &V) -> bool {
    match v {
        V::C(c) => f64::from_bits(*c) >= 0.0,
        V::S(t) => t.w == 64 && (t.op == Op::IntF64 || match &t.vals { Some(vs) if !vs.is_empty() => vs.iter().all(|x| f64::from_bits(*x) >= 0.0), _ => t.op == Op::Bin(BinOp::FAdd) && nonneg(&t.args[0]) && nonneg(&t.args[1]) }),
        V::W(_) => false,
    }
}
pub fn zext(v: V, from: u16, to: u16) -> V { if from == to { return v; } match v { V::C(_) => v, _ => cast(CastOp::ZExt, from, to, v) } }
pub fn concat(hi: V, hw: u16, lo: V, lw: u16) -> V {
    if let (V::C(h), V::C(l)) = (hi, lo) { return V::C((h << lw) | l); }
    if let V::C(0) = hi { return zext(lo, lw, hw + lw); }
    // reassemble adjacent extracts
    if let (V::S(h), V::S(l)) = (hi, lo) {
        if let (Op::Extract(ho), Op::Extract(lo_)) = (h.op, l.op) { if h.args[0].key() == l.args[0].key() && ho == lo_ + lw { return mk_extract(h.args[0], lo_, hw + lw); } }
    }
    mk(Op::Concat, hw + lw, lw, &[hi, lo], 0)
}
fn width_of(v: &V) -> u16 { match v { V::S(t) => t.w, _ => 64 } }
pub fn mk_extract(v: V, lo: u16, w: u16) -> V {
    match v {
        V::C(c) => V::C((c >> lo) & mask(w)),
        V::W(x) => V::C(((*x >> lo) as u64) & mask(w)),
        V::S(t) => {
            let tw = t.w;
            if lo == 0 && w == tw { return v; }
            if !t.single() {
                match t.op {
                    Op::Concat => { let lw = t.from_w; if lo >= lw { return mk_extract(t.args[0], lo - lw, w); } if lo + w <= lw { return mk_extract(t.args[1], lo, w); }
                        return concat(mk_extract(t.args[0], 0, lo + w - lw), lo + w - lw, mk_extract(t.args[1], lo, lw - lo), lw - lo); }
                    Op::Cast(CastOp::ZExt) => { let fw = t.from_w; if lo >= fw { return V::C(0); } if lo + w <= fw { return mk_extract(t.args[0], lo, w); } return zext(mk_extract(t.args[0], lo, fw - lo), fw - lo, w); }
                    Op::Extract(l2) => return mk_extract(t.args[0], l2 + lo, w),
                    _ => {}
                }
            }
            let _ = width_of;
            mk(Op::Extract(lo), w, tw, &[v], 0)
        }
    }
}
pub fn cast(op: CastOp, from: u16, to: u16, a: V) -> V {
    match a {
        V::C(c) => V::C(cast_c(op, from, to, c)),
        V::W(_) => a,
        V::S(t) => {
            match op {
                CastOp::Trunc => return mk_extract(a, 0, to),
                CastOp::Bit => return a,
                CastOp::ZExt => { if from == to { return a; } if !t.single() { if let Op::Cast(CastOp::ZExt) = t.op { return cast(CastOp::ZExt, t.from_w, to, t.args[0]); } } }
                CastOp::UIToFP if to == 64 && !t.single() && t.ub < 1 << 53 => return int_f64(zext(a, from, 64)),
                CastOp::SIToFP if to == 64 && !t.single() && t.ub < 1 << 53 && t.ub < (1u64 << (from - 1)) => return int_f64(zext(a, from, 64)),
                _ => {}
            }
            mk(Op::Cast(op), to, from, &[a], 0)
        }
    }
}
pub fn ite(w: u16, c: V, a: V, b: V) -> V {
    match c { V::C(x) => if x & 1 == 1 { a } else { b }, _ => { if a.key() == b.key() { return a; } if w == 1 { if let (V::C(1), V::C(0)) = (a, b) { return c; } if let (V::C(0), V::C(1)) = (a, b) { return not(c); } } mk(Op::Ite, w, 1, &[c, a, b], 0) } }
}
pub fn is_single_set(vs: &[V]) -> bool {
    let mut s = 0u64; for v in vs { if let V::S(t) = v { if !t.single() { return false; } s |= t.syms; } } s.count_ones() <= 1
}
