//! SMT back end: one `z3 -in` process per worker / verifier thread, fed SMT-LIB2 text.
use crate::ir::{mask, BinOp, CastOp, FPred, Pred};
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static SOLVER_NS: AtomicU64 = AtomicU64::new(0);
pub static SAT: AtomicU64 = AtomicU64::new(0);
pub static UNSAT: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Smt { child: Child, inp: ChildStdin, out: BufReader<ChildStdout>, defined: HashSet<u32>, declared: HashSet<u8>, buf: String, cache: HashMap<Vec<u64>, (Res, Vec<(u8, u64)>)>, pending: usize, pending_info: Vec<String>, log: Option<std::fs::File>, gsub: Option<Vec<(u8, u64)>>, glist: Vec<(u32, String)>, gdef: HashSet<u32> }

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        let cmd = std::env::var("SYMEX_Z3").unwrap_or_else(|_| if std::env::var("PATH").unwrap_or_default().split(':').any(|d| std::path::Path::new(d).join("z3-new").exists()) { "z3-new".into() } else { "z3".into() });
        let mut child = Command::new(&cmd).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("cannot start solver {}: {}", cmd, e));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let log = std::env::var("SYMEX_SMTLOG").ok().map(|p| std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap());
        let mut s = Smt { child, inp, out, defined: HashSet::new(), declared: HashSet::new(), buf: String::new(), cache: HashMap::new(), pending: 0, pending_info: vec![], log, gsub: None, glist: vec![], gdef: HashSet::new() };
        s.buf.push_str(&format!("(set-option :timeout {})\n(set-option :global-declarations true)\n", timeout_ms));
        s
    }
    fn v(&mut self, v: &V, w: u16) -> String {
        match v { V::C(c) => bv(*c, w), V::S(t) => { if self.gsub.is_some() { self.gdefine(t); return format!("g{}", t.id); } self.define(t); format!("t{}", t.id) } V::W(_) => "wide".into() }
    }
    fn gdefine(&mut self, t: &'static Term) {
        if !self.gdef.insert(t.id) { return; }
        let e = if t.op == Op::Sym { let v = self.gsub.as_ref().unwrap().iter().find(|x| x.0 == t.sym).map(|x| x.1).unwrap_or(0); bv(v, 32) } else { self.expr(t) };
        self.glist.push((t.id, e));
    }
    /// closed SMT-LIB term: t under a full assignment of its symbols
    pub fn ground(&mut self, t: &'static Term, asg: Vec<(u8, u64)>) -> String {
        self.gsub = Some(asg); self.glist.clear(); self.gdef.clear();
        self.gdefine(t);
        self.gsub = None;
        let l = std::mem::take(&mut self.glist);
        let mut s = String::new(); let n = l.len();
        for (id, e) in l { s.push_str(&format!("(let ((g{} {})) ", id, e)); }
        s.push_str(&format!("g{}", t.id));
        for _ in 0..n { s.push(')'); }
        s
    }
    pub fn define(&mut self, t: &'static Term) {
        if self.defined.contains(&t.id) { return; }
        for a in &t.args { if let V::S(x) = a { self.define(x); } }
        self.defined.insert(t.id);
        let e = self.expr(t);
        self.buf.push_str(&format!("(define-fun t{} () (_ BitVec {}) {})\n", t.id, t.w, e));
    }
    fn declare(&mut self, i: u8) {
        if self.declared.insert(i) { self.buf.push_str(&format!("(declare-const s{} (_ BitVec 32))\n", i)); }
    }
    fn expr(&mut self, t: &'static Term) -> String {
        let w = t.w; let fw = t.from_w;
        let b1 = |s: String| format!("(ite {} #b1 #b0)", s);
        match t.op {
            Op::Sym => { self.declare(t.sym); format!("s{}", t.sym) }
            Op::Bin(o) => {
                let (a, b) = (self.v(&t.args[0], w), self.v(&t.args[1], w));
                use BinOp::*;
                match o {
                    Add => format!("(bvadd {} {})", a, b), Sub => format!("(bvsub {} {})", a, b), Mul => format!("(bvmul {} {})", a, b),
                    UDiv => format!("(bvudiv {} {})", a, b), SDiv => format!("(bvsdiv {} {})", a, b), URem => format!("(bvurem {} {})", a, b), SRem => format!("(bvsrem {} {})", a, b),
                    And => format!("(bvand {} {})", a, b), Or => format!("(bvor {} {})", a, b), Xor => format!("(bvxor {} {})", a, b),
                    Shl => format!("(bvshl {} {})", a, b), LShr => format!("(bvlshr {} {})", a, b), AShr => format!("(bvashr {} {})", a, b),
                    FAdd | FSub | FMul | FDiv => { let n = match o { FAdd => "fp.add", FSub => "fp.sub", FMul => "fp.mul", _ => "fp.div" }; let nan = bv(if w == 64 { 0x7ff8 << 48 } else { 0x7fc0 << 16 }, w); format!("(let ((fr ({} RNE {} {}))) (ite (fp.isNaN fr) {} (fp.to_ieee_bv fr)))", n, fp(&a, w), fp(&b, w), nan) }
                    FRem => self.opaque(t),
                }
            }
            Op::Cmp(p) => {
                let (a, b) = (self.v(&t.args[0], fw), self.v(&t.args[1], fw));
                b1(match p { Pred::Eq => format!("(= {} {})", a, b), Pred::Ult => format!("(bvult {} {})", a, b), Pred::Slt => format!("(bvslt {} {})", a, b), Pred::Ne => format!("(distinct {} {})", a, b), Pred::Ule => format!("(bvule {} {})", a, b), Pred::Ugt => format!("(bvugt {} {})", a, b), Pred::Uge => format!("(bvuge {} {})", a, b), Pred::Sle => format!("(bvsle {} {})", a, b), Pred::Sgt => format!("(bvsgt {} {})", a, b), Pred::Sge => format!("(bvsge {} {})", a, b) })
            }
            Op::FCmp(p) => {
                let (a, b) = (self.v(&t.args[0], fw), self.v(&t.args[1], fw));
                let (x, y) = (fp(&a, fw), fp(&b, fw));
                let un = format!("(or (fp.isNaN {}) (fp.isNaN {}))", x, y);
                let r = match p { FPred::False => "false".into(), FPred::True => "true".into(), FPred::Oeq => format!("(fp.eq {} {})", x, y), FPred::Ogt => format!("(fp.gt {} {})", x, y), FPred::Oge => format!("(fp.geq {} {})", x, y), FPred::Olt => format!("(fp.lt {} {})", x, y), FPred::Ole => format!("(fp.leq {} {})", x, y),
                    FPred::One => format!("(and (not {}) (not (fp.eq {} {})))", un, x, y), FPred::Ord => format!("(not {})", un), FPred::Uno => un.clone(),
                    FPred::Ueq => format!("(or {} (fp.eq {} {}))", un, x, y), FPred::Ugt => format!("(or {} (fp.gt {} {}))", un, x, y), FPred::Uge => format!("(or {} (fp.geq {} {}))", un, x, y), FPred::Ult => format!("(or {} (fp.lt {} {}))", un, x, y), FPred::Ule => format!("(or {} (fp.leq {} {}))", un, x, y), FPred::Une => format!("(not (fp.eq {} {}))", x, y) };
                b1(r)
            }
            Op::Cast(c) => {
                let a = self.v(&t.args[0], fw);
                match c {
                    CastOp::ZExt => format!("((_ zero_extend {}) {})", w - fw, a), CastOp::SExt => format!("((_ sign_extend {}) {})", w - fw, a),
                    CastOp::Trunc => format!("((_ extract {} 0) {})", w - 1, a), CastOp::Bit => a,
                    CastOp::UIToFP if w == 64 => format!("(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE {}))", a),
                    CastOp::SIToFP if w == 64 => format!("(fp.to_ieee_bv ((_ to_fp 11 53) RNE {}))", a),
                    _ => self.opaque(t),
                }
            }
            Op::Extract(lo) => { let a = self.v(&t.args[0], fw); format!("((_ extract {} {}) {})", lo + w - 1, lo, a) }
            Op::Concat => { let a = self.v(&t.args[0], w - fw); let b = self.v(&t.args[1], fw); format!("(concat {} {})", a, b) }
            Op::Ite => { let c = self.v(&t.args[0], 1); let a = self.v(&t.args[1], w); let b = self.v(&t.args[2], w); format!("(ite (= {} #b1) {} {})", c, a, b) }
            Op::BoolAnd => { let a = self.v(&t.args[0], 1); let b = self.v(&t.args[1], 1); format!("(bvand {} {})", a, b) }
            Op::Table => {
                let a = self.v(&t.args[0], 64);
                let tb = table(t.aux);
                let mut s = bv(0, w);
                for (ad, val) in tb.iter().rev() { s = format!("(ite (= {} {}) {} {})", a, bv(*ad, 64), bv(*val, w), s); }
                s
            }
            Op::IntF64 => { let a = self.v(&t.args[0], 64); format!("(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE {}))", a) }
            Op::Intr(k) => {
                let a: Vec<String> = (0..t.args.len()).map(|i| { let x = t.args[i]; self.v(&x, fw) }).collect();
                match k {
                    I_UMAX => format!("(ite (bvuge {} {}) {} {})", a[0], a[1], a[0], a[1]), I_UMIN => format!("(ite (bvule {} {}) {} {})", a[0], a[1], a[0], a[1]),
                    I_SMAX => format!("(ite (bvsge {} {}) {} {})", a[0], a[1], a[0], a[1]), I_SMIN => format!("(ite (bvsle {} {}) {} {})", a[0], a[1], a[0], a[1]),
                    I_SADDSAT | I_SSUBSAT => { let (op, of) = if k == I_SADDSAT { ("bvadd", "bvsaddo") } else { ("bvsub", "bvssubo") }; let hi = (1u64 << (fw - 1)) - 1; let _ = of;
                        let x = |s: &str| format!("((_ sign_extend 1) {})", s); let r = format!("({} {} {})", op, x(&a[0]), x(&a[1]));
                        let (h, l) = (bv(hi, fw + 1), format!("((_ sign_extend 1) {})", bv(1u64 << (fw - 1), fw)));
                        format!("(ite (bvsgt {r} {h}) {} (ite (bvslt {r} {l}) {} ({op} {} {})))", bv(hi, fw), bv(1u64 << (fw - 1), fw), a[0], a[1]) }
                    I_USUBSAT => format!("(ite (bvult {} {}) {} (bvsub {} {}))", a[0], a[1], bv(0, fw), a[0], a[1]),
                    I_UADDO => b1(format!("(bvult (bvadd {} {}) {})", a[0], a[1], a[0])), I_USUBO => b1(format!("(bvult {} {})", a[0], a[1])),
                    I_UMULO if fw <= 64 => b1(format!("(not (= ((_ extract {} {}) (bvmul ((_ zero_extend {}) {}) ((_ zero_extend {}) {}))) {}))", 2 * fw - 1, fw, fw, a[0], fw, a[1], bv(0, fw))),
                    I_SADDO => b1(format!("(not (= ((_ sign_extend 1) (bvadd {} {})) (bvadd ((_ sign_extend 1) {}) ((_ sign_extend 1) {}))))", a[0], a[1], a[0], a[1])),
                    I_SSUBO => b1(format!("(not (= ((_ sign_extend 1) (bvsub {} {})) (bvsub ((_ sign_extend 1) {}) ((_ sign_extend 1) {}))))", a[0], a[1], a[0], a[1])),
                    I_SMULO => b1(format!("(not (= ((_ sign_extend {}) (bvmul {} {})) (bvmul ((_ sign_extend {}) {}) ((_ sign_extend {}) {}))))", fw, a[0], a[1], fw, a[0], fw, a[1])),
                    I_UCMP => format!("(ite (bvult {} {}) {} (ite (= {} {}) {} {}))", a[0], a[1], bv(mask(w), w), a[0], a[1], bv(0, w), bv(1, w)),
                    I_SCMP => format!("(ite (bvslt {} {}) {} (ite (= {} {}) {} {}))", a[0], a[1], bv(mask(w), w), a[0], a[1], bv(0, w), bv(1, w)),
                    I_FNEG => format!("(bvxor {} {})", a[0], bv(1u64 << (fw - 1), fw)),
                    _ => self.opaque(t),
                }
            }
            Op::Narrow => {
                let a = self.v(&t.args[0], w);
                let x = if let V::S(x) = t.args[0] { x } else { unreachable!() };
                let d = dom_by_id(t.aux); let f = bv(x.vals.as_ref().unwrap()[d.first()], w);
                match self.gsub.as_ref().map(|g| g.iter().find(|y| y.0 == t.sym).map(|y| y.1).unwrap_or(0)) {
                    Some(v) => if d.has(v as usize) { a } else { f },
                    None => { let c = self.in_dom(t.sym, d); format!("(ite {} {} {})", c, a, f) }
                }
            }
        }
    }
    /// single-symbol operation with no SMT counterpart: value table over the symbol
    fn opaque(&mut self, t: &'static Term) -> String {
        let sy = t.sym;
        self.declare(sy);
        let full: Vec<u64> = match &t.vals { Some(v) if !v.is_empty() => v.clone(), _ => return "opaque".into() };
        let mut s = bv(*full.last().unwrap(), t.w);
        for (i, v) in full.iter().enumerate().rev().skip(1) { s = format!("(ite (= s{} {}) {} {})", sy, bv(i as u64, 32), bv(*v, t.w), s); }
        s
    }
    pub fn in_dom(&mut self, sy: u8, d: &Dom) -> String {
        self.declare(sy);
        let n = sym_info(sy).n as usize;
        // ranges
        let mut rs = vec![]; let mut i = 0;
        while i < n { if d.has(i) { let st = i; while i < n && d.has(i) { i += 1; } rs.push((st, i - 1)); } else { i += 1; } }
        let mut s = String::from("(or false");
        for (a, b) in rs { if a == b { s.push_str(&format!(" (= s{} {})", sy, bv(a as u64, 32))); } else { s.push_str(&format!(" (and (bvule {} s{}) (bvule s{} {}))", bv(a as u64, 32), sy, sy, bv(b as u64, 32))); } }
        s.push(')');
        s
    }
    fn flush(&mut self) {
        if let Some(l) = &mut self.log { let _ = l.write_all(self.buf.as_bytes()); }
        self.inp.write_all(self.buf.as_bytes()).expect("solver died");
        self.inp.flush().expect("solver died");
        self.buf.clear();
    }
    fn read_line(&mut self) -> String { let mut l = String::new(); loop { l.clear(); if self.out.read_line(&mut l).unwrap_or(0) == 0 { return "(error eof)".into(); } if !l.trim().is_empty() { return l.trim().to_string(); } } }
    /// queue an expected-unsat query
    pub fn queue(&mut self, asserts: &[String], info: String) {
        self.buf.push_str("(push)\n");
        for a in asserts { self.buf.push_str(&format!("(assert {})\n", a)); }
        self.buf.push_str("(check-sat)\n(pop)\n");
        self.pending += 1; self.pending_info.push(info);
    }
    /// collect results of queued queries; Err on anything but unsat
    pub fn drain(&mut self) -> Result<(), String> {
        if self.pending == 0 { return Ok(()); }
        let t0 = Instant::now();
        self.flush();
        let infos = std::mem::take(&mut self.pending_info);
        let n = self.pending; self.pending = 0;
        let mut err = None;
        for info in infos.iter().take(n) {
            let l = self.read_line();
            QUERIES.fetch_add(1, Ordering::Relaxed);
            if l == "unsat" { UNSAT.fetch_add(1, Ordering::Relaxed); } else if err.is_none() { err = Some(format!("solver answered {} to {}", l, info)); if l.contains("error") { break; } }
        }
        SOLVER_NS.fetch_add(t0.elapsed().as_nanos() as u64, Ordering::Relaxed);
        match err { None => Ok(()), Some(e) => Err(e) }
    }
    /// synchronous satisfiability of constraints over several symbols, with a model
    pub fn check(&mut self, doms: &[(u8, &'static Dom)], cons: &[&'static Term]) -> (Res, Vec<(u8, u64)>) {
        let mut key: Vec<u64> = doms.iter().map(|(s, d)| (*s as u64) << 32 | d.id as u64).collect();
        key.push(u64::MAX);
        let mut ck: Vec<u64> = cons.iter().map(|t| t.id as u64).collect(); ck.sort();
        key.extend(ck);
        if let Some(r) = self.cache.get(&key) { return r.clone(); }
        let t0 = Instant::now();
        for c in cons { self.define(c); }
        let ds: Vec<String> = doms.iter().map(|(s, d)| self.in_dom(*s, d)).collect();
        self.buf.push_str("(push)\n");
        for d in ds { self.buf.push_str(&format!("(assert {})\n", d)); }
        for c in cons { self.buf.push_str(&format!("(assert (= t{} #b1))\n", c.id)); }
        self.buf.push_str("(check-sat)\n");
        self.flush();
        let l = self.read_line();
        QUERIES.fetch_add(1, Ordering::Relaxed);
        let res = match l.as_str() { "sat" => Res::Sat, "unsat" => Res::Unsat, _ => { eprintln!("solver: {}", l); Res::Unknown } };
        let mut model = vec![];
        if res == Res::Sat {
            SAT.fetch_add(1, Ordering::Relaxed);
            for (s, _) in doms {
                self.buf.push_str(&format!("(get-value (s{}))\n", s)); self.flush();
                let l = self.read_line();
                // ((s0 #x00000001))
                let v = l.find('#').and_then(|p| { let r = &l[p + 1..]; let e = r.find(')').unwrap_or(r.len()); if r.starts_with('x') { u64::from_str_radix(&r[1..e], 16).ok() } else { u64::from_str_radix(&r[1..e], 2).ok() } });
                model.push((*s, v.unwrap_or(0)));
            }
        } else if res == Res::Unsat { UNSAT.fetch_add(1, Ordering::Relaxed); }
        self.buf.push_str("(pop)\n");
        SOLVER_NS.fetch_add(t0.elapsed().as_nanos() as u64, Ordering::Relaxed);
        if std::env::var("SYMEX_DBG").is_ok() && (t0.elapsed().as_millis() > 300 || QUERIES.load(Ordering::Relaxed) % 2000 == 7) { eprintln!("slow {:?} {:.1}s {} cons; last: {}", res, t0.elapsed().as_secs_f64(), cons.len(), show(cons[cons.len() - 1], 6)); }
        if self.cache.len() > 200_000 { self.cache.clear(); }
        if res != Res::Unknown { self.cache.insert(key, (res, model.clone())); }
        (res, model)
    }
}
impl Drop for Smt { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
fn bv(c: u64, w: u16) -> String { if w == 1 { return format!("#b{}", c & 1); } format!("(_ bv{} {})", c & mask(w), w) }
fn fp(a: &str, w: u16) -> String { if w == 64 { format!("((_ to_fp 11 53) {})", a) } else { format!("((_ to_fp 8 24) {})", a) } }

/// Claims made by the value-set propagation, discharged asynchronously.
pub enum Claim { Split { dom: &'static Dom, t: &'static Term, val: u64, part: &'static Dom }, Eval { asg: Vec<(u8, u64)>, t: &'static Term, val: u64 } }
pub static CLAIMS: Mutex<Vec<Claim>> = Mutex::new(Vec::new());
pub static CLAIM_SEEN: Mutex<Option<HashSet<(u32, u32, u64)>>> = Mutex::new(None);
static CANON_SEEN: Mutex<Option<HashSet<(u32, u64)>>> = Mutex::new(None);
pub static OPAQUE: AtomicU64 = AtomicU64::new(0);
pub static FACTS: AtomicU64 = AtomicU64::new(0);

/// "for every symbol value in dom: t = val exactly when the symbol is in part"; stated once up to renaming of the symbol
pub fn claim_split(dom: &'static Dom, t: &'static Term, val: u64, part: &'static Dom) {
    let al = alpha(t);
    let mut g = CLAIM_SEEN.lock().unwrap();
    if g.get_or_insert_with(HashSet::new).insert((dom.id, al, val)) { CLAIMS.lock().unwrap().push(Claim::Split { dom, t, val, part }); }
}

static EVAL_SEEN: Mutex<Option<HashSet<(u32, Vec<(u8, u64)>)>>> = Mutex::new(None);
/// "under this full assignment of its symbols t evaluates to val"
pub fn claim_eval(asg: Vec<(u8, u64)>, t: &'static Term, val: u64) {
    let mut g = EVAL_SEEN.lock().unwrap();
    if g.get_or_insert_with(HashSet::new).insert((t.id, asg.clone())) { CLAIMS.lock().unwrap().push(Claim::Eval { asg, t, val }); }
}

const BATCH: usize = 24;
pub fn verifier(done: &std::sync::atomic::AtomicBool) -> Result<(), String> {
    let mut smt = Smt::new(60000);
    loop {
        let fin = done.load(Ordering::SeqCst);
        let cl: Vec<Claim> = { let mut g = CLAIMS.lock().unwrap(); let n = g.len().saturating_sub(96); g.split_off(n) };
        let cn: Vec<Canon> = { let mut g = CANON.lock().unwrap(); let n = g.len().saturating_sub(96); g.split_off(n) };
        if cl.is_empty() && cn.is_empty() { if fin { return Ok(()); } std::thread::sleep(std::time::Duration::from_millis(3)); continue; }
        let mut bad: Vec<(String, String)> = vec![];
        for c in cl {
            match c {
                Claim::Split { dom, t, val, part } => {
                    if !t.enc { OPAQUE.fetch_add(1, Ordering::Relaxed); continue; }
                    if t.fp {
                        for i in dom.iter() { let g = smt.ground(t, vec![(t.sym, i as u64)]); let e = format!("(= {} {})", g, bv(val, t.w)); bad.push((if part.has(i) { format!("(not {})", e) } else { e }, format!("split t{} at {}", t.id, i))); }
                        continue;
                    }
                    smt.define(t);
                    let d = smt.in_dom(t.sym, dom); let p = smt.in_dom(t.sym, part);
                    bad.push((format!("(and {} (xor (= t{} {}) {}))", d, t.id, bv(val, t.w), p), format!("split t{} = {} over s{}", t.id, val, t.sym)));
                }
                Claim::Eval { asg, t, val } => {
                    if !t.enc { OPAQUE.fetch_add(1, Ordering::Relaxed); continue; }
                    let g = smt.ground(t, asg);
                    bad.push((format!("(not (= {} {}))", g, bv(val, t.w)), format!("value t{} = {}", t.id, val)));
                }
            }
        }
        for c in cn {
            let (t, key) = match c { Canon::ToConst(t, v) => (t, v | 1 << 63), Canon::ToTerm(t, u) => (t, alpha(u) as u64) };
            let enc = t.enc && match c { Canon::ToTerm(_, u) => u.enc, _ => true };
            if !enc { OPAQUE.fetch_add(1, Ordering::Relaxed); continue; }
            let al = alpha(t);
            if !CANON_SEEN.lock().unwrap().get_or_insert_with(HashSet::new).insert((al, key)) { continue; }
            let full = full_dom(sym_info(t.sym).n);
            if t.fp {
                for i in full.iter() {
                    let g = smt.ground(t, vec![(t.sym, i as u64)]);
                    let h = match c { Canon::ToConst(_, v) => bv(v, t.w), Canon::ToTerm(_, u) => bv(u.vals.as_ref().unwrap()[i], t.w) };
                    bad.push((format!("(not (= {} {}))", g, h), format!("canonical t{} at {}", t.id, i)));
                }
                continue;
            }
            smt.define(t);
            let rhs = match c { Canon::ToTerm(_, u) => { smt.define(u); format!("t{}", u.id) } Canon::ToConst(_, v) => bv(v, t.w) };
            let d = smt.in_dom(t.sym, full);
            bad.push((format!("(and {} (not (= t{} {})))", d, t.id, rhs), format!("canonical t{} {:?}", t.id, t.op)));
        }
        FACTS.fetch_add(bad.len() as u64, Ordering::Relaxed);
        for ch in bad.chunks(BATCH) {
            let q = format!("(or {})", ch.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" "));
            let info = ch.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; ");
            smt.queue(&[if ch.len() == 1 { ch[0].0.clone() } else { q }], info);
        }
        smt.drain()?;
    }
}
pub fn encodable_op(op: Op, w: u16, args: &[V]) -> bool {
    match op { Op::Bin(BinOp::FRem) => false, Op::Bin(BinOp::UDiv) | Op::Bin(BinOp::URem) | Op::Bin(BinOp::SDiv) | Op::Bin(BinOp::SRem) => matches!(args[1], V::C(c) if c != 0), Op::Cast(CastOp::FPToUI) | Op::Cast(CastOp::FPToSI) | Op::Cast(CastOp::FPExt) | Op::Cast(CastOp::FPTrunc) => false,
        Op::Cast(CastOp::UIToFP) | Op::Cast(CastOp::SIToFP) => w == 64, Op::Bin(BinOp::Shl) | Op::Bin(BinOp::LShr) | Op::Bin(BinOp::AShr) => true,
        Op::Intr(k) => matches!(k, I_UMAX | I_UMIN | I_SMAX | I_SMIN | I_USUBSAT | I_SADDSAT | I_SSUBSAT | I_UADDO | I_USUBO | I_UMULO | I_SADDO | I_SSUBO | I_SMULO | I_UCMP | I_SCMP | I_FNEG), _ => true }
}

pub fn show(t: &'static Term, d: usize) -> String {
    if t.single() { return format!("s{}'{}", t.sym, t.id); }
    if d == 0 { return format!("..u{:b}", t.syms); }
    format!("{:?}.{}({})", t.op, t.w, t.args.iter().map(|a| match a { V::C(c) => format!("{:x}", c), V::S(x) => show(x, d - 1), V::W(_) => "W".into() }).collect::<Vec<_>>().join(","))
}
