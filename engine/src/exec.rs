//! Symbolic interpreter.
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone)]
pub struct Frame { pub f: u32, pub code: &'static Code, pub pc: u32, pub base: u32, pub sp: u64, pub dst: u32, pub nret: u32, pub marker: bool, pub step_limit: u64 }

#[derive(Clone)]
pub struct State {
    pub mem: Mem, pub regs: Vec<V>, pub frames: Vec<Frame>,
    pub doms: Vec<&'static Dom>, pub cons: Vec<&'static Term>, pub known: Vec<(u32, u64)>,
    pub nsym: usize, pub steps: u64, pub limit: u64, pub note: Option<Arc<Vec<V>>>, pub covers: u64, pub forks: u32, pub clock: u64,
}

pub enum Stop {
    Dom(u8, Vec<&'static Dom>),
    Cond(&'static Term),
    Val(&'static Term),
    Split(u64),
    Infeasible,
    End,
    Assume,
    Violation(u64, String),
    Err(String),
}
impl From<String> for Stop { fn from(s: String) -> Stop { Stop::Err(s) } }
type R<T> = Result<T, Stop>;

pub struct Worker {
    pub m: &'static Module, pub smt: Smt,
    split_cache: HashMap<(u32, u32), (&'static Dom, &'static Dom)>,
    val_cache: HashMap<(u32, u32), Option<u64>>,
    part_cache: HashMap<(u32, u32), Vec<(u64, &'static Dom)>>,
    ld_cache: HashMap<(u32, u32, u16), V>,
    pub cov: Vec<Vec<u8>>, pub insts: u64,
    pub panics: HashMap<String, u64>,
}

fn sub_dom(a: &Dom, b: &Dom) -> &'static Dom { mk_dom(a.bits.iter().zip(b.bits.iter()).map(|(x, y)| x & !y).collect()) }
fn and_dom(a: &Dom, b: &Dom) -> &'static Dom { mk_dom(a.bits.iter().zip(b.bits.iter()).map(|(x, y)| x & y).collect()) }

fn crate_of(name: &str) -> &str {
    // first "Cs<hash>_<len><ident>" of a v0-mangled name
    let b = name.as_bytes();
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'C' && (b[i + 1] == b's') {
            if let Some(u) = name[i + 2..].find('_') {
                let j = i + 2 + u + 1;
                let mut k = j; while k < b.len() && b[k].is_ascii_digit() { k += 1; }
                if k > j && name[i + 2..j - 1].bytes().all(|c| c.is_ascii_alphanumeric()) { if let Ok(n) = name[j..k].parse::<usize>() { if k + n <= b.len() { return &name[k..k + n]; } } }
            }
        }
        i += 1;
    }
    ""
}

impl Worker {
    pub fn new(m: &'static Module) -> Worker {
        Worker { m, smt: Smt::new(5000), split_cache: HashMap::new(), val_cache: HashMap::new(), part_cache: HashMap::new(), ld_cache: HashMap::new(), cov: vec![vec![]; m.funcs.len()], insts: 0, panics: HashMap::new() }
    }
    pub fn initial(&self, entry: u32) -> State {
        let code: &'static Code = self.m.code(entry);
        State { mem: Mem::new(self.m), regs: vec![V::C(0); code.nregs as usize], frames: vec![Frame { f: entry, code, pc: 0, base: 0, sp: STACK_BASE, dst: 0, nret: 0, marker: false, step_limit: 0 }], doms: vec![], cons: vec![], known: vec![], nsym: 0, steps: 0, limit: u64::MAX, note: None, covers: 0, forks: 0, clock: 0 }
    }

    // ---- path condition -------------------------------------------------
    fn split(&mut self, d: &'static Dom, t: &'static Term) -> (&'static Dom, &'static Dom) {
        if let Some(r) = self.split_cache.get(&(d.id, t.id)) { return *r; }
        let tr = truth(t);
        let a = and_dom(d, tr); let b = sub_dom(d, tr);
        claim_split(d, t, 1, a);
        self.split_cache.insert((d.id, t.id), (a, b));
        (a, b)
    }
    /// constant value of a term under the current domains, if decided without the solver
    fn dom_const(&mut self, st: &State, t: &'static Term) -> Option<u64> {
        if t.single() {
            let d = st.doms[t.sym as usize];
            if let Some(r) = self.val_cache.get(&(d.id, t.id)) { return *r; }
            let vs = t.vals.as_ref().unwrap();
            let v0 = vs[d.first()];
            let r = if d.iter().all(|i| vs[i] == v0) { claim_split(d, t, v0, d); Some(v0) } else { None };
            self.val_cache.insert((d.id, t.id), r);
            return r;
        }
        if let Some(k) = st.known.iter().find(|k| k.0 == t.id) { return Some(k.1); }
        self.fixed(st, t)
    }
    /// value of a term over several symbols all of whose domains are singletons
    fn fixed(&mut self, st: &State, t: &'static Term) -> Option<u64> {
        let mut m = t.syms;
        while m != 0 { let i = m.trailing_zeros() as usize; if st.doms[i].count != 1 { return None; } m &= m - 1; }
        let v = eval_t(t, &|s| st.doms[s as usize].first() as u64);
        let mut m = t.syms; let mut asg = vec![];
        while m != 0 { let i = m.trailing_zeros() as usize; asg.push((i as u8, st.doms[i].first() as u64)); m &= m - 1; }
        claim_eval(asg, t, v);
        Some(v)
    }
    fn relevant(&self, st: &State, seed: u64) -> (Vec<(u8, &'static Dom)>, Vec<&'static Term>) {
        let mut m = seed; let mut cs: Vec<&'static Term> = vec![]; let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() { if !used[i] && c.syms & m != 0 { used[i] = true; m |= c.syms; cs.push(c); ch = true; } }
            if !ch { break; }
        }
        ((0..st.doms.len()).filter(|i| m >> i & 1 == 1).map(|i| (i as u8, st.doms[i])).collect(), cs)
    }
    pub fn feasible(&mut self, st: &State, seed: u64) -> R<bool> {
        let (d, c) = self.relevant(st, seed);
        if c.is_empty() { return Ok(true); }
        match self.smt.check(&d, &c).0 { Res::Sat => Ok(true), Res::Unsat => Ok(false), Res::Unknown => Ok(true) /* kept: later queries split further */ }
    }
    pub fn feasible_with(&mut self, st: &State, t: &'static Term) -> R<Option<Vec<(u8, u64)>>> {
        let (d, mut c) = self.relevant(st, t.syms);
        c.push(t);
        let r = self.smt.check(&d, &c);
        match r.0 { Res::Sat => Ok(Some(r.1)), Res::Unsat => Ok(None), Res::Unknown => Err(Stop::Split(t.syms)) }
    }
    fn cond(&mut self, st: &mut State, v: V) -> R<bool> {
        let t = match v { V::C(c) => return Ok(c & 1 == 1), V::S(t) => t, V::W(_) => return Err(Stop::Err("wide cond".into())) };
        if t.single() {
            let d = st.doms[t.sym as usize];
            let (a, b) = self.split(d, t);
            if a.count == 0 { return Ok(false); }
            if b.count == 0 { return Ok(true); }
            return Err(Stop::Dom(t.sym, vec![a, b]));
        }
        if let Some(k) = st.known.iter().find(|k| k.0 == t.id) { return Ok(k.1 & 1 == 1); }
        if let Some(v) = self.fixed(st, t) { return Ok(v & 1 == 1); }
        match t.op {
            Op::BoolAnd => { return Ok(self.cond(st, t.args[0])? && self.cond(st, t.args[1])?); }
            Op::Bin(BinOp::And) if t.w == 1 => { return Ok(self.cond(st, t.args[0])? && self.cond(st, t.args[1])?); }
            Op::Bin(BinOp::Or) if t.w == 1 => { return Ok(self.cond(st, t.args[0])? || self.cond(st, t.args[1])?); }
            Op::Bin(BinOp::Xor) if t.w == 1 => { let a = self.cond(st, t.args[0])?; let b = self.cond(st, t.args[1])?; return Ok(a != b); }
            Op::Ite if t.w == 1 => { let c = self.cond(st, t.args[0])?; return self.cond(st, t.args[if c { 1 } else { 2 }]); }
            _ => {}
        }
        let nt = match not(V::S(t)) { V::S(n) => n, V::C(c) => return Ok(c == 0), _ => unreachable!() };
        // the path condition is satisfiable (every fork checks its children), so one unsat side decides
        if self.feasible_with(st, nt)?.is_none() { st.known.push((t.id, 1)); return Ok(true); }
        if self.feasible_with(st, t)?.is_none() { st.known.push((t.id, 0)); return Ok(false); }
        Err(Stop::Cond(t))
    }
    fn partition(&mut self, d: &'static Dom, t: &'static Term) -> Vec<(u64, &'static Dom)> {
        if let Some(p) = self.part_cache.get(&(d.id, t.id)) { return p.clone(); }
        let vs = t.vals.as_ref().unwrap();
        let mut m: Vec<(u64, Vec<u64>)> = vec![]; let mut ix: HashMap<u64, usize> = HashMap::new();
        for i in d.iter() { let v = vs[i]; let k = *ix.entry(v).or_insert_with(|| { m.push((v, vec![0; d.bits.len()])); m.len() - 1 }); m[k].1[i / 64] |= 1 << (i % 64); }
        let r: Vec<(u64, &'static Dom)> = m.into_iter().map(|(v, b)| (v, mk_dom(b))).collect();
        for (v, p) in &r { claim_split(d, t, *v, p); }
        self.part_cache.insert((d.id, t.id), r.clone());
        r
    }
    fn conc(&mut self, st: &mut State, v: V) -> R<u64> {
        let t = match v { V::C(c) => return Ok(c), V::S(t) => t, V::W(x) => return Ok(*x as u64) };
        if let Some(c) = self.dom_const(st, t) { return Ok(c); }
        if t.single() {
            let p = self.partition(st.doms[t.sym as usize], t);
            if p.len() == 1 { return Ok(p[0].0); }
            if p.len() > 70000 { return Err(Stop::Err("too many values".into())); }
            return Err(Stop::Dom(t.sym, p.into_iter().map(|x| x.1).collect()));
        }
        Err(Stop::Val(t))
    }

    // ---- values ------------------------------------------------------------
    #[inline(always)]
    fn get(st: &State, base: usize, o: Opd) -> V { match o { Opd::R(r) => st.regs[base + r as usize], Opd::C(c) => V::C(c), Opd::W(w) => V::W(w) } }

    fn load_sym(&mut self, st: &mut State, addr: V, n: u32, bits: u16) -> R<V> {
        match addr {
            V::C(a) => { let v = st.mem.load(a, n, bits)?; if let V::S(t) = v { if t.single() && st.doms[t.sym as usize].count == 1 { if let Some(c) = self.dom_const(st, t) { return Ok(V::C(c)); } } } Ok(v) }
            V::W(_) => Err(Stop::Err("wide addr".into())),
            V::S(t) => {
                if let Some(a) = self.dom_const(st, t) { return Ok(st.mem.load(a, n, bits)?); }
                if t.single() && n <= 8 {
                    if let Some(v) = self.ld_cache.get(&(t.id, n, bits)) { return Ok(*v); }
                    let d = st.doms[t.sym as usize];
                    let vs = t.vals.as_ref().unwrap();
                    let full = vs.len() <= 1024;
                    let mut tb: Vec<(u64, u64)> = vec![]; let mut ok = true; let mut all_ro = true;
                    for i in 0..vs.len() {
                        let inside = d.has(i);
                        if !inside && !full { continue; }
                        let a = vs[i];
                        if !st.mem.mapped(a, n as u64) { if inside { return self.conc(st, addr).and_then(|a| Ok(st.mem.load(a, n, bits)?)); } continue; }
                        if !(a >= RO_BASE && a < RW_BASE) { all_ro = false; }
                        match st.mem.load(a, n, bits)? { V::C(c) => tb.push((a, c)), _ => { if inside { ok = false; break; } } }
                    }
                    if ok {
                        tb.sort(); tb.dedup();
                        let id = mk_table(tb);
                        let v = mk(Op::Table, bits, 64, &[addr], id);
                        if all_ro && full { self.ld_cache.insert((t.id, n, bits), v); }
                        return Ok(v);
                    }
                }
                let a = self.conc(st, addr)?;
                Ok(st.mem.load(a, n, bits)?)
            }
        }
    }

    fn select(&mut self, st: &mut State, w: u16, c: V, a: V, b: V) -> R<V> {
        let t = match c { V::C(x) => return Ok(if x & 1 == 1 { a } else { b }), V::S(t) => t, _ => return Err(Stop::Err("wide select".into())) };
        if let Some(k) = self.dom_const(st, t) { return Ok(if k & 1 == 1 { a } else { b }); }
        if a.key() == b.key() { return Ok(a); }
        if is_single_set(&[c, a, b]) && !matches!(a, V::W(_)) && !matches!(b, V::W(_)) { return Ok(ite(w, c, a, b)); }
        if w == 1 {
            if let V::C(0) = b { return Ok(and(c, a)); }
            if let V::C(1) = a { return Ok(not(and(not(c), not(b)))); }
            if let V::C(0) = a { return Ok(and(not(c), b)); }
            if let V::C(1) = b { return Ok(not(and(c, not(a)))); }
        }
        Ok(if self.cond(st, c)? { a } else { b })
    }

    fn bin(&mut self, st: &mut State, op: BinOp, w: u16, a: V, b: V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) { if w <= 64 { return bin_c(op, w, x, y).map(V::C).ok_or_else(|| Stop::Err("division by zero".into())); } }
        if w > 64 {
            // arithmetic wider than 64 bits: by case split over the values
            let (x, y) = (self.wide(st, a)?, self.wide(st, b)?);
            let m = if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
            let r = match op { BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y), BinOp::UDiv => { if y == 0 { return Err(Stop::Err("div0".into())); } x / y } BinOp::URem => { if y == 0 { return Err(Stop::Err("div0".into())); } x % y } BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y, BinOp::Shl => if y >= w as u128 { 0 } else { x << y }, BinOp::LShr => if y >= w as u128 { 0 } else { x >> y }, _ => return Err(Stop::Err("wide op".into())) } & m;
            return Ok(V::W(Box::leak(Box::new(r))));
        }
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) && !matches!(b, V::C(_)) { let c = self.conc(st, b)?; return self.bin(st, op, w, a, V::C(c)); }
        if !is_single_set(&[a, b]) { let (a, b) = (Self::tight(st, a), Self::tight(st, b)); return bin(op, w, a, b).ok_or_else(|| Stop::Err("bin".into())); }
        bin(op, w, a, b).ok_or_else(|| Stop::Err("bin".into()))
    }
    fn tight(st: &State, v: V) -> V { match v { V::S(t) if t.single() && t.w > 1 => narrow(t, st.doms[t.sym as usize]), v => v } }

    fn wide(&mut self, st: &mut State, v: V) -> R<u128> {
        Ok(match v { V::C(c) => c as u128, V::W(x) => *x, V::S(_) => self.conc(st, v)? as u128 })
    }
    /// load at a concrete address; symbolic bytes of a load wider than 64 bits are split into cases
    fn load_c(&mut self, st: &mut State, a: u64, n: u32, bits: u16) -> R<V> {
        if n > 8 {
            for i in 0..n as u64 { let b = st.mem.byte(a + i)?; if let V::S(_) = b { let c = self.conc(st, b)?; st.mem.store(a + i, 1, V::C(c))?; } }
        }
        Ok(st.mem.load(a, n, bits)?)
    }

    fn wide_cmp(&mut self, st: &mut State, p: Pred, a: V, b: V) -> R<V> {
        let (x, y) = (self.wide(st, a)?, self.wide(st, b)?);
        Ok(V::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => (x as i128) < y as i128, Pred::Sle => x as i128 <= y as i128, Pred::Sgt => x as i128 > y as i128, Pred::Sge => x as i128 >= y as i128 } as u64))
    }

    fn goto(&mut self, st: &mut State, e: &Edge) {
        let fi = st.frames.len() - 1;
        let base = st.frames[fi].base as usize;
        match e.moves.len() {
            0 => {}
            1 => { let v = Self::get(st, base, e.moves[0].1); st.regs[base + e.moves[0].0 as usize] = v; }
            _ => {
                let mut tmp: [V; 16] = [V::C(0); 16];
                if e.moves.len() <= 16 {
                    for (k, m) in e.moves.iter().enumerate() { tmp[k] = Self::get(st, base, m.1); }
                    for (k, m) in e.moves.iter().enumerate() { st.regs[base + m.0 as usize] = tmp[k]; }
                } else {
                    let t: Vec<V> = e.moves.iter().map(|m| Self::get(st, base, m.1)).collect();
                    for (k, m) in e.moves.iter().enumerate() { st.regs[base + m.0 as usize] = t[k]; }
                }
            }
        }
        let f = st.frames[fi].f as usize;
        let cv = &mut self.cov[f];
        if cv.len() <= e.block as usize { cv.resize(st.frames[fi].code.nblocks as usize, 0); }
        cv[e.block as usize] = 1;
        st.frames[fi].pc = e.target;
    }

    fn push_frame(&mut self, st: &mut State, f: u32, args: &[V], dst: u32, nret: u32) -> R<()> {
        let code: &'static Code = { let m: &'static Module = self.m; m.code(f) };
        if st.frames.len() > 20000 { return Err(Stop::Err("frame depth".into())); }
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + code.nregs as usize, V::C(0));
        for (k, p) in code.params.iter().enumerate() { if k < args.len() { st.regs[base as usize + *p as usize] = args[k]; } }
        st.frames.push(Frame { f, code, pc: 0, base, sp: st.mem.sp, dst, nret, marker: false, step_limit: 0 });
        let cv = &mut self.cov[f as usize];
        if cv.is_empty() { cv.resize(code.nblocks.max(1) as usize, 0); }
        cv[0] = 1;
        Ok(())
    }

    /// unwind to the innermost sym_try
    fn raise(&mut self, st: &mut State, code: u64, why: &str) -> R<()> {
        let k = match st.frames.iter().rposition(|f| f.marker) { Some(k) => k, None => return Err(Stop::Violation(900 + code, format!("uncaught panic: {}", why))) };
        *self.panics.entry(format!("{}:{}", code, why)).or_insert(0) += 1;
        let fr = st.frames[k].clone();
        st.mem.sp = fr.sp;
        st.frames.truncate(k);
        st.regs.truncate(fr.base as usize);
        st.limit = fr.step_limit;
        st.regs[fr.dst as usize] = V::C(code);
        Ok(())
    }

    fn panic(&mut self, st: &mut State, k: PanicKind, name: &str, args: &[V]) -> R<()> {
        let caller = { let f = st.frames.last().unwrap().f; &self.m.funcs[f as usize].name };
        let cr = crate_of(caller).to_string();
        let std_caller = matches!(cr.as_str(), "core" | "alloc" | "std");
        let rd = |st: &State, i: usize| -> Option<u64> { match args.get(i) { Some(V::C(c)) => Some(*c), _ => { let _ = st; None } } };
        let (code, why): (u64, String) = match k {
            PanicKind::Bounds => (if name.contains("bounds") { 2 } else { 5 }, name.rsplit("9panicking").next().unwrap_or(name).chars().take(40).collect()),
            PanicKind::Slice | PanicKind::StrSlice => (2, "slice index".into()),
            PanicKind::Overflow => (3, "arithmetic overflow".into()),
            PanicKind::OptionUnwrap => (4, "unwrap on None".into()),
            PanicKind::ResultUnwrap => (1, "unwrap on Err".into()),
            PanicKind::Begin => (1, "panic!".into()),
            PanicKind::Other => (5, name.chars().take(60).collect()),
            PanicKind::Str => {
                let msg = match (rd(st, 0), rd(st, 1)) { (Some(p), Some(n)) if n < 4096 => String::from_utf8_lossy(&st.mem.read_conc(p, n)?).into_owned(), _ => String::new() };
                if std_caller || msg.starts_with("internal error") || msg.starts_with("assertion") || msg.starts_with("attempt to") { (5, msg) } else { (1, msg) }
            }
            PanicKind::Fmt => {
                // fmt::Arguments is passed as (template, args); look into the template bytes
                let mut msg = String::new();
                if let Some(p) = rd(st, 0) {
                    if st.mem.mapped(p, 8) {
                        let mut b = vec![];
                        for i in 0..96 { if !st.mem.mapped(p + i, 1) { break; } match st.mem.byte(p + i)? { V::C(c) => b.push(c as u8), _ => break } }
                        msg = b.iter().map(|c| if (32..127).contains(c) { *c as char } else { '.' }).collect();
                    }
                }
                if std_caller { (5, format!("{} in {}", msg.chars().take(40).collect::<String>(), cr)) }
                else if msg.contains("internal error: entered") || msg.contains("assertion ") { (5, "unreachable/assertion".into()) }
                else { (1, msg.chars().take(40).collect()) }
            }
        };
        self.raise(st, code, &why)
    }

    /// run until something needs the scheduler
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop { if let Err(s) = self.step_block(st) { return s; } }
    }

    fn step_block(&mut self, st: &mut State) -> R<()> {
        let fi = st.frames.len() - 1;
        let code: &'static Code = st.frames[fi].code;
        let base = st.frames[fi].base as usize;
        let mut pc = st.frames[fi].pc as usize;
        macro_rules! get { ($o:expr) => { Self::get(st, base, $o) } }
        macro_rules! set { ($r:expr, $v:expr) => { { let v = $v; st.regs[base + $r as usize] = v; } } }
        loop {
            st.frames[fi].pc = pc as u32;
            st.steps += 1;
            self.insts += 1;
            match &code.insts[pc] {
                Inst::Bin(op, w, r, a, b) => {
                    let (a, b) = (get!(*a), get!(*b));
                    let v = if let (V::C(x), V::C(y)) = (a, b) { if *w <= 64 { match bin_c(*op, *w, x, y) { Some(c) => V::C(c), None => return Err(Stop::Err("division by zero".into())) } } else { self.bin(st, *op, *w, a, b)? } } else { self.bin(st, *op, *w, a, b)? };
                    set!(*r, v);
                }
                Inst::ICmp(p, w, r, a, b) => {
                    let (a, b) = (get!(*a), get!(*b));
                    let v = match (a, b) { (V::C(x), V::C(y)) => V::C(cmp_c(*p, *w, x, y) as u64), _ => if *w > 64 { self.wide_cmp(st, *p, a, b)? } else { cmp(*p, *w, a, b) } };
                    set!(*r, v);
                }
                Inst::FCmp(p, w, r, a, b) => { let v = fcmp(*p, *w, get!(*a), get!(*b)); set!(*r, v); }
                Inst::FNeg(w, r, a) => { let v = match get!(*a) { V::C(c) => V::C(intr_c(I_FNEG, *w, *w, &[c])), x => mk(Op::Intr(I_FNEG), *w, *w, &[x], 0) }; set!(*r, v); }
                Inst::Cast(op, f, t, r, a) => {
                    let a = get!(*a);
                    let v = match a {
                        V::C(c) => if *t > 64 { V::W(Box::leak(Box::new(if *op == CastOp::SExt { sext64(c, *f) as i128 as u128 } else { c as u128 }))) } else { V::C(cast_c(*op, *f, *t, c)) },
                        V::W(x) => if *t <= 64 { V::C(*x as u64 & mask(*t)) } else { a },
                        V::S(_) => { if *t > 64 { let c = self.conc(st, a)?; V::W(Box::leak(Box::new(if *op == CastOp::SExt { sext64(c, *f) as i128 as u128 } else { c as u128 }))) } else { cast(*op, *f, *t, a) } }
                    };
                    set!(*r, v);
                }
                Inst::Select(w, r, c, a, b) => { let (c, a, b) = (get!(*c), get!(*a), get!(*b)); let v = match c { V::C(x) => if x & 1 == 1 { a } else { b }, _ => self.select(st, *w, c, a, b)? }; set!(*r, v); }
                Inst::Move(r, a) => { let v = get!(*a); set!(*r, v); }
                Inst::Load(r, n, bits, a) => { let a = get!(*a); let v = match a { V::C(x) if *n <= 8 => st.mem.load(x, *n, *bits)?, V::C(x) => self.load_c(st, x, *n, *bits)?, _ => self.load_sym(st, a, *n, *bits)? }; set!(*r, v); }
                Inst::LoadOff(r, n, bits, a, o) => { let a = get!(*a); let v = match a { V::C(x) => st.mem.load(x + o, *n, *bits)?, _ => { let a = self.bin(st, BinOp::Add, 64, a, V::C(*o))?; self.load_sym(st, a, *n, *bits)? } }; set!(*r, v); }
                Inst::Store(n, _bits, v, a) => { let v = get!(*v); let a = get!(*a); let a = match a { V::C(x) => x, _ => self.conc(st, a)? }; st.mem.store(a, *n, v)?; }
                Inst::StoreOff(n, _bits, v, a, o) => { let v = get!(*v); let a = get!(*a); let a = match a { V::C(x) => x, _ => self.conc(st, a)? }; st.mem.store(a + o, *n, v)?; }
                Inst::Gep(r, b, c, dynv) => {
                    let mut v = get!(*b);
                    if let V::C(x) = v { v = V::C(x.wrapping_add(*c)); } else { v = self.bin(st, BinOp::Add, 64, v, V::C(*c))?; }
                    for (o, w, sc) in dynv.iter() {
                        let i = get!(*o);
                        v = match (v, i) {
                            (V::C(x), V::C(y)) => V::C(x.wrapping_add((sext64(y, *w) as u64).wrapping_mul(*sc))),
                            _ => { let i = if *w < 64 { cast(CastOp::SExt, *w, 64, i) } else { i }; let s = self.bin(st, BinOp::Mul, 64, i, V::C(*sc))?; self.bin(st, BinOp::Add, 64, v, s)? }
                        };
                    }
                    set!(*r, v);
                }
                Inst::Alloca(r, c, sz, al) => { let c = get!(*c); let c = self.conc(st, c)?; let p = match st.mem.alloca(c * *sz, *al) { Ok(p) => p, Err(_) => return self.raise(st, 7, "stack overflow") }; set!(*r, V::C(p)); }
                Inst::Bits2Int(w, r, os) => {
                    let mut v = V::C(0); let mut cw = 0u16;
                    for (k, o) in os.iter().enumerate() { let x = get!(*o); if k == 0 { v = x; cw = 1; } else { v = concat(x, 1, v, cw); cw += 1; } }
                    let v = zext(v, cw, *w);
                    set!(*r, v);
                }
                Inst::Br(e) => { if st.steps > st.limit { return self.raise(st, 6, "step limit"); } self.goto(st, e); pc = st.frames[fi].pc as usize; continue; }
                Inst::CondBr(c, es) => {
                    let c = get!(*c);
                    let b = match c { V::C(x) => x & 1 == 1, _ => self.cond(st, c)? };
                    if st.steps > st.limit { return self.raise(st, 6, "step limit"); }
                    self.goto(st, if b { &es.0 } else { &es.1 });
                    pc = st.frames[fi].pc as usize; continue;
                }
                Inst::Switch(w, v, b) => {
                    let v = get!(*v);
                    let c = match v {
                        V::C(c) => c,
                        V::W(x) => *x as u64,
                        V::S(t) => match self.dom_const(st, t) {
                            Some(c) => c,
                            None if t.single() => {
                                let p = self.partition(st.doms[t.sym as usize], t);
                                // merge classes by target block
                                let mut groups: Vec<(u32, Vec<u64>, &'static Dom)> = vec![];
                                for (val, d) in &p {
                                    let e = *b.2.get(val).unwrap_or(&0);
                                    let blk = if e == 0 { u32::MAX } else { e };
                                    let key = { let eg = &b.1[e as usize]; if eg.moves.is_empty() { eg.block } else { 0x8000_0000 | blk & 0x7fff_ffff } };
                                    match groups.iter_mut().find(|g| g.0 == key) { Some(g) => { g.2 = mk_dom(g.2.bits.iter().zip(d.bits.iter()).map(|(x, y)| x | y).collect()); } None => groups.push((key, vec![], *d)) }
                                    let _ = w;
                                }
                                if groups.len() == 1 { p[0].0 } else { return Err(Stop::Dom(t.sym, groups.into_iter().map(|g| g.2).collect())); }
                            }
                            // several symbols: one equality per case
                            None if b.2.len() <= 96 => {
                                let mut cs: Vec<u64> = b.2.keys().cloned().collect();
                                cs.sort();
                                let mut hit = None;
                                for k in cs { let e = cmp(Pred::Eq, *w, v, V::C(k)); if self.cond(st, e)? { hit = Some(k); break; } }
                                match hit { Some(k) => k, None => { let e = &b.1[0]; self.goto(st, e); pc = st.frames[fi].pc as usize; continue; } }
                            }
                            None => self.conc(st, v)?,
                        },
                    };
                    let e = *b.2.get(&c).unwrap_or(&0);
                    self.goto(st, &b.1[e as usize]);
                    pc = st.frames[fi].pc as usize; continue;
                }
                Inst::Ret(vs) => {
                    let fr = st.frames[fi].clone();
                    let out: [V; 8]; let mut big = vec![];
                    if vs.len() <= 8 { let mut o = [V::C(0); 8]; for (k, v) in vs.iter().enumerate() { o[k] = get!(*v); } out = o; } else { big = vs.iter().map(|v| get!(*v)).collect(); out = [V::C(0); 8]; }
                    st.frames.pop();
                    st.mem.sp = fr.sp;
                    st.regs.truncate(fr.base as usize);
                    if st.frames.is_empty() { return Err(Stop::End); }
                    if fr.marker { st.limit = fr.step_limit; st.regs[fr.dst as usize] = V::C(0); }
                    else if big.is_empty() { for k in 0..(fr.nret as usize).min(vs.len()) { st.regs[fr.dst as usize + k] = out[k]; } }
                    else { for k in 0..(fr.nret as usize).min(vs.len()) { st.regs[fr.dst as usize + k] = big[k]; } }
                    return Ok(());
                }
                Inst::Rmw(op, w, r, a, v) => {
                    let a = get!(*a); let a = self.conc(st, a)?; let v = get!(*v); let n = (*w as u32 + 7) / 8;
                    let old = st.mem.load(a, n, *w)?;
                    let (o, x) = (self.conc(st, old)?, self.conc(st, v)?);
                    let nv = match op { BinOp2::Xchg => x, BinOp2::Add => o.wrapping_add(x), BinOp2::Sub => o.wrapping_sub(x), BinOp2::And => o & x, BinOp2::Or => o | x, BinOp2::Xor => o ^ x, BinOp2::Nand => !(o & x), BinOp2::UMax => o.max(x), BinOp2::UMin => o.min(x), BinOp2::Max => sext64(o, *w).max(sext64(x, *w)) as u64, BinOp2::Min => sext64(o, *w).min(sext64(x, *w)) as u64 } & mask(*w);
                    st.mem.store(a, n, V::C(nv))?;
                    set!(*r, V::C(o));
                }
                Inst::CmpXchg(w, r, a, e, nv) => {
                    let a = get!(*a); let a = self.conc(st, a)?; let n = (*w as u32 + 7) / 8;
                    let old = st.mem.load(a, n, *w)?; let old = self.conc(st, old)?;
                    let e = get!(*e); let e = self.conc(st, e)?; let nv = get!(*nv);
                    if old == e { st.mem.store(a, n, nv)?; }
                    set!(*r, V::C(old)); set!(*r + 1, V::C((old == e) as u64));
                }
                Inst::Unreachable => return self.raise(st, 5, "unreachable instruction"),
                Inst::Trap(s) => return Err(Stop::Err(s.clone())),
                Inst::Call(c) => {
                    match &c.callee {
                        Callee::Intr(k, name) => {
                            let mut args = [V::C(0); 8];
                            let n = c.args.len().min(8);
                            for i in 0..n { args[i] = get!(c.args[i]); }
                            match self.intrinsic(st, *k, name, &args[..n], c, base)? { true => {} false => return Ok(()) }
                        }
                        Callee::Func(f) => {
                            st.frames[fi].pc = pc as u32 + 1;
                            let dst = (base + c.dst as usize) as u32;
                            self.call(st, *f, &c.args, base, dst, c.nret)?;
                            return Ok(());
                        }
                        Callee::Ind(o) => {
                            let a = get!(*o); let a = self.conc(st, a)?;
                            if a < FN_BASE || a >= FN_BASE + 16 * self.m.funcs.len() as u64 { return Err(Stop::Err(format!("indirect call to {:#x}", a))); }
                            let f = ((a - FN_BASE) / 16) as u32;
                            if let Some(k) = self.m.funcs[f as usize].intr {
                                let mut args = [V::C(0); 8];
                                let n = c.args.len().min(8);
                                for i in 0..n { args[i] = get!(c.args[i]); }
                                let name: &'static str = { let m: &'static Module = self.m; &m.funcs[f as usize].name };
                                match self.intrinsic(st, k, name, &args[..n], c, base)? { true => {} false => return Ok(()) }
                            } else {
                                st.frames[fi].pc = pc as u32 + 1;
                                let dst = (base + c.dst as usize) as u32;
                                self.call(st, f, &c.args, base, dst, c.nret)?;
                                return Ok(());
                            }
                        }
                    }
                }
            }
            pc += 1;
        }
    }

    fn call(&mut self, st: &mut State, f: u32, args: &[Opd], base: usize, dst: u32, nret: u32) -> R<()> {
        let code: &'static Code = { let m: &'static Module = self.m; m.code(f) };
        if st.frames.len() > 50000 { return self.raise(st, 7, "call depth"); }
        let nb = st.regs.len();
        st.regs.resize(nb + code.nregs as usize, V::C(0));
        for (k, p) in code.params.iter().enumerate() { if k < args.len() { let v = Self::get(st, base, args[k]); st.regs[nb + *p as usize] = v; } }
        st.frames.push(Frame { f, code, pc: 0, base: nb as u32, sp: st.mem.sp, dst, nret, marker: false, step_limit: 0 });
        let cv = &mut self.cov[f as usize];
        if cv.is_empty() { cv.resize(code.nblocks.max(1) as usize, 0); }
        cv[0] = 1;
        Ok(())
    }

    /// Ok(true): continue after the call; Ok(false): control moved to another frame
    fn intrinsic(&mut self, st: &mut State, k: Intr, name: &str, a: &[V], c: &CallI, base: usize) -> R<bool> {
        macro_rules! set { ($i:expr, $v:expr) => { { let v = $v; if c.nret > $i { st.regs[base + c.dst as usize + $i as usize] = v; } } } }
        let w = c.w;
        let intr = |op: u16, rw: u16, args: &[V]| -> V {
            if args.iter().all(|x| matches!(x, V::C(_))) { let cs: Vec<u64> = args.iter().map(|x| if let V::C(c) = x { *c } else { 0 }).collect(); V::C(intr_c(op, w, rw, &cs)) }
            else { mk(Op::Intr(op), rw, w, args, 0) }
        };
        match k {
            Intr::Nop | Intr::Print => {}
            Intr::Expect | Intr::Ident => set!(0, a[0]),
            Intr::IsConst => set!(0, V::C(0)),
            Intr::Memcpy => {
                let n = self.conc(st, a[2])?; let d = self.conc(st, a[0])?;
                if n > 0 {
                    match a[1] {
                        V::S(t) if self.dom_const(st, t).is_none() => {
                            // symbolic source: read through per-byte tables
                            if t.single() && n <= 256 {
                                let mut vs = Vec::with_capacity(n as usize);
                                let mut i = 0u64;
                                while i < n { let ad = self.bin(st, BinOp::Add, 64, a[1], V::C(i))?; vs.push(self.load_sym(st, ad, 1, 8)?); i += 1; }
                                for (i, v) in vs.into_iter().enumerate() { st.mem.store_byte(d + i as u64, v)?; }
                            } else { let s = self.conc(st, a[1])?; st.mem.copy(d, s, n)?; }
                        }
                        _ => { let s = self.conc(st, a[1])?; st.mem.copy(d, s, n)?; }
                    }
                }
                set!(0, a[0]);
            }
            Intr::Memset => {
                let d = self.conc(st, a[0])?; let n = self.conc(st, a[2])?;
                match a[1] { V::C(x) => { let b = vec![x as u8; n as usize]; st.mem.write_bytes(d, &b)?; } v => { let b = mk_extract(v, 0, 8); for i in 0..n { st.mem.store_byte(d + i, b)?; } } }
                set!(0, a[0]);
            }
            Intr::Bcmp => {
                let n = self.conc(st, a[2])?;
                let mut v = V::C(1);
                for i in 0..n {
                    let p = self.bin(st, BinOp::Add, 64, a[0], V::C(i))?; let q = self.bin(st, BinOp::Add, 64, a[1], V::C(i))?;
                    let x = self.load_sym(st, p, 1, 8)?; let y = self.load_sym(st, q, 1, 8)?;
                    v = and(v, cmp(Pred::Eq, 8, x, y));
                    if let V::C(0) = v { break; }
                }
                set!(0, zext(not(v), 1, 32));
            }
            Intr::Memcmp => {
                let n = self.conc(st, a[2])?;
                let mut r = V::C(0);
                for i in 0..n {
                    let p = self.bin(st, BinOp::Add, 64, a[0], V::C(i))?; let q = self.bin(st, BinOp::Add, 64, a[1], V::C(i))?;
                    let x = self.load_sym(st, p, 1, 8)?; let y = self.load_sym(st, q, 1, 8)?;
                    if !self.cond(st, cmp(Pred::Eq, 8, x, y))? { r = if self.cond(st, cmp(Pred::Ult, 8, x, y))? { V::C(0xffff_ffff) } else { V::C(1) }; break; }
                }
                set!(0, r);
            }
            Intr::Strlen => { let p = self.conc(st, a[0])?; let mut n = 0; loop { let b = st.mem.byte(p + n)?; let b = self.conc(st, b)?; if b == 0 { break; } n += 1; } set!(0, V::C(n)); }
            Intr::UMax => set!(0, intr(I_UMAX, w, a)), Intr::UMin => set!(0, intr(I_UMIN, w, a)), Intr::SMax => set!(0, intr(I_SMAX, w, a)), Intr::SMin => set!(0, intr(I_SMIN, w, a)),
            Intr::USubSat => set!(0, intr(I_USUBSAT, w, a)), Intr::UAddSat => set!(0, intr(I_UADDSAT, w, a)), Intr::SAddSat => set!(0, intr(I_SADDSAT, w, a)), Intr::SSubSat => set!(0, intr(I_SSUBSAT, w, a)),
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (bo, io) = match k { Intr::UAddO => (BinOp::Add, I_UADDO), Intr::USubO => (BinOp::Sub, I_USUBO), Intr::UMulO => (BinOp::Mul, I_UMULO), Intr::SAddO => (BinOp::Add, I_SADDO), Intr::SSubO => (BinOp::Sub, I_SSUBO), _ => (BinOp::Mul, I_SMULO) };
                if w > 64 { return Err(Stop::Err("wide overflow op".into())); }
                let r = self.bin(st, bo, w, a[0], a[1])?;
                let o = match k {
                    Intr::UAddO if (ub(&a[0]) as u128 + ub(&a[1]) as u128) <= mask(w) as u128 => V::C(0),
                    Intr::UMulO if (ub(&a[0]) as u128 * ub(&a[1]) as u128) <= mask(w) as u128 => V::C(0),
                    Intr::SAddO if (ub(&a[0]) as u128 + ub(&a[1]) as u128) <= (mask(w) >> 1) as u128 => V::C(0),
                    Intr::SMulO if (ub(&a[0]) as u128 * ub(&a[1]) as u128) <= (mask(w) >> 1) as u128 => V::C(0),
                    _ => intr(io, 1, a),
                };
                set!(0, r); set!(1, o);
            }
            Intr::Ctlz => set!(0, intr(I_CTLZ, w, &a[..1])), Intr::Cttz => set!(0, intr(I_CTTZ, w, &a[..1])), Intr::Ctpop => set!(0, intr(I_CTPOP, w, &a[..1])),
            Intr::Bswap => set!(0, intr(I_BSWAP, w, &a[..1])), Intr::BitRev => set!(0, intr(I_BITREV, w, &a[..1])),
            Intr::Fshl => set!(0, intr(I_FSHL, w, a)), Intr::Fshr => set!(0, intr(I_FSHR, w, a)),
            Intr::Ucmp | Intr::Scmp => { let rw = if name.contains("cmp.i8") { 8 } else { 32 }; set!(0, intr(if k == Intr::Ucmp { I_UCMP } else { I_SCMP }, rw, a)) }
            Intr::Abs => set!(0, intr(I_ABS, w, &a[..1])),
            Intr::Powi => { // concretise the exponent, then the base unless single-symbol
                let e = self.conc(st, a[1])?;
                let v = match a[0] { V::C(b) => V::C(intr_c(I_POWI, 64, 64, &[b, e])), x => { if e == 0 { V::C(1f64.to_bits()) } else if e == 1 { x } else if is_single_set(&[x]) { mk(Op::Intr(I_POWI), 64, 64, &[x, V::C(e)], 0) } else { let b = self.conc(st, x)?; V::C(intr_c(I_POWI, 64, 64, &[b, e])) } } };
                set!(0, v);
            }
            Intr::Fabs => set!(0, intr(I_FABS, w, &a[..1])), Intr::FMulAdd => { let m = self.bin(st, BinOp::FMul, w, a[0], a[1])?; let r = self.bin(st, BinOp::FAdd, w, m, a[2])?; set!(0, r) }
            Intr::Floor => set!(0, intr(I_FLOOR, w, &a[..1])), Intr::Ceil => set!(0, intr(I_CEIL, w, &a[..1])), Intr::FTrunc => set!(0, intr(I_FTRUNC, w, &a[..1])), Intr::Copysign => set!(0, intr(I_COPYSIGN, w, a)),
            Intr::FptouiSat | Intr::FptosiSat => {
                // llvm.fptoui.sat.iN.fM
                let rw: u16 = name.split('.').find_map(|s| s.strip_prefix('i').and_then(|x| x.parse().ok())).unwrap_or(64);
                let v = if is_single_set(&a[..1]) { a[0] } else { V::C(self.conc(st, a[0])?) };
                set!(0, intr(if k == Intr::FptouiSat { I_FPTOUISAT } else { I_FPTOSISAT }, rw, &[v]))
            }
            Intr::LoadRelative | Intr::Unsupported => return Err(Stop::Err(format!("unsupported external {}", name))),
            Intr::Trap => { self.raise(st, 5, "trap")?; return Ok(false); }
            Intr::Alloc | Intr::AllocZeroed => { let n = self.conc(st, a[0])?; let al = self.conc(st, a[1])?; if n > 1 << 28 { return Err(Stop::Err("huge allocation".into())); } let p = st.mem.alloc(n, al); set!(0, V::C(p)); }
            Intr::Realloc => {
                let p = self.conc(st, a[0])?; let old = self.conc(st, a[1])?; let al = self.conc(st, a[2])?; let n = self.conc(st, a[3])?;
                if n > 1 << 28 { return Err(Stop::Err("huge allocation".into())); }
                let q = st.mem.alloc(n, al); st.mem.copy(q, p, old.min(n))?; set!(0, V::C(q));
            }
            Intr::Dealloc => {}
            Intr::Getenv => set!(0, V::C(0)),
            Intr::ClockGettime => { let p = self.conc(st, a[1])?; st.clock += 1; st.mem.store(p, 8, V::C(1000))?; st.mem.store(p + 8, 8, V::C(st.clock))?; set!(0, V::C(0)); }
            Intr::Panic(pk) => { let av: Vec<V> = a.to_vec(); self.panic(st, pk, name, &av)?; return Ok(false); }
            // ---- harness interface
            Intr::SymNew => {
                let n = self.conc(st, a[0])?;
                let i = st.nsym;
                let t = get_sym(i, n as u32)?;
                st.nsym += 1;
                st.doms.push(full_dom(n as u32));
                set!(0, if n == 1 { V::C(0) } else { V::S(t) });
            }
            Intr::SymAssume => { if !self.cond(st, a[0])? { return Err(Stop::Assume); } }
            Intr::SymAssert => { if !self.cond(st, a[0])? { let code = self.conc(st, a[1])?; return Err(Stop::Violation(code, String::new())); } }
            Intr::SymCover => { let i = self.conc(st, a[0])?; st.covers |= 1u64 << (i & 63); }
            Intr::SymConc => { let v = self.conc(st, a[0])?; set!(0, V::C(v)); }
            Intr::SymSteps => { let n = self.conc(st, a[0])?; st.limit = st.steps + n; }
            Intr::SymNote => { let p = self.conc(st, a[0])?; let n = self.conc(st, a[1])?; let mut v = Vec::with_capacity(n as usize); for i in 0..n { v.push(st.mem.byte(p + i)?); } st.note = Some(Arc::new(v)); }
            Intr::SymTry => {
                let f = self.conc(st, a[0])?; let data = a[1]; let lim = self.conc(st, a[2])?;
                let fidx = ((f - FN_BASE) / 16) as u32;
                let old = st.limit;
                let fi = st.frames.len() - 1;
                st.frames[fi].pc += 1;
                let dst = (base + c.dst as usize) as u32;
                self.push_frame(st, fidx, &[data], dst, 0)?;
                let fr = st.frames.last_mut().unwrap();
                fr.marker = true; fr.step_limit = old;
                if lim > 0 { st.limit = st.steps + lim; }
                return Ok(false);
            }
        }
        Ok(true)
    }

    /// apply a fork request: children states to explore (feasible ones only)
    pub fn fork(&mut self, st: State, s: Stop) -> R<Vec<State>> {
        let mut out = vec![];
        match s {
            Stop::Dom(sy, ds) => {
                let touched = st.cons.iter().any(|c| c.syms >> sy & 1 == 1);
                let n = ds.len();
                let mut st = Some(st);
                for (i, d) in ds.into_iter().enumerate() {
                    let mut c = if i + 1 == n { st.take().unwrap() } else { st.as_ref().unwrap().clone() };
                    c.doms[sy as usize] = d;
                    c.forks += 1;
                    if touched && !self.feasible(&c, 1 << sy)? { continue; }
                    out.push(c);
                }
            }
            Stop::Split(syms) => {
                // the solver gave up on a condition: case split one of its symbols
                let mut m = syms; let mut best = (u32::MAX, 0usize);
                while m != 0 { let i = m.trailing_zeros() as usize; let c = st.doms[i].count; if c > 1 && c < best.0 { best = (c, i); } m &= m - 1; }
                if best.0 == u32::MAX { return Err(Stop::Err("solver unknown".into())); }
                let d = st.doms[best.1];
                let ds: Vec<&'static Dom> = d.iter().map(|i| { let mut b = vec![0u64; d.bits.len()]; b[i / 64] |= 1 << (i % 64); mk_dom(b) }).collect();
                return self.fork(st, Stop::Dom(best.1 as u8, ds));
            }
            Stop::Cond(t) => {
                let nt = match not(V::S(t)) { V::S(n) => n, _ => return Err(Stop::Err("not".into())) };
                let mut a = st.clone(); a.cons.push(t); a.known.push((t.id, 1)); a.forks += 1;
                let mut b = st; b.cons.push(nt); b.known.push((t.id, 0)); b.forks += 1;
                out.push(a); out.push(b);
            }
            Stop::Val(t) if { let mut m = t.syms; let mut n = 1u64; while m != 0 { n = n.saturating_mul(st.doms[m.trailing_zeros() as usize].count as u64); m &= m - 1; } n <= 1 << 16 } => {
                // case split one of the symbols
                let mut m = t.syms; let mut best = (u32::MAX, 0usize);
                while m != 0 { let i = m.trailing_zeros() as usize; let c = st.doms[i].count; if c > 1 && c < best.0 { best = (c, i); } m &= m - 1; }
                if best.0 == u32::MAX { return Err(Stop::Err("value of fixed term".into())); }
                let d = st.doms[best.1];
                let ds: Vec<&'static Dom> = d.iter().map(|i| { let mut b = vec![0u64; d.bits.len()]; b[i / 64] |= 1 << (i % 64); mk_dom(b) }).collect();
                return self.fork(st, Stop::Dom(best.1 as u8, ds));
            }
            Stop::Val(t) => {
                // one value from a model, the rest later
                let (d, c) = self.relevant(&st, t.syms);
                let r = self.smt.check(&d, &c);
                if r.0 == Res::Unknown { return self.fork(st, Stop::Split(t.syms)); }
                if r.0 != Res::Sat { return Ok(out); }
                let v = eval_model(t, &r.1);
                let eq = cmp(Pred::Eq, t.w, V::S(t), V::C(v));
                match eq {
                    V::S(e) => {
                        let ne = match not(eq) { V::S(n) => n, _ => return Err(Stop::Err("not".into())) };
                        let mut a = st.clone(); a.cons.push(e); a.known.push((t.id, v)); a.known.push((e.id, 1)); a.forks += 1;
                        let keep = match self.feasible_with(&st, ne) { Ok(x) => x.is_some(), Err(Stop::Split(_)) => true, Err(e) => return Err(e) };
                        if keep { let mut b = st; b.cons.push(ne); b.known.push((e.id, 0)); b.forks += 1; out.push(b); }
                        out.push(a);
                    }
                    _ => return Err(Stop::Err("value enumeration const".into())),
                }
            }
            _ => return Err(Stop::Err("not a fork".into())),
        }
        out.reverse();
        Ok(out)
    }
    pub fn model(&mut self, st: &State) -> R<Vec<u64>> {
        let mut m: Vec<u64> = st.doms.iter().map(|d| d.first() as u64).collect();
        if !st.cons.is_empty() {
            let seed = st.cons.iter().fold(0u64, |a, c| a | c.syms);
            let (d, c) = self.relevant(st, seed);
            let r = self.smt.check(&d, &c);
            if r.0 == Res::Unsat { return Err(Stop::Infeasible); }
            if r.0 != Res::Sat { return Err(Stop::Err("no model for violating path".into())); }
            for (s, v) in r.1 { m[s as usize] = v; }
        }
        Ok(m)
    }
}

pub fn eval_v(v: V, model: &dyn Fn(u8) -> u64) -> u64 {
    match v { V::C(c) => c, V::W(x) => *x as u64, V::S(t) => eval_t(t, model) }
}
fn eval_t(t: &Term, model: &dyn Fn(u8) -> u64) -> u64 {
    if t.single() { if let Some(vs) = &t.vals { if !vs.is_empty() { return vs[model(t.sym) as usize]; } } }
    let a: Vec<u64> = t.args.iter().map(|x| eval_v(*x, model)).collect();
    match t.op {
        Op::Bin(b) => bin_c(b, t.w, a[0], a[1]).unwrap_or(0), Op::Cmp(p) => cmp_c(p, t.from_w, a[0], a[1]) as u64, Op::FCmp(p) => fcmp_c(p, t.from_w, a[0], a[1]) as u64,
        Op::Cast(c) => cast_c(c, t.from_w, t.w, a[0]), Op::Extract(lo) => (a[0] >> lo) & mask(t.w), Op::Concat => (a[0] << t.from_w) | a[1],
        Op::Ite => if a[0] & 1 == 1 { a[1] } else { a[2] }, Op::Table => { let tb = table(t.aux); tb.binary_search_by_key(&a[0], |x| x.0).map(|i| tb[i].1).unwrap_or(0) }
        Op::Intr(k) => intr_c(k, t.from_w, t.w, &a), Op::IntF64 => (a[0] as f64).to_bits(), Op::BoolAnd => a[0] & a[1], Op::Sym => model(t.sym), Op::Narrow => a[0],
    }
}
fn eval_model(t: &Term, m: &[(u8, u64)]) -> u64 { eval_t(t, &|s| m.iter().find(|x| x.0 == s).map(|x| x.1).unwrap_or(0)) }
