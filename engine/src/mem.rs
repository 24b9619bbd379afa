//! Copy-on-write paged memory with optional symbolic bytes. Addresses are always concrete here.
use crate::ir::{Module, RO_BASE, RW_BASE};
use crate::term::*;
use std::sync::Arc;

pub const PG: usize = 512;
pub const HEAP_BASE: u64 = 0x4000_0000;
pub const STACK_BASE: u64 = 0x7000_0000;
const STACK_MAX: u64 = 256 << 20;

#[derive(Clone)]
pub struct Page { d: [u8; PG], s: Option<Box<[Option<&'static Term>; PG]>> }
impl Page { fn new() -> Page { Page { d: [0; PG], s: None } } }

#[derive(Clone)]
pub struct Mem { pub rw: Vec<Arc<Page>>, pub heap: Vec<Arc<Page>>, pub stack: Vec<Arc<Page>>, pub heap_top: u64, pub sp: u64, pub ro: &'static [u8] }

pub type E<T> = Result<T, String>;

impl Mem {
    pub fn new(m: &'static Module) -> Mem {
        let mut rw = vec![];
        for c in m.rw.chunks(PG) { let mut p = Page::new(); p.d[..c.len()].copy_from_slice(c); rw.push(Arc::new(p)); }
        Mem { rw, heap: vec![], stack: vec![], heap_top: HEAP_BASE, sp: STACK_BASE, ro: &m.ro }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let p = (self.heap_top + a - 1) / a * a;
        self.heap_top = p + size.max(1) + 8;
        let need = ((self.heap_top - HEAP_BASE) as usize + PG) / PG;
        while self.heap.len() < need { self.heap.push(Arc::new(Page::new())); }
        p
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> E<u64> {
        let a = align.max(8);
        let p = (self.sp + a - 1) / a * a;
        self.sp = p + size;
        if self.sp - STACK_BASE > STACK_MAX { return Err("stack overflow".into()); }
        let need = ((self.sp - STACK_BASE) as usize + PG) / PG + 1;
        while self.stack.len() < need { self.stack.push(Arc::new(Page::new())); }
        Ok(p)
    }
    #[inline]
    fn page(&self, a: u64) -> Option<(&Arc<Page>, usize)> {
        let (r, b) = if a >= STACK_BASE { (&self.stack, STACK_BASE) } else if a >= HEAP_BASE { (&self.heap, HEAP_BASE) } else if a >= RW_BASE { (&self.rw, RW_BASE) } else { return None; };
        let o = (a - b) as usize;
        r.get(o / PG).map(|p| (p, o % PG))
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Option<(&mut Page, usize)> {
        let (r, b) = if a >= STACK_BASE { (&mut self.stack, STACK_BASE) } else if a >= HEAP_BASE { (&mut self.heap, HEAP_BASE) } else if a >= RW_BASE { (&mut self.rw, RW_BASE) } else { return None; };
        let o = (a - b) as usize;
        r.get_mut(o / PG).map(|p| (Arc::make_mut(p), o % PG))
    }
    pub fn mapped(&self, a: u64, n: u64) -> bool {
        if a >= RO_BASE && a < RW_BASE { return a - RO_BASE + n <= self.ro.len() as u64; }
        self.page(a).is_some() && self.page(a + n.max(1) - 1).is_some()
    }
    #[inline]
    pub fn load(&self, a: u64, n: u32, bits: u16) -> E<V> {
        if a >= RO_BASE && a < RW_BASE {
            let o = (a - RO_BASE) as usize;
            if o + n as usize > self.ro.len() { return Err(format!("load out of range {:#x}", a)); }
            if n <= 8 { let mut b = [0u8; 8]; b[..n as usize].copy_from_slice(&self.ro[o..o + n as usize]); return Ok(V::C(u64::from_le_bytes(b) & crate::ir::mask(bits))); }
            let mut b = [0u8; 16]; b[..n as usize].copy_from_slice(&self.ro[o..o + n as usize]);
            return Ok(V::W(Box::leak(Box::new(u128::from_le_bytes(b)))));
        }
        let (p, o) = self.page(a).ok_or_else(|| format!("load from unmapped {:#x}", a))?;
        let n = n as usize;
        if o + n <= PG && p.s.is_none() && n <= 8 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&p.d[o..o + n]);
            return Ok(V::C(u64::from_le_bytes(b) & crate::ir::mask(bits)));
        }
        self.load_slow(a, n, bits)
    }
    pub fn byte(&self, a: u64) -> E<V> {
        if a >= RO_BASE && a < RW_BASE { let o = (a - RO_BASE) as usize; return self.ro.get(o).map(|b| V::C(*b as u64)).ok_or_else(|| format!("load out of range {:#x}", a)); }
        let (p, o) = self.page(a).ok_or_else(|| format!("load from unmapped {:#x}", a))?;
        if let Some(s) = &p.s { if let Some(t) = s[o] { return Ok(V::S(t)); } }
        Ok(V::C(p.d[o] as u64))
    }
    fn load_slow(&self, a: u64, n: usize, bits: u16) -> E<V> {
        let mut bs = [V::C(0); 16];
        let mut sym = false;
        for i in 0..n { bs[i] = self.byte(a + i as u64)?; if let V::S(_) = bs[i] { sym = true; } }
        if !sym {
            let mut x = 0u128;
            for i in (0..n).rev() { if let V::C(c) = bs[i] { x = x << 8 | c as u128; } }
            if n <= 8 { return Ok(V::C(x as u64 & crate::ir::mask(bits))); }
            return Ok(V::W(Box::leak(Box::new(x))));
        }
        if n > 8 { return Err("symbolic wide load".into()); }
        let mut r = bs[n - 1]; let mut w = 8;
        for i in (0..n - 1).rev() { r = concat(r, w, bs[i], 8); w += 8; }
        if bits < w { r = mk_extract(r, 0, bits); }
        Ok(r)
    }
    #[inline]
    pub fn store(&mut self, a: u64, n: u32, v: V) -> E<()> {
        let n = n as usize;
        if let V::C(c) = v {
            if let Some((p, o)) = self.page_mut(a) {
                if o + n <= PG && n <= 8 {
                    p.d[o..o + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    if let Some(s) = &mut p.s { for k in o..o + n { s[k] = None; } }
                    return Ok(());
                }
            } else { return Err(format!("store to unmapped {:#x}", a)); }
        }
        for i in 0..n {
            let b = match v { V::C(c) => if i < 8 { V::C(c >> (8 * i) & 255) } else { V::C(0) }, V::W(x) => V::C((*x >> (8 * i)) as u64 & 255),
                V::S(t) => if (i as u16) * 8 >= t.w { V::C(0) } else if t.w < 8 { zext(v, t.w, 8) } else if t.w as usize - i * 8 < 8 { let k = t.w - i as u16 * 8; zext(mk_extract(v, i as u16 * 8, k), k, 8) } else { mk_extract(v, i as u16 * 8, 8) } };
            self.store_byte(a + i as u64, b)?;
        }
        Ok(())
    }
    pub fn store_byte(&mut self, a: u64, v: V) -> E<()> {
        let (p, o) = self.page_mut(a).ok_or_else(|| format!("store to unmapped {:#x}", a))?;
        match v {
            V::C(c) => { p.d[o] = c as u8; if let Some(s) = &mut p.s { s[o] = None; } }
            V::S(t) => { p.s.get_or_insert_with(|| Box::new([None; PG]))[o] = Some(t); }
            V::W(_) => return Err("wide byte".into()),
        }
        Ok(())
    }
    fn clean(&self, a: u64, n: usize) -> Option<&[u8]> {
        if a >= RO_BASE && a < RW_BASE { let o = (a - RO_BASE) as usize; return self.ro.get(o..o + n); }
        let (p, o) = self.page(a)?;
        if o + n <= PG && p.s.is_none() { Some(&p.d[o..o + n]) } else { None }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> E<()> {
        if n == 0 || dst == src { return Ok(()); }
        // gather then scatter (memmove semantics), chunked
        if n <= 256 {
            let mut tmp = [0u8; 256];
            let nn = n as usize;
            if let Some(s) = self.clean(src, nn) {
                tmp[..nn].copy_from_slice(s);
                return self.write_bytes(dst, &tmp[..nn]);
            }
        }
        let mut buf: Vec<V> = Vec::with_capacity(n as usize);
        for i in 0..n { buf.push(self.byte(src + i)?); }
        for i in 0..n { self.store_byte(dst + i, buf[i as usize])?; }
        Ok(())
    }
    pub fn write_bytes(&mut self, mut dst: u64, mut b: &[u8]) -> E<()> {
        while !b.is_empty() {
            let (p, o) = self.page_mut(dst).ok_or_else(|| format!("store to unmapped {:#x}", dst))?;
            let k = b.len().min(PG - o);
            p.d[o..o + k].copy_from_slice(&b[..k]);
            if let Some(s) = &mut p.s { for x in &mut s[o..o + k] { *x = None; } }
            dst += k as u64; b = &b[k..];
        }
        Ok(())
    }
    pub fn read_conc(&self, a: u64, n: u64) -> E<Vec<u8>> {
        let mut v = vec![];
        for i in 0..n { match self.byte(a + i)? { V::C(c) => v.push(c as u8), _ => v.push(b'?') } }
        Ok(v)
    }
}
