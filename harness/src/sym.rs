//! Harness side of the symbolic-execution interface. Under the engine these functions are intercepted by
//! name; in a native run they replay one concrete assignment (a counterexample model).
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

static mut REPLAY: Vec<u32> = Vec::new();
static mut NEXT: usize = 0;
static mut FAIL: u32 = 0;
static mut COVERS: u64 = 0;
static mut NOTE: Vec<u8> = Vec::new();
static mut NATIVE: bool = false;
/// true in a native run (replay), false under the engine
pub fn native() -> bool { unsafe { std::ptr::read_volatile(&raw const NATIVE) } }
thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); static OUTC: Cell<u32> = Cell::new(0); }

pub fn set_msg(s: String) { MSG.with(|m| *m.borrow_mut() = s); }
pub struct AssumeFailed;
pub struct AssertFailed;

#[inline(never)] #[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_new(n: u32) -> u32 {
    unsafe {
        let i = NEXT; NEXT += 1;
        let v = if i < REPLAY.len() { REPLAY[i] } else { 0 };
        if v >= n { std::panic::panic_any(AssumeFailed); }
        v
    }
}
#[inline(never)] #[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_assume(c: bool) { if !c { std::panic::panic_any(AssumeFailed); } }
#[inline(never)] #[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_assert(c: bool, code: u32) { if !c { unsafe { FAIL = code; } std::panic::panic_any(AssertFailed); } }
#[inline(never)] #[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_cover(i: u32) { unsafe { COVERS |= 1u64 << (i & 63); } }
#[inline(never)] #[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_conc(x: u64) -> u64 { unsafe { std::ptr::read_volatile(&x) } }
#[inline(never)] #[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_note(p: *const u8, n: usize) { unsafe { NOTE = std::slice::from_raw_parts(p, n).to_vec(); } }
#[inline(never)] #[unsafe(no_mangle)]
pub extern "C-unwind" fn sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8, limit: u64) -> u32 {
    unsafe { std::ptr::read_volatile(&limit); }
    match catch_unwind(AssertUnwindSafe(|| f(data))) {
        Ok(()) => 0,
        Err(p) => {
            if p.is::<AssumeFailed>() || p.is::<AssertFailed>() { std::panic::resume_unwind(p); }
            let m = MSG.with(|m| m.borrow().clone());
            classify(&m)
        }
    }
}
/// outcome codes shared with the engine: 1 deliberate rejection, 2 bounds/slice, 3 overflow, 4 Option::unwrap, 5 unreachable/assertion
fn classify(m: &str) -> u32 {
    if m.contains("out of bounds") || m.contains("out of range") || m.contains("is not a char boundary") || m.contains("slice index starts at") || m.contains("begin <= end") { 2 }
    else if m.starts_with("attempt to") { 3 }
    else if m.contains("called `Option::") { 4 }
    else if m.contains("internal error: entered unreachable") || m.starts_with("assertion") || m.contains("already borrowed") { 5 }
    else { 1 }
}

pub fn sym_range(lo: u32, n: u32) -> u32 { lo + sym_new(n) }

/// native replay: returns a line describing the outcome
pub fn replay(f: extern "C-unwind" fn(), model: Vec<u32>) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        let s = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        MSG.with(|m| *m.borrow_mut() = s);
    }));
    unsafe { REPLAY = model; NATIVE = true; }
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    let (verdict, code) = match r {
        Ok(()) => ("held", 0),
        Err(p) if p.is::<AssumeFailed>() => ("assume", 0),
        Err(p) if p.is::<AssertFailed>() => ("violated", unsafe { FAIL }),
        Err(_) => ("violated", 900 + MSG.with(|m| classify(&m.borrow()))),
    };
    let note = unsafe { String::from_utf8_lossy(&NOTE).into_owned() };
    println!("\nREPLAY verdict={} code={} covers={:x} msg={:?} text={:?}", verdict, code, unsafe { COVERS }, MSG.with(|m| m.borrow().clone()), note);
    match verdict { "held" => 0, "violated" => 1, _ => 3 }
}
