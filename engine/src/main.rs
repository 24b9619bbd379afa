mod exec; mod ir; mod mem; mod solver; mod term;
use exec::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Shared { q: Mutex<(VecDeque<State>, usize, bool)>, cv: Condvar, idle: AtomicUsize, paths: AtomicU64, pruned: AtomicU64, forks: AtomicU64, insts: AtomicU64, covers: [AtomicU64; 64], stop: AtomicBool, timeout: AtomicBool, out: Mutex<Out>, maxforks: AtomicU64 }
#[derive(Default)]
struct Out { viol: Vec<(u64, Vec<u64>, String, String)>, errs: Vec<String>, panics: BTreeMap<String, u64>, cov: HashMap<u32, Vec<u8>>, samples: Vec<(Vec<u64>, String)> }

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn note_text(st: &State, m: &[u64]) -> String {
    match &st.note { None => String::new(), Some(v) => String::from_utf8_lossy(&v.iter().map(|b| eval_v(*b, &|s| m[s as usize]) as u8).collect::<Vec<u8>>()).into_owned() }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new(); let mut h = String::new(); let mut workers = 8usize; let mut tmax = 600u64; let mut maxviol = 1usize; let mut outp = String::new(); let mut trace = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--ll" => { ll = args[i + 1].clone(); i += 1; } "--harness" => { h = args[i + 1].clone(); i += 1; } "--workers" => { workers = args[i + 1].parse().unwrap(); i += 1; }
            "--time" => { tmax = args[i + 1].parse().unwrap(); i += 1; } "--max-violations" => { maxviol = args[i + 1].parse().unwrap(); i += 1; } "--out" => { outp = args[i + 1].clone(); i += 1; } "--trace" => trace = true,
            x => { eprintln!("bad arg {}", x); std::process::exit(2); }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).unwrap_or_else(|e| { eprintln!("{}: {}", ll, e); std::process::exit(2) });
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::parse(text).unwrap_or_else(|e| { eprintln!("ir: {}", e); std::process::exit(2) })));
    let parse_s = t0.elapsed().as_secs_f64();
    let entry = *m.fidx.get(&format!("harness_{}", h)).unwrap_or_else(|| { eprintln!("no harness_{}", h); std::process::exit(2) });
    let sh: &'static Shared = Box::leak(Box::new(Shared { q: Mutex::default(), cv: Condvar::new(), idle: AtomicUsize::new(0), paths: AtomicU64::new(0), pruned: AtomicU64::new(0), forks: AtomicU64::new(0), insts: AtomicU64::new(0), covers: std::array::from_fn(|_| AtomicU64::new(0)), stop: AtomicBool::new(false), timeout: AtomicBool::new(false), out: Mutex::default(), maxforks: AtomicU64::new(0) }));
    let done: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    let nver = 2usize.max(workers / 4);
    let vers: Vec<_> = (0..nver).map(|_| std::thread::spawn(move || solver::verifier(done))).collect();
    {
        let w = Worker::new(m);
        sh.q.lock().unwrap().0.push_back(w.initial(entry));
    }
    let deadline = t0 + Duration::from_secs(tmax);
    let hs: Vec<_> = (0..workers).map(|_| std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut w = Worker::new(m);
        let mut local: Vec<State> = vec![];
        let mut nsamp = 0u32;
        'outer: loop {
            let st = match local.pop() { Some(s) => s, None => {
                let mut g = sh.q.lock().unwrap();
                g.1 += 1; sh.idle.fetch_add(1, Ordering::SeqCst);
                loop {
                    if let Some(s) = g.0.pop_front() { g.1 -= 1; sh.idle.fetch_sub(1, Ordering::SeqCst); break s; }
                    if g.1 == workers || sh.stop.load(Ordering::Relaxed) { g.2 = true; sh.cv.notify_all(); break 'outer; }
                    g = sh.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                    if g.2 { break 'outer; }
                }
            } };
            if sh.stop.load(Ordering::Relaxed) { break; }
            if Instant::now() > deadline { sh.timeout.store(true, Ordering::SeqCst); sh.stop.store(true, Ordering::SeqCst); break; }
            let mut st = st;
            let stop = w.run(&mut st);
            match stop {
                Stop::Dom(..) | Stop::Cond(_) | Stop::Val(_) | Stop::Split(_) => {
                    match w.fork(st, stop) {
                        Ok(mut ch) => {
                            if ch.is_empty() { sh.pruned.fetch_add(1, Ordering::Relaxed); }
                            sh.forks.fetch_add(ch.len() as u64, Ordering::Relaxed);
                            local.append(&mut ch);
                        }
                        Err(e) => { let s = match e { Stop::Err(s) => s, _ => "fork".into() }; sh.out.lock().unwrap().errs.push(s); sh.stop.store(true, Ordering::SeqCst); }
                    }
                    if local.len() > 1 && sh.idle.load(Ordering::Relaxed) > 0 {
                        let k = (local.len() / 2).max(1);
                        let mut g = sh.q.lock().unwrap();
                        for s in local.drain(..k) { g.0.push_back(s); }
                        sh.cv.notify_all();
                    }
                }
                Stop::End => {
                    let n = sh.paths.fetch_add(1, Ordering::Relaxed);
                    for i in 0..64 { if st.covers >> i & 1 == 1 { sh.covers[i].fetch_add(1, Ordering::Relaxed); } }
                    sh.maxforks.fetch_max(st.forks as u64, Ordering::Relaxed);
                    if trace || nsamp < 4 || (n % 5000 == 0 && nsamp < 12) { nsamp += 1; if let Ok(md) = w.model(&st) { let t = note_text(&st, &md); if trace { eprintln!("path {:?} covers {:b} {}", md, st.covers, t); } sh.out.lock().unwrap().samples.push((md, t)); } }
                }
                Stop::Infeasible | Stop::Assume => { sh.pruned.fetch_add(1, Ordering::Relaxed); }
                Stop::Violation(code, why) => {
                    sh.paths.fetch_add(1, Ordering::Relaxed);
                    match w.model(&st) {
                        Ok(md) => {
                            let t = note_text(&st, &md);
                            let mut g = sh.out.lock().unwrap();
                            g.viol.push((code, md, t, why));
                            if g.viol.len() >= maxviol { sh.stop.store(true, Ordering::SeqCst); }
                        }
                        Err(Stop::Infeasible) => { sh.pruned.fetch_add(1, Ordering::Relaxed); }
                        Err(e) => { let s = match e { Stop::Err(s) => s, _ => "model".into() }; sh.out.lock().unwrap().errs.push(s); sh.stop.store(true, Ordering::SeqCst); }
                    }
                }
                Stop::Err(e) => {
                    let bt: Vec<String> = st.frames.iter().rev().take(6).map(|f| format!("{}@{}", m.funcs[f.f as usize].name, f.pc)).collect();
                    sh.out.lock().unwrap().errs.push(format!("{} [{}]", e, bt.join(" < ")));
                    sh.stop.store(true, Ordering::SeqCst);
                }
            }
        }
        sh.cv.notify_all();
        sh.insts.fetch_add(w.insts, Ordering::Relaxed);
        let mut g = sh.out.lock().unwrap();
        for (k, v) in &w.panics { *g.panics.entry(k.clone()).or_insert(0) += v; }
        for (f, c) in w.cov.iter().enumerate() { if !c.is_empty() { let e = g.cov.entry(f as u32).or_insert_with(|| vec![0; c.len()]); if e.len() < c.len() { e.resize(c.len(), 0); } for (i, b) in c.iter().enumerate() { e[i] |= b; } } }
    }).unwrap()).collect();
    let mut errs: Vec<String> = vec![];
    for h in hs { if let Err(p) = h.join() { let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("worker panic".into()); errs.push(s); sh.stop.store(true, Ordering::SeqCst); sh.q.lock().unwrap().2 = true; } }
    let explore_s = t0.elapsed().as_secs_f64();
    done.store(true, Ordering::SeqCst);
    let mut vers = vers;
    for _ in nver..workers { vers.push(std::thread::spawn(move || solver::verifier(done))); }
    for v in vers { match v.join() { Ok(Ok(())) => {} Ok(Err(e)) => errs.push(e), Err(_) => errs.push("verifier panic".into()) } }
    let o = sh.out.lock().unwrap();
    errs.extend(o.errs.iter().cloned());
    let mut s = String::from("{\n");
    let mut kv = |k: &str, v: String| { s.push_str(&format!("  {}: {},\n", js(k), v)); };
    kv("harness", js(&h));
    kv("exhausted", (!sh.timeout.load(Ordering::SeqCst) && !sh.stop.load(Ordering::SeqCst)).to_string());
    kv("timeout", sh.timeout.load(Ordering::SeqCst).to_string());
    kv("paths", sh.paths.load(Ordering::SeqCst).to_string());
    kv("pruned", sh.pruned.load(Ordering::SeqCst).to_string());
    kv("forks", sh.forks.load(Ordering::SeqCst).to_string());
    kv("instructions", sh.insts.load(Ordering::SeqCst).to_string());
    kv("symbols", format!("[{}]", (0..term::sym_count()).map(|i| term::sym_info(i as u8).n.to_string()).collect::<Vec<_>>().join(",")));
    kv("terms", term::term_count().to_string());
    kv("facts_outside_smt", solver::OPAQUE.load(Ordering::SeqCst).to_string());
    kv("facts", solver::FACTS.load(Ordering::SeqCst).to_string());
    kv("queries", solver::QUERIES.load(Ordering::SeqCst).to_string());
    kv("queries_sat", solver::SAT.load(Ordering::SeqCst).to_string());
    kv("queries_unsat", solver::UNSAT.load(Ordering::SeqCst).to_string());
    kv("solver_s", format!("{:.3}", solver::SOLVER_NS.load(Ordering::SeqCst) as f64 / 1e9));
    kv("parse_s", format!("{:.3}", parse_s));
    kv("explore_s", format!("{:.3}", explore_s));
    kv("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64()));
    kv("covers", format!("{{{}}}", (0..64).filter(|i| sh.covers[*i].load(Ordering::SeqCst) > 0).map(|i| format!("\"{}\": {}", i, sh.covers[i].load(Ordering::SeqCst))).collect::<Vec<_>>().join(", ")));
    kv("panics", format!("{{{}}}", o.panics.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    let mut fns: Vec<(String, usize, usize)> = o.cov.iter().map(|(f, c)| (m.funcs[*f as usize].name.clone(), c.iter().filter(|b| **b > 0).count(), c.len())).collect();
    fns.sort();
    kv("functions", format!("[{}]", fns.iter().map(|(n, a, b)| format!("[{}, {}, {}]", js(n), a, b)).collect::<Vec<_>>().join(", ")));
    kv("samples", format!("[{}]", o.samples.iter().take(24).map(|(md, t)| format!("{{\"model\": {:?}, \"text\": {}}}", md, js(t))).collect::<Vec<_>>().join(", ")));
    kv("violations", format!("[{}]", o.viol.iter().map(|(c, md, t, w)| format!("{{\"code\": {}, \"model\": {:?}, \"text\": {}, \"why\": {}}}", c, md, js(t), js(w))).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("  \"errors\": [{}]\n}}\n", errs.iter().take(10).map(|e| js(e)).collect::<Vec<_>>().join(", ")));
    if outp.is_empty() { println!("{}", s); } else { std::fs::write(&outp, s).unwrap(); }
    std::process::exit(if !errs.is_empty() { 2 } else if !o.viol.is_empty() { 1 } else { 0 });
}
