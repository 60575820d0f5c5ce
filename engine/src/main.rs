//! symx: symbolic execution of rustc-emitted LLVM IR with z3.
//!
//!   symx run --entry h_x --out out.json [options] a.ll b.ll
//!   symx list a.ll b.ll

mod exec;
mod expr;
mod ir;
mod smt;

use exec::{Cfg, Ex, Out};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::raw::{c_int, c_long, c_void};

extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn jlist<T>(v: &[T], f: impl Fn(&T) -> String) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }
fn jmap(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")) }

fn report(ex: &Ex) -> String {
    let o: &Out = &ex.out;
    let s = &ex.smt.st;
    let lg = |l: &[Option<u64>]| jlist(l, |x| x.map(|v| v.to_string()).unwrap_or("null".into()));
    let sch = |l: &[(u8, u32)]| jlist(l, |x| format!("[{},{}]", x.0, x.1));
    let ins = |l: &[u64]| jlist(l, |x| x.to_string());
    let v = jlist(&o.viols, |v| format!("{{\"kind\":{},\"msg\":{},\"stack\":{},\"inputs\":{},\"sched\":{},\"tags\":{},\"log\":{}}}", js(&v.kind), js(&v.msg), jlist(&v.stack, |x| js(x)), ins(&v.inputs), sch(&v.sched), jlist(&v.tags, |x| x.to_string()), lg(&v.log)));
    let sm = jlist(&o.samples, |(i, s, l)| format!("{{\"inputs\":{},\"sched\":{},\"log\":{}}}", ins(i), sch(s), lg(l)));
    let cov: BTreeMap<String, u64> = o.covers.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let fns = jlist(&o.funcs.iter().collect::<Vec<_>>(), |k| js(&ex.p.funcs[**k as usize].name));
    let qs = jlist(&ex.smt.samples, |(t, r)| format!("[{},{}]", js(t), r));
    format!("{{\"paths\":{},\"infeasible\":{},\"steps\":{},\"forks\":{},\"scheds\":{},\"pruned\":{},\"stales\":{},\"merged\":{},\"asserts\":{},\"atomics\":{},\"nviol\":{},\"max_cons\":{},\"inputs\":{},\"queries\":{},\"solver_calls\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_us\":{},\"max_us\":{},\"incomplete\":{},\"fatal\":{},\"covers\":{},\"violations\":{},\"samples\":{},\"functions\":{},\"smt2\":{}}}",
        o.paths, o.infeasible, o.steps, o.forks, o.scheds, o.pruned, o.stales, o.merged, o.asserts, o.atomics, o.nviol, o.max_cons, o.syms, s.queries, s.solver_calls, s.sat, s.unsat, s.unknown, s.solver_us, s.max_us,
        jmap(&o.incomplete), jmap(&o.fatal), jmap(&cov), v, sm, fns, qs)
}

fn drain(ex: &mut Ex) {
    while let Some(st) = ex.work.pop() {
        if std::time::Instant::now() > ex.cfg.deadline {
            *ex.out.incomplete.entry("time limit".into()).or_insert(0) += 1 + ex.work.len() as u64;
            ex.work.clear();
            return;
        }
        if ex.out.viols.len() >= ex.cfg.maxviol * 8 {
            *ex.out.incomplete.entry("stopped after the violation limit".into()).or_insert(0) += 1 + ex.work.len() as u64;
            ex.work.clear();
            return;
        }
        ex.run(st, false);
        if std::env::var("SYMX_DBG").is_ok() && (ex.out.paths + ex.out.infeasible) % 5000 == 0 { let rss = std::fs::read_to_string("/proc/self/statm").unwrap(); eprintln!("paths {} work {} nodes {} cache {} rss {} viols {} calls {}", ex.out.paths, ex.work.len(), expr::cx().nodes.len(), ex.smt.cache_len(), rss.split(' ').nth(1).unwrap().parse::<u64>().unwrap()/256, ex.out.viols.len(), ex.smt.st.solver_calls); }
    }
}

fn main() {
    // Deep recursion is possible in the expression printer and evaluator.
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut files = vec![];
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut params = vec![];
    let cmd = args.get(1).cloned().unwrap_or_default();
    let mut i = 2;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            let v = args.get(i + 1).cloned().unwrap_or_default();
            if k == "param" { params.push(v.parse::<u64>().expect("param")); } else { opt.insert(k.to_string(), v); }
            i += 2;
        } else { files.push(args[i].clone()); i += 1; }
    }
    let num = |k: &str, d: u64| opt.get(k).map(|v| v.parse::<u64>().expect("number")).unwrap_or(d);
    let mut mods = vec![];
    for (k, f) in files.iter().enumerate() {
        let src = match std::fs::read_to_string(f) { Ok(s) => s, Err(e) => { eprintln!("symx: {}: {}", f, e); return 2; } };
        match ir::parse(&src, k) { Ok(m) => mods.push(m), Err(e) => { eprintln!("symx: {}: {}", f, e); return 2; } }
    }
    let prog = match exec::link(mods) { Ok(p) => p, Err(e) => { eprintln!("symx: {}", e); return 2; } };
    let prog: &'static exec::Prog = Box::leak(Box::new(prog));
    if cmd == "list" {
        let mut v: Vec<_> = prog.by_name.keys().filter(|k| k.starts_with("h_")).collect();
        v.sort();
        for k in v { println!("{}", k); }
        return 0;
    }
    let entry = match prog.by_name.get(opt.get("entry").map(|s| s.as_str()).unwrap_or("")) { Some(e) => *e, None => { eprintln!("symx: no such entry"); return 2; } };
    let jobs = num("jobs", 8).max(1) as usize;
    let out = opt.get("out").cloned().unwrap_or("/dev/stdout".into());
    let t0 = std::time::Instant::now();
    let cfg = Cfg {
        params, preempt: num("preempt", 2) as u32, por: num("por", 0) != 0, stale: num("stale", 0) as u32, loopb: num("loop", 200) as u32, maxsteps: num("steps", 8_000_000), maxviol: num("maxviol", 8) as usize,
        deadline: t0 + std::time::Duration::from_secs(num("time", 600)), nsamples: num("samples", 0) as usize, seed: num("seed", 1),
    };
    let mut smt = smt::Smt::new(num("qtimeout", 60_000) as u32);
    smt.sample_every = num("smt-every", 0);
    let mut ex = Ex::new(prog, cfg, smt, exec::Seen::new(num("cache", 0) as usize, |n| { let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x4021, -1, 0) }; assert!(p as isize != -1, "no memory for the cache"); p as *mut u8 }));
    let st = ex.initial(entry);
    // Breadth first until there is enough to share.
    let want = if jobs > 1 { jobs * num("frontier", 96) as usize } else { 0 };
    let mut q: std::collections::VecDeque<exec::State> = Default::default();
    q.push_back(st);
    while !q.is_empty() && q.len() < want && std::time::Instant::now() < ex.cfg.deadline {
        let s = q.pop_front().unwrap();
        if let Some(s) = ex.run(s, true) { q.push_back(s); }
        let w = std::mem::take(&mut ex.work);
        q.extend(w);
    }
    let mut parts = vec![];
    let mut rc = 0;
    if q.is_empty() || jobs == 1 {
        ex.work = q.into_iter().collect();
        drain(&mut ex);
        parts.push(report(&ex));
    } else {
        parts.push(report(&ex));
        let seed_out = std::mem::take(&mut ex.out);
        drop(seed_out);
        let mut states: Vec<Option<exec::State>> = q.into_iter().map(Some).collect();
        let n = states.len();
        // Deal the shared states in a scattered order, so that neighbours go to different workers.
        let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicUsize;
        let mut kids = vec![];
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    ex.smt.st = Default::default();
                    ex.smt.samples.clear();
                    loop {
                        let k = unsafe { (*ctr).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                        if k >= n { break; }
                        let s = states[k].take().unwrap();
                        ex.work.push(s);
                        drain(&mut ex);
                    }
                    std::fs::write(format!("{}.{}", out, j), report(&ex)).unwrap();
                }));
                unsafe { _exit(if r.is_ok() { 0 } else { 9 }) }
            }
            kids.push((j, pid));
        }
        for (j, pid) in kids {
            let mut s = 0;
            unsafe { waitpid(pid, &mut s, 0); }
            let f = format!("{}.{}", out, j);
            match std::fs::read_to_string(&f) { Ok(t) if s == 0 => parts.push(t), _ => { eprintln!("symx: worker {} died (status {})", j, s); rc = 4; } }
            let _ = std::fs::remove_file(&f);
        }
    }
    let text = format!("{{\"entry\":{},\"wall_s\":{:.3},\"worker_failure\":{},\"parts\":[{}]}}\n", js(opt.get("entry").unwrap()), t0.elapsed().as_secs_f64(), rc != 0, parts.join(",\n"));
    if std::fs::write(&out, text).is_err() { return 2; }
    rc
}
