//! rsx: symbolic execution of whole-program LLVM IR produced by rustc, decided by Z3.

mod alloc;
mod exec;
mod expr;
mod ll;
mod mem;
mod solver;

use exec::*;
use expr::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static POOL: alloc::Pool = alloc::Pool;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
}

#[repr(C)]
struct Shared {
    active: AtomicU32,
    seq: AtomicU32,
    paths: AtomicU64,
    viols: AtomicU64,
    stop: AtomicU32,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn fnv(h: u64, b: u8) -> u64 {
    (h ^ b as u64).wrapping_mul(0x100_0000_01b3)
}
fn clean(s: &str) -> String {
    s.chars().map(|c| if c == '\t' || c == '\n' || c == '\r' { ' ' } else { c }).collect()
}

#[derive(Default)]
struct Out {
    samples: BTreeMap<u64, String>,
    viols: BTreeMap<String, (u64, Vec<String>)>,
    incomplete: BTreeMap<String, u64>,
    cover: Vec<u64>,
}

struct Opts {
    jobs: u32,
    time: u64,
    samples: usize,
    max_viols: u64,
    verbose: bool,
}

fn emit_hash(en: &mut Engine, st: &State) -> (u64, u64) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut n = 0u64;
    en.ar.new_gen();
    for e in &st.emits {
        for b in e.iter() {
            let v = match b {
                Emit::Byte(b) => *b,
                Emit::Sym(e) => en.ar.eval_in(*e, &st.model) as u8,
            };
            h = fnv(h, v);
            n += 1;
        }
    }
    (h, n)
}

fn finish(en: &mut Engine, st: &State, stop: Stop, out: &mut Out, o: &Opts, sh: &Shared) {
    en.c.max_vars = en.c.max_vars.max(st.nvars as u64);
    en.c.max_steps = en.c.max_steps.max(st.steps);
    let input = &st.model[..st.nvars.min(st.model.len())];
    let dead = matches!(stop, Stop::Dead);
    if !dead {
        en.c.paths += 1;
        sh.paths.fetch_add(1, Ordering::Relaxed);
        for i in 0..128 {
            if st.cover >> i & 1 == 1 {
                out.cover[i] += 1;
            }
        }
    }
    match stop {
        Stop::Done => {
            en.c.done += 1;
            let mut h = 0x9e37_79b9_7f4a_7c15u64;
            for &b in input {
                h = fnv(h, b);
            }
            h ^= h >> 31;
            h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
            let room = out.samples.len() < o.samples || out.samples.keys().next_back().map(|&k| h < k).unwrap_or(false);
            if room && o.samples > 0 {
                let (eh, n) = emit_hash(en, st);
                out.samples.insert(h, format!("{}\t{:016x}\t{}", hex(input), eh, n));
                if out.samples.len() > o.samples {
                    let k = *out.samples.keys().next_back().unwrap();
                    out.samples.remove(&k);
                }
            }
        }
        Stop::Dead => en.c.dead += 1,
        Stop::Viol(kind, msg) => {
            en.c.viols += 1;
            sh.viols.fetch_add(1, Ordering::Relaxed);
            let names = en.stack_names(st);
            let key = format!("{}\t{}\t{}", kind, clean(&msg), names.iter().take(if kind == "check" { 1 } else { 3 }).cloned().collect::<Vec<_>>().join(";"));
            let e = out.viols.entry(key).or_insert((0, Vec::new()));
            e.0 += 1;
            if e.1.len() < 4 {
                e.1.push(format!("{}\t{}", hex(input), names.iter().take(14).cloned().collect::<Vec<_>>().join(";")));
            }
            if o.max_viols > 0 && sh.viols.load(Ordering::Relaxed) >= o.max_viols {
                sh.stop.store(1, Ordering::Relaxed);
            }
        }
        Stop::Incomplete(m) => {
            en.c.incomplete += 1;
            let names = en.stack_names(st);
            let m = format!("{} in {} input {}", clean(&m), names[0], hex(input));
            // group by message and function
            let key: String = m.split(" input ").next().unwrap().to_string();
            let n = out.incomplete.entry(key.clone()).or_insert(0);
            *n += 1;
            if *n == 1 && o.verbose {
                eprintln!("INCOMPLETE {} {}", m, names.join(" < "));
            }
        }
    }
}

fn worker(mut en: Engine, o: &Opts, sh: &Shared, base: &str, start: Instant) -> ! {
    let mut out = Out { cover: vec![0; 128], ..Out::default() };
    let mut last = Instant::now();
    let mut leftover = 0u64;
    loop {
        if start.elapsed() > Duration::from_secs(o.time) || sh.stop.load(Ordering::Relaxed) != 0 {
            leftover = en.work.len() as u64;
            break;
        }
        if en.work.len() >= 2 {
            let a = sh.active.load(Ordering::Relaxed);
            if a < o.jobs && sh.active.compare_exchange(a, a + 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
                let pid = unsafe { fork() };
                if pid < 0 {
                    sh.active.fetch_sub(1, Ordering::SeqCst);
                } else {
                    let work = std::mem::take(&mut en.work);
                    let child = pid == 0;
                    for (i, s) in work.into_iter().enumerate() {
                        if (i % 2 == 0) == child {
                            en.work.push(s);
                        }
                    }
                    if child {
                        en.c = Counters::default();
                        en.sv.st = Default::default();
                        en.incompletes.clear();
                        for f in en.fn_seen.iter_mut() {
                            *f = false;
                        }
                        out = Out { cover: vec![0; 128], ..Out::default() };
                    }
                }
            }
        }
        let mut st = match en.work.pop() {
            Some(s) => s,
            None => break,
        };
        let stop = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| en.run(&mut st))) {
            Ok(s) => s,
            Err(_) => Stop::Incomplete("the engine failed on this path".into()),
        };
        finish(&mut en, &st, stop, &mut out, o, sh);
        if en.ar.nodes.len() > 40_000_000 {
            out.incomplete.insert("expression arena full".into(), 1);
            leftover = en.work.len() as u64;
            break;
        }
        if o.verbose && last.elapsed() > Duration::from_secs(5) {
            last = Instant::now();
            eprintln!(
                "[{}] {:.0}s total paths {} pending here {} active {} nodes {} z3 {} ({} ms) queries {}",
                std::process::id(),
                start.elapsed().as_secs_f32(),
                sh.paths.load(Ordering::Relaxed),
                en.work.len(),
                sh.active.load(Ordering::Relaxed),
                en.ar.nodes.len(),
                en.sv.st.z3_calls,
                en.sv.st.z3_us / 1000,
                en.sv.st.queries
            );
        }
    }
    if leftover > 0 {
        out.incomplete.insert("budget exhausted with paths pending".into(), leftover);
    }
    for (k, v) in &en.incompletes {
        *out.incomplete.entry(k.clone()).or_insert(0) += v;
    }
    let mut s = String::new();
    let c = &en.c;
    let q = &en.sv.st;
    let _ = writeln!(
        s,
        "STAT\tpaths={}\tdone={}\tdead={}\tviols={}\tforks={}\tinstrs={}\tchecks={}\tsym_checks={}\tsym_branches={}\tincomplete={}\tqueries={}\tz3_calls={}\tz3_sat={}\tz3_unsat={}\tcached_unsat={}\tmodel_hits={}\tunknown={}\tz3_us={}",
        c.paths, c.done, c.dead, c.viols, c.forks, c.instrs, c.checks, c.sym_checks, c.sym_branches, c.incomplete, q.queries, q.z3_calls, q.z3_sat, q.z3_unsat, q.cached_unsat, q.model_hits, q.unknown, q.z3_us
    );
    let _ = writeln!(s, "MAX\tmax_vars={}\tmax_steps={}\tmax_query_us={}", c.max_vars, c.max_steps, q.max_us);
    for (h, l) in &out.samples {
        let _ = writeln!(s, "SAMPLE\t{:016x}\t{}", h, l);
    }
    for (k, (n, v)) in &out.viols {
        for l in v {
            let _ = writeln!(s, "VIOL\t{}\t{}\t{}", n, k, l);
        }
    }
    for (k, n) in &out.incomplete {
        let _ = writeln!(s, "INCOMPLETE\t{}\t{}", n, k);
    }
    for (i, n) in out.cover.iter().enumerate() {
        if *n > 0 {
            let _ = writeln!(s, "COVER\t{}\t{}", i, n);
        }
    }
    for (i, b) in en.fn_seen.iter().enumerate() {
        if *b {
            let _ = writeln!(s, "FN\t{}", en.m.funcs[i].name);
        }
    }
    for (k, (n, us)) in &en.prof {
        eprintln!("PROF\t{}\t{}\t{}", us, n, k);
    }
    let n = sh.seq.fetch_add(1, Ordering::SeqCst);
    let ok = std::fs::write(format!("{}.{}", base, n), s).is_ok();
    sh.active.fetch_sub(1, Ordering::SeqCst);
    unsafe { _exit(if ok { 0 } else { 4 }) }
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::new();
    let mut outp = String::new();
    let mut concrete: Option<Vec<u8>> = None;
    let mut list = false;
    let mut o = Opts { jobs: 8, time: 600, samples: 40, max_viols: 0, verbose: false };
    let mut max_steps = 300_000_000u64;
    let mut rlimit = 40_000_000u32;
    let mut i = 1;
    while i < args.len() {
        let cur = args[i].clone();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match cur.as_str() {
            "--entry" => entry = nx(),
            "--out" => outp = nx(),
            "--jobs" => o.jobs = nx().parse().unwrap(),
            "--time" => o.time = nx().parse().unwrap(),
            "--samples" => o.samples = nx().parse().unwrap(),
            "--max-viols" => o.max_viols = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--rlimit" => rlimit = nx().parse().unwrap(),
            "--concrete" => concrete = Some(unhex(&nx())),
            "--verbose" => o.verbose = true,
            "--list" => list = true,
            f => file = f.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read IR");
    let mut ar = Arena::new();
    let m: &'static ll::Module = Box::leak(Box::new(ll::parse(&text, &mut ar)));
    drop(text);
    if o.verbose {
        eprintln!("parsed {} functions, {} globals in {:?}", m.funcs.len(), m.globals.len(), t0.elapsed());
    }
    if list {
        for f in &m.funcs {
            if !f.external && f.name.starts_with("h_") {
                println!("{}", f.name);
            }
        }
        return 0;
    }
    let fi = *m.func_ids.get(&entry).unwrap_or_else(|| panic!("no entry {}", entry));
    let mut en = Engine::new(m, ar, rlimit, Limits { max_steps, conc_limit: 256 });
    let parse_s = t0.elapsed().as_secs_f64();
    if let Some(c) = concrete {
        en.concrete = Some(c);
        let mut st = en.initial(fi);
        let r = en.run(&mut st);
        println!("result {:?} steps {} cover {:x}", r, st.steps, st.cover);
        let (h, n) = emit_hash(&mut en, &st);
        println!("emit {:016x} {}", h, n);
        let mut b = Vec::new();
        for e in &st.emits {
            for x in e.iter() {
                if let Emit::Byte(x) = x {
                    b.push(*x)
                }
            }
        }
        println!("{}", String::from_utf8_lossy(&b));
        if !matches!(r, Stop::Done) {
            println!("{}", en.stack_names(&st).join("\n  < "));
            return 1;
        }
        return 0;
    }
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    };
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    let st = en.initial(fi);
    en.work.push(st);
    sh.active.store(1, Ordering::SeqCst);
    let start = Instant::now();
    let pid = unsafe { fork() };
    if pid == 0 {
        worker(en, &o, sh, &outp, start);
    }
    drop(en);
    let mut bad = 0;
    loop {
        let mut stt = 0i32;
        let r = unsafe { waitpid(-1, &mut stt, 0) };
        if r < 0 {
            break;
        }
        if stt != 0 {
            bad += 1;
            eprintln!("worker {} ended with status {:#x}", r, stt);
            sh.active.fetch_sub(1, Ordering::SeqCst);
        }
    }
    // merge
    let mut stat: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<String, String> = BTreeMap::new();
    let mut viols: BTreeMap<String, (u64, Vec<String>)> = BTreeMap::new();
    let mut incs: BTreeMap<String, u64> = BTreeMap::new();
    let mut cover: BTreeMap<u32, u64> = BTreeMap::new();
    let mut fns: std::collections::BTreeSet<String> = Default::default();
    let nfiles = sh.seq.load(Ordering::SeqCst);
    for k in 0..nfiles {
        let p = format!("{}.{}", outp, k);
        let t = std::fs::read_to_string(&p).unwrap_or_default();
        let _ = std::fs::remove_file(&p);
        for line in t.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "STAT" => {
                    for kv in &f[1..] {
                        let (a, b) = kv.split_once('=').unwrap();
                        *stat.entry(a.into()).or_insert(0) += b.parse::<u64>().unwrap();
                    }
                }
                "MAX" => {
                    for kv in &f[1..] {
                        let (a, b) = kv.split_once('=').unwrap();
                        let e = stat.entry(a.into()).or_insert(0);
                        *e = (*e).max(b.parse::<u64>().unwrap());
                    }
                }
                "SAMPLE" => {
                    samples.insert(f[1].into(), f[2..].join("\t"));
                }
                "VIOL" => {
                    let key = f[2..5].join("\t");
                    let e = viols.entry(key).or_insert((0, Vec::new()));
                    if e.1.len() < 6 {
                        e.1.push(f[5..].join("\t"));
                    }
                    e.0 += 1;
                }
                "INCOMPLETE" => *incs.entry(f[2].into()).or_insert(0) += f[1].parse::<u64>().unwrap(),
                "COVER" => *cover.entry(f[1].parse().unwrap()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "FN" => {
                    fns.insert(f[1].into());
                }
                _ => {}
            }
        }
    }
    if bad > 0 {
        incs.insert("a worker process died".into(), bad);
    }
    let mut s = String::new();
    for (k, v) in &stat {
        let _ = writeln!(s, "STAT\t{}\t{}", k, v);
    }
    let _ = writeln!(s, "STAT\twall_ms\t{}", start.elapsed().as_millis());
    let _ = writeln!(s, "STAT\tparse_ms\t{}", (parse_s * 1000.0) as u64);
    let _ = writeln!(s, "STAT\tworkers\t{}", nfiles);
    for (h, l) in samples.iter().take(o.samples) {
        let _ = writeln!(s, "SAMPLE\t{}\t{}", h, l);
    }
    for (k, (_, v)) in &viols {
        for l in v.iter().take(4) {
            let _ = writeln!(s, "VIOL\t{}\t{}", k, l);
        }
    }
    for (k, n) in &incs {
        let _ = writeln!(s, "INCOMPLETE\t{}\t{}", n, k);
    }
    for (k, n) in &cover {
        let _ = writeln!(s, "COVER\t{}\t{}", k, n);
    }
    for f in &fns {
        let _ = writeln!(s, "FN\t{}", f);
    }
    let _ = writeln!(s, "END");
    if outp.is_empty() {
        print!("{}", s);
    } else {
        std::fs::write(&outp, &s).unwrap();
    }
    0
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    std::process::exit(match h.join() {
        Ok(c) => c,
        Err(_) => 101,
    });
}
