//! Runs harness entry points natively on concrete inputs.
//!
//! `native ENTRY HEX` runs one input: prints `DONE hash len`, `CHECK-FAILED
//! msg` (exit 10), `ASSUME-FAILED` (exit 11), `INPUT-EXHAUSTED` (exit 12), or
//! panics (exit 101). `native --batch FILE` runs lines `ENTRY HEX`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static OUTSTANDING_MAX: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            println!("RESOURCE allocation of {} bytes", l.size());
            std::process::exit(13);
        }
        LIVE.fetch_add(1, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = OUTSTANDING_MAX;
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

struct St {
    input: Vec<u8>,
    pos: usize,
    hash: u64,
    len: u64,
    failed: Option<String>,
}
static mut ST: St = St { input: Vec::new(), pos: 0, hash: 0, len: 0, failed: None };

#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe { &mut ST }
}

fn stop(msg: &str, code: i32) -> ! {
    println!("{}", msg);
    std::process::exit(code)
}

#[no_mangle]
extern "C" fn sym_u8() -> u8 {
    let s = st();
    if s.pos >= s.input.len() {
        stop("INPUT-EXHAUSTED", 12);
    }
    s.pos += 1;
    s.input[s.pos - 1]
}
#[no_mangle]
extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        let b = sym_u8();
        unsafe { *p.add(i) = b };
    }
}
#[no_mangle]
extern "C" fn sym_choice(n: usize) -> usize {
    let b = sym_u8() as usize;
    if b >= n {
        stop("ASSUME-FAILED", 11);
    }
    b
}
#[no_mangle]
extern "C" fn sym_assume(c: bool) {
    if !c {
        stop("ASSUME-FAILED", 11);
    }
}
#[no_mangle]
extern "C" fn sym_check(c: bool, msg: *const u8, n: usize) {
    if !c {
        let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(msg, n)) };
        stop(&format!("CHECK-FAILED {}", m), 10);
    }
}
#[no_mangle]
extern "C" fn sym_emit(p: *const u8, n: usize) {
    let s = st();
    if std::env::var_os("SHOW").is_some() {
        eprintln!("EMIT {}", String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }));
    }
    for &b in unsafe { std::slice::from_raw_parts(p, n) } {
        s.hash = (s.hash ^ b as u64).wrapping_mul(0x100_0000_01b3);
        s.len += 1;
        if std::env::args().count() > 3 {
            s.failed.get_or_insert_with(String::new).push(b as char);
        }
    }
}
#[no_mangle]
extern "C" fn sym_cover(_i: usize) {}
#[no_mangle]
extern "C" fn sym_live() -> usize {
    LIVE.load(Ordering::Relaxed)
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn run(entry: &str, hex: &str) -> (u64, u64) {
    let f = match harness::find(entry) {
        Some(f) => f,
        None => stop("NO-SUCH-ENTRY", 14),
    };
    *st() = St { input: unhex(hex), pos: 0, hash: 0xcbf2_9ce4_8422_2325, len: 0, failed: None };
    f();
    (st().hash, st().len)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--batch" {
        let t = std::fs::read_to_string(&args[2]).unwrap();
        for l in t.lines() {
            let (e, h) = l.split_once(' ').unwrap();
            let (hash, len) = run(e, h);
            println!("{:016x} {}", hash, len);
        }
        return;
    }
    let (hash, len) = run(&args[1], args.get(2).map(|s| s.as_str()).unwrap_or(""));
    println!("DONE {:016x} {}", hash, len);
    if let Some(s) = &st().failed {
        println!("EMIT {:?}", s);
    }
}
