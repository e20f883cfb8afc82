//! Not a property: exercises the standard library under the engine.
use crate::sym::*;
use std::collections::*;
use std::rc::Rc;
use std::cell::{Cell, RefCell};
use std::sync::*;
use std::borrow::Cow;
use std::fmt::Write as _;
use std::io::{Read, Write, BufRead};

fn h(s: &str) { emit(s.as_bytes()); emit(b"|"); }

fn maps() {
    let k = letter();
    let mut m: HashMap<u8, String> = HashMap::new();
    for i in 0..20u8 { m.insert(b'a' + i, format!("v{i}")); }
    m.entry(b'z').or_default().push('q');
    if let Some(v) = m.get(&b'c') { h(v); }
    let mut ks: Vec<_> = m.keys().copied().collect(); ks.sort(); emit(&ks);
    let mut hs: HashSet<String> = HashSet::new(); hs.insert("x".into()); check(hs.contains("x"), "hs");
    let mut b: BTreeMap<u8, u32> = BTreeMap::new();
    for i in 0..30u8 { b.insert((i * 7) % 30, i as u32); }
    b.insert(k, 7);
    check(b[&k] == 7, "bt");
    let s: u32 = b.range(3..10).map(|x| *x.1).sum(); h(&s.to_string());
    let bs: BTreeSet<String> = ["b", "a", "c"].iter().map(|s| s.to_string()).collect();
    h(&bs.iter().cloned().collect::<Vec<_>>().join(","));
    b.remove(&k); check(!b.contains_key(&k), "bt2");
    let mut d: VecDeque<u8> = VecDeque::new(); for i in 0..10 { d.push_back(i); if i % 3 == 0 { d.pop_front(); } } emit(d.make_contiguous());
    let mut hp = BinaryHeap::new(); for i in [3, 1, 2, k] { hp.push(i); } check(hp.pop() == Some(k), "heap");
    let mut l = LinkedList::new(); l.push_back(1); l.push_front(0); check(l.len() == 2, "ll");
}
fn sorts() {
    let mut v: Vec<u8> = bytes::<3>().to_vec(); v.push(7); v.push(3);
    v.sort(); check(v.windows(2).all(|w| w[0] <= w[1]), "sort");
    let mut u: Vec<(u8, u8)> = (0..40u8).map(|i| ((i as u32 * 37 % 41) as u8, i)).collect();
    u.sort_unstable(); u.sort_by_key(|x| std::cmp::Reverse(x.1)); u.sort_by(|a, b| a.0.cmp(&b.0)); u.dedup_by_key(|x| x.0 / 2); u.retain(|x| x.1 % 3 != 0);
    for x in &u { emit(&[x.0, x.1]); }
    let c = letter();
    let t = [b'a', b'f', b'k', b'q', b'z'];
    let r = t.binary_search(&c); check(r.is_ok() == t.contains(&c), "bs");
    let p = t.partition_point(|x| *x < c); check(p <= 5, "pp");
    let r = t.binary_search_by(|x| x.cmp(&c)); let _ = t.binary_search_by_key(&c, |x| *x); emit(&[r.is_ok() as u8]);
    let mut w = vec![1, 2, 3, 4, 5, 6]; w.swap(0, 3); w.rotate_left(2); w.drain(1..3); w.splice(0..1, [9, 9]); w.insert(1, 8); w.truncate(5); w.extend_from_slice(&[1, 2]); w.reverse(); w.copy_within(0..2, 3); emit(&w);
    let q: Vec<u8> = w.split_off(2); emit(&q); let (a, b) = q.split_at(1); emit(&[a, b].concat());
    check(w.iter().max() >= w.iter().min(), "mm");
}
fn strs() {
    let c = plain() as char;
    let mut s = String::from("hello, "); s.push(c); s += " world\n second \u{20ac} line";
    h(&s.replace("lo", "LO")); h(&s.to_uppercase()); h(s.trim_end_matches("line"));
    for l in s.lines() { h(l.trim()); }
    for w in s.split_whitespace() { h(w); }
    for w in s.split(|c: char| c == ',' || c == 'o') { h(w); }
    for w in s.rsplitn(2, ' ') { h(w); }
    if let Some((a, b)) = s.split_once("world") { h(a); h(b); }
    h(&format!("{:?}", s.find("second"))); h(&format!("{:?} {:?}", s.rfind('l'), s.find(char::is_numeric)));
    check(s.starts_with("hello"), "sw"); check(!s.ends_with("x"), "ew"); h(&s.chars().rev().collect::<String>());
    for (i, c) in s.char_indices().step_by(5) { h(&format!("{i}{c}")); }
    h(&String::from_utf8_lossy(b"ab\xffc")); check(std::str::from_utf8(&[0xe2, 0x82]).is_err(), "u8");
    h(&format!("{:>8}|{:<5}|{:^7}|{:#x}|{:?}", "ab", 12, "mid", 255, "q\"\n"));
    h(&"abc".repeat(3)); h(&["a", "b"].join("-")); check("10".parse::<i32>() == Ok(10), "p");
    let mut cs = "a=b;c".chars().peekable(); while let Some(c) = cs.next() { if cs.peek() == Some(&'=') { h(&c.to_string()); } }
    h(&"x y".bytes().map(|b| b.to_ascii_uppercase() as char).collect::<String>()); check("\u{a0}".trim().is_empty(), "tr");
    let b: Box<str> = "boxed".into(); let r: Rc<str> = "rc".into(); h(&b); h(&r); let cow: Cow<str> = "c".into(); h(&(cow + "d"));
    let mut o = String::new(); write!(o, "{:5}{:+}", 1u8, -3i64).unwrap(); writeln!(o, "{:?}", (1, "a", Some(2), [1u8; 3])).unwrap(); h(&o);
    check("abc" < "abd", "cmp"); check("ABC".eq_ignore_ascii_case("abc"), "ic"); h(&u32::from_str_radix("ff", 16).unwrap().to_string()); h(&char::from_u32(0x20ac).unwrap().to_string()); h(&format!("{}", 'a'.escape_unicode()));
    s.retain(|c| c != 'l'); s.insert(0, 'X'); s.insert_str(1, "YZ"); s.remove(2); s.pop(); s.truncate(9); h(&s); s.clear(); let _ = s.drain(..).count();
    h(&format!("{:?}", "a,b,,c".split(',').filter(|x| !x.is_empty()).map(str::to_owned).collect::<Vec<_>>())); h("a-b_c".trim_matches(|c| c == 'a' || c == 'c'));
    h(&"aXbXc".splitn(2, 'X').last().unwrap()); h(&"aXbXc".matches('X').count().to_string()); h(&format!("{:?}", "abc".strip_prefix("a"))); h(&format!("{:?}", "tEst".char_indices().find(|(_, c)| c.is_uppercase())));
}
thread_local! { static TL: RefCell<Vec<u8>> = RefCell::new(Vec::new()); static TC: Cell<u32> = const { Cell::new(0) }; }
static LOCK: Mutex<u32> = Mutex::new(0);
static ONCE: OnceLock<String> = OnceLock::new();
static AT: atomic::AtomicUsize = atomic::AtomicUsize::new(0);
trait Shape { fn area(&self) -> u32; fn name(&self) -> String { "shape".into() } }
struct Sq(u32); impl Shape for Sq { fn area(&self) -> u32 { self.0 * self.0 } }
struct Re(u32, u32); impl Shape for Re { fn area(&self) -> u32 { self.0 * self.1 } fn name(&self) -> String { "re".into() } }
fn misc() {
    TL.with(|t| t.borrow_mut().push(letter())); TC.with(|c| c.set(c.get() + 1)); TL.with(|t| emit(&t.borrow()));
    *LOCK.lock().unwrap() += 1; h(ONCE.get_or_init(|| "once".into())); AT.fetch_add(2, atomic::Ordering::SeqCst);
    let rw = RwLock::new(5); *rw.write().unwrap() += 1; check(*rw.read().unwrap() == 6, "rw");
    let rc = Rc::new(RefCell::new(vec![1u8])); let w = Rc::downgrade(&rc); rc.borrow_mut().push(2); emit(&w.upgrade().unwrap().borrow()); drop(rc); check(w.upgrade().is_none(), "weak");
    let ar = Arc::new(3); let a2 = Arc::clone(&ar); check(Arc::strong_count(&a2) == 2, "arc");
    let shapes: Vec<Box<dyn Shape>> = vec![Box::new(Sq(3)), Box::new(Re(2, 5))]; for s in &shapes { h(&format!("{}{}", s.name(), s.area())); }
    let n = byte(); let f: Box<dyn Fn(u8) -> u8> = Box::new(move |x| x.wrapping_add(n)); emit(&[f(1)]);
    check(n.checked_add(1).is_none() == (n == 255), "ca"); check(n.saturating_sub(5) <= n, "ss"); emit(&[n.leading_zeros() as u8, n.count_ones() as u8, n.rotate_left(3), n.reverse_bits(), n.trailing_zeros() as u8]);
    let big = (n as u128) << 64 | 5; check((big >> 64) as u8 == n, "128"); check((n as i32 - 128).rem_euclid(7) < 7, "re"); check(3u64.pow(7) == 2187, "pow"); check(1u32.abs_diff(5) == 4, "ad");
    emit(&(n as u32).to_be_bytes()); check(u16::from_le_bytes([n, 0]) == n as u16, "le");
    let mut c = std::io::Cursor::new(b"line one\nline two\n".to_vec()); let mut l = String::new(); let mut br = std::io::BufReader::new(&mut c); br.read_line(&mut l).unwrap(); h(&l); let mut rest = Vec::new(); br.read_to_end(&mut rest).unwrap(); emit(&rest);
    let mut bw = std::io::BufWriter::new(Vec::new()); bw.write_all(b"abc").unwrap(); write!(bw, "{}", 5).unwrap(); emit(&bw.into_inner().unwrap());
    let it = (1..10).filter(|x| x % 2 == 1).zip("abcde".chars()).skip(1).take(3).enumerate().map(|(i, (a, b))| format!("{i}{a}{b}")).collect::<Vec<_>>(); h(&it.join("/"));
    let (ev, od): (Vec<i32>, Vec<i32>) = (0..10).partition(|x| x % 2 == 0); check(ev.len() == od.len(), "pa"); check((1..=5).fold(0, |a, b| a * 2 + b) == 57, "fo"); h(&format!("{:?}", [1, 5, 2].iter().max_by_key(|x| **x)));
    let r: Result<Vec<u8>, std::num::ParseIntError> = ["1", "2", "x"].iter().map(|s| s.parse::<u8>()).collect(); h(&r.unwrap_err().to_string());
    let o: Option<Vec<u8>> = [Some(1), None].into_iter().collect(); check(o.is_none(), "oc"); let mut op = Some(3); check(op.take() == Some(3) && op.is_none(), "ot"); h(&format!("{:?}", op.get_or_insert(4))); check(Some(3).and_then(|x: i32| x.checked_sub(4)).map_or(true, |x| x < 0), "x");
    for ch in [1, 2, 3, 4, 5].chunks(2) { emit(&[ch.len() as u8]); } for w in [1, 2, 3].rchunks(2) { emit(w); } emit(&[1u8, 2, 3, 4].iter().rev().skip_while(|x| **x > 3).scan(0, |s, x| { *s += x; Some(*s) }).collect::<Vec<u8>>());
    let mut arr = [0u8; 8]; arr[2..5].copy_from_slice(&[n, n, n]); arr.fill(3); emit(&arr.map(|x| x + 1)); check(arr.iter().position(|x| *x == 4).is_none(), "po"); check(std::mem::size_of::<Option<Box<u8>>>() == 8, "sz");
    let e: Box<dyn std::error::Error + Send + Sync> = "err".into(); h(&e.to_string()); let e2 = std::io::Error::new(std::io::ErrorKind::Other, e); h(&format!("{e2} {e2:?}")); check(e2.source_is(), "src");
    let d = std::time::Duration::from_millis(1500); h(&format!("{d:?}")); let any: Box<dyn std::any::Any> = Box::new(5u8); check(any.downcast_ref::<u8>() == Some(&5), "any"); h(std::any::type_name::<Sq>());
    let s: &'static str = Box::leak(String::from("leak").into_boxed_str()); h(s); let p = std::path::Path::new("a/b.c"); h(p.extension().unwrap().to_str().unwrap());
    let v = vec![Some(1), None]; h(&v.iter().flatten().map(|x| x.to_string()).collect::<Vec<_>>().concat()); let mut it = v.into_iter(); it.next(); drop(it); let mut big = Vec::<u64>::with_capacity(100); big.resize(90, 7); big.shrink_to_fit(); check(big.iter().copied().sum::<u64>() == 630, "sum"); h(&std::iter::successors(Some(1u32), |x| (*x < 50).then(|| x * 3)).map(|x| x.to_string()).collect::<String>()); h(&std::iter::repeat('z').take(4).collect::<String>());
    let bm: u64 = (0..8).map(|i| (n as u64) << (8 * i)).fold(0, |a, b| a | b); check(bm as u8 == n, "bm");
}
trait SourceIs { fn source_is(&self) -> bool; }
impl SourceIs for std::io::Error { fn source_is(&self) -> bool { self.get_ref().is_some() } }
fn long() {
    // crosses SIMD/word-at-a-time paths
    let mut v = vec![b'a'; 100]; let i = choice(100); v[i] = letter();
    let s = std::str::from_utf8(&v).unwrap(); check(s.is_ascii(), "asc"); h(&format!("{:?}", s.find('z').is_some())); check(s.bytes().filter(|b| *b == b'a').count() >= 99, "n"); check(v.contains(&b'a'), "c");
    let t = s.to_owned() + "needle in"; check(t.find("needle").is_some(), "nd"); check(t.contains("needle"), "ct"); h(&t.chars().count().to_string()); check(t.as_bytes().eq_ignore_ascii_case(t.as_bytes()), "eq"); check(t.rfind("needle").is_some(), "rf"); h(&t.to_lowercase()); h(&t.to_ascii_uppercase());
    let w: Vec<u8> = v.iter().map(|x| x ^ 1).collect(); let z: u32 = w.iter().map(|x| *x as u32).sum(); check(z > 0, "z"); check(v != w, "ne"); let mx = v.iter().max().unwrap(); check(*mx >= b'A', "mx");
    let hsh = { use std::hash::{Hash, Hasher}; let mut hh = std::collections::hash_map::DefaultHasher::new(); "concrete".hash(&mut hh); hh.finish() }; emit(&hsh.to_le_bytes());
}
crate::harnesses! { h_zoo_maps => maps(); h_zoo_sorts => sorts(); h_zoo_strs => strs(); h_zoo_misc => misc(); h_zoo_long => long(); }
