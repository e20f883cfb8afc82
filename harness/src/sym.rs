//! The interface between a harness and the symbolic engine (or, for replays,
//! the native shim in /verif/native).

extern "C" {
    fn sym_u8() -> u8;
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_choice(n: usize) -> usize;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, msg: *const u8, n: usize);
    fn sym_emit(p: *const u8, n: usize);
    fn sym_cover(i: usize);
    fn sym_live() -> usize;
}

/// A fresh symbolic byte.
pub fn byte() -> u8 {
    unsafe { sym_u8() }
}

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sym_bytes(b.as_mut_ptr(), N) };
    b
}

/// A symbolic integer in `0..n`, decided by an n-way fork.
pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n) }
}

pub fn flag() -> bool {
    choice(2) == 1
}

pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}

pub fn check(c: bool, msg: &str) {
    unsafe { sym_check(c, msg.as_ptr(), msg.len()) }
}

pub fn emit(b: &[u8]) {
    unsafe { sym_emit(b.as_ptr(), b.len()) }
}

/// Records that this path reached situation `i` (a witness that the check is
/// not vacuous).
pub fn cover(i: usize) {
    unsafe { sym_cover(i) }
}

/// Number of live heap objects.
pub fn live() -> usize {
    unsafe { sym_live() }
}

/// A symbolic byte out of `set` (no fork).
pub fn among(set: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for &s in set {
        ok |= b == s;
    }
    assume(ok);
    b
}

/// An arbitrary printable ASCII character with no role in markup (no fork).
pub fn plain() -> u8 {
    let b = byte();
    assume((b > 0x20) & (b < 0x7f) & (b != b'<') & (b != b'>') & (b != b'&') & (b != b'"') & (b != b'\'') & (b != b']'));
    b
}

/// An ASCII letter (no fork).
pub fn letter() -> u8 {
    let b = byte();
    assume(((b | 0x20) >= b'a') & ((b | 0x20) <= b'z'));
    b
}

pub fn lower() -> u8 {
    let b = byte();
    assume((b >= b'a') & (b <= b'z'));
    b
}
