//! Primitives of the symbolic executor. Under the executor these are intercepted; in the native
//! replay binary they read the recorded assignment.
extern "C" {
    fn sx_byte() -> u8;
    fn sx_range(lo: u8, hi: u8) -> u8;
    fn sx_in(p: *const u8, n: usize) -> u8;
    fn sx_pick(n: u32) -> u32;
    fn sx_assume(c: bool);
    fn sx_check(c: bool, p: *const u8, n: usize);
    fn sx_obs(v: u64);
    fn sx_note(tp: *const u8, tn: usize, p: *const u8, n: usize);
    fn sx_cover(i: u32);
    fn sx_hash_tab(p: *const u8, n: usize);
    fn sx_conc(v: u64) -> u64;
    fn sx_is_sym() -> bool;
    fn sx_ite(c: bool, a: u64, b: u64) -> u64;
    fn sx_file(np: *const u8, nn: usize, p: *const u8, n: usize);
    fn sx_out(fd: u32, p: *mut u8, cap: usize) -> usize;
    fn sx_read(np: *const u8, nn: usize, p: *mut u8, cap: usize) -> usize;
    fn sx_dir(p: *mut u8, cap: usize) -> usize;
    fn sx_capture(on: bool);
}
/// An arbitrary byte.
pub fn byte() -> u8 { unsafe { sx_byte() } }
/// An arbitrary byte in lo..=hi.
pub fn range(lo: u8, hi: u8) -> u8 { unsafe { sx_range(lo, hi) } }
/// An arbitrary byte of the given set.
pub fn of(s: &[u8]) -> u8 { unsafe { sx_in(s.as_ptr(), s.len()) } }
/// An arbitrary number below n; the paths are split on it.
pub fn pick(n: u32) -> u32 { unsafe { sx_pick(n) } }
pub fn flip() -> bool { pick(2) == 1 }
pub fn assume(c: bool) { unsafe { sx_assume(c) } }
/// The assertion: decided by the solver for every value on this path.
pub fn check(c: bool, msg: &str) { unsafe { sx_check(c, msg.as_ptr(), msg.len()) } }
/// Observation compared between symbolic and native execution.
pub fn obs(v: u64) { unsafe { sx_obs(v) } }
pub fn obs_bytes(b: &[u8]) { let mut h = 0u64; for x in b { h = h.wrapping_mul(31).wrapping_add(*x as u64); } obs(h); }
pub fn note(t: &str, b: &[u8]) { unsafe { sx_note(t.as_ptr(), t.len(), b.as_ptr(), b.len()) } }
pub fn cover(i: u32) { unsafe { sx_cover(i) } }
pub fn hash_tab(t: &[u8]) { unsafe { sx_hash_tab(t.as_ptr(), t.len()) } }
pub fn conc(v: u64) -> u64 { unsafe { sx_conc(v) } }
pub fn is_sym() -> bool { unsafe { sx_is_sym() } }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { sx_ite(c, a, b) } }

const CAP: usize = 1 << 16;
fn filled(f: impl FnOnce(*mut u8, usize) -> usize) -> Vec<u8> { let mut v = vec![0u8; CAP]; let n = f(v.as_mut_ptr(), CAP); v.truncate(n); v }
/// A file with this content.
pub fn file(name: &str, b: &[u8]) { unsafe { sx_file(name.as_ptr(), name.len(), b.as_ptr(), b.len()) } }
/// The content of a file; nothing if there is none.
pub fn read(name: &str) -> Vec<u8> { filled(|p, c| unsafe { sx_read(name.as_ptr(), name.len(), p, c) }) }
/// A new folder of its own.
pub fn dir() -> String { String::from_utf8(filled(|p, c| unsafe { sx_dir(p, c) })).unwrap_or_default() }
/// From here to there standard output (1) and standard error (2) are recorded.
pub fn capture(on: bool) { unsafe { sx_capture(on) } }
pub fn out(fd: u32) -> Vec<u8> { filled(|p, c| unsafe { sx_out(fd, p, c) }) }
