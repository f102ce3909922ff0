//! Native replay: reads lines "<entry> <arg> <arg> <hex bytes>" from stdin, runs the harness entry natively and prints the observations.
use std::cell::RefCell;
use std::io::{BufRead, Write};
struct R { bytes: Vec<u8>, pos: usize, obs: Vec<u64>, notes: Vec<(String, Vec<u8>)>, fails: Vec<String> }
thread_local!(static S: RefCell<R> = RefCell::new(R { bytes: vec![], pos: 0, obs: vec![], notes: vec![], fails: vec![] }));
fn next() -> u8 { S.with(|s| { let mut s = s.borrow_mut(); let b = s.bytes.get(s.pos).copied().unwrap_or(0); s.pos += 1; b }) }
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
#[no_mangle] pub extern "C" fn sx_byte() -> u8 { next() }
#[no_mangle] pub extern "C" fn sx_range(_l: u8, _h: u8) -> u8 { next() }
#[no_mangle] pub unsafe extern "C" fn sx_in(_p: *const u8, _n: usize) -> u8 { next() }
#[no_mangle] pub extern "C" fn sx_pick(_n: u32) -> u32 { next() as u32 }
#[no_mangle] pub extern "C" fn sx_assume(c: bool) { if !c { println!("ASSUME-FAILED"); std::process::exit(4); } }
#[no_mangle] pub unsafe extern "C" fn sx_check(c: bool, p: *const u8, n: usize) {
    if !c { let m = String::from_utf8_lossy(sl(p, n)).to_string(); S.with(|s| s.borrow_mut().fails.push(m.clone())); println!("CHECK-FAILED {m}"); }
}
#[no_mangle] pub extern "C" fn sx_obs(v: u64) { S.with(|s| s.borrow_mut().obs.push(v)) }
#[no_mangle] pub unsafe extern "C" fn sx_note(tp: *const u8, tn: usize, p: *const u8, n: usize) {
    let (t, b) = (String::from_utf8_lossy(sl(tp, tn)).to_string(), sl(p, n).to_vec());
    if std::env::var_os("SX_VERBOSE").is_some() { println!("--- {t}:\n{}\n---", String::from_utf8_lossy(&b)); }
    S.with(|s| s.borrow_mut().notes.push((t, b)))
}
#[no_mangle] pub extern "C" fn sx_cover(_i: u32) {}
#[no_mangle] pub unsafe extern "C" fn sx_hash_tab(_p: *const u8, _n: usize) {}
#[no_mangle] pub extern "C" fn sx_conc(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn sx_is_sym() -> bool { false }
#[no_mangle] pub extern "C" fn sx_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }

// files in a scratch folder; the recorded output in two of them
fn text(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { sl(p, n) }).to_string() }
fn fill(b: &[u8], p: *mut u8, cap: usize) -> usize { let n = b.len().min(cap); unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) }; n }
thread_local!(static D: RefCell<(String, u32, Vec<u8>, Vec<u8>)> = RefCell::new((String::new(), 0, vec![], vec![])));
fn root() -> String { format!("{}/hddl-verif-{}", std::env::temp_dir().display(), std::process::id()) }
#[no_mangle] pub extern "C" fn sx_dir(p: *mut u8, cap: usize) -> usize {
    let d = D.with(|d| { let mut d = d.borrow_mut(); if d.1 > 0 { let _ = std::fs::remove_dir_all(&d.0); } d.1 += 1; d.0 = format!("{}/{}", root(), d.1); std::fs::create_dir_all(&d.0).unwrap(); d.0.clone() });
    fill(d.as_bytes(), p, cap)
}
#[no_mangle] pub extern "C" fn sx_file(np: *const u8, nn: usize, p: *const u8, n: usize) {
    let name = text(np, nn);
    assert!(name.starts_with(&root()));
    if let Some(d) = std::path::Path::new(&name).parent() { std::fs::create_dir_all(d).unwrap(); }
    std::fs::write(name, unsafe { sl(p, n) }).unwrap();
}
#[no_mangle] pub extern "C" fn sx_read(np: *const u8, nn: usize, p: *mut u8, cap: usize) -> usize { fill(&std::fs::read(text(np, nn)).unwrap_or_default(), p, cap) }
extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn close(fd: i32) -> i32; }
thread_local!(static C: RefCell<Option<[i32; 2]>> = RefCell::new(None));
#[no_mangle] pub extern "C" fn sx_capture(on: bool) {
    use std::os::fd::AsRawFd;
    let _ = std::io::stdout().flush();
    let f = |i: i32| format!("{}/out{}", root(), i);
    unsafe {
        if on {
            std::fs::create_dir_all(root()).unwrap();
            let old = [dup(1), dup(2)];
            for i in [1, 2] { let h = std::fs::File::create(f(i)).unwrap(); dup2(h.as_raw_fd(), i); }
            C.with(|c| *c.borrow_mut() = Some(old));
        } else if let Some(old) = C.with(|c| c.borrow_mut().take()) {
            for i in [1, 2] { dup2(old[i as usize - 1], i); close(old[i as usize - 1]); }
            D.with(|d| { let mut d = d.borrow_mut(); d.2 = std::fs::read(f(1)).unwrap(); d.3 = std::fs::read(f(2)).unwrap(); });
        }
    }
}
#[no_mangle] pub extern "C" fn sx_out(fd: u32, p: *mut u8, cap: usize) -> usize { D.with(|d| { let d = d.borrow(); fill(if fd == 1 { &d.2 } else { &d.3 }, p, cap) }) }
struct Clean;
impl Drop for Clean { fn drop(&mut self) { if std::path::Path::new(&root()).exists() { let _ = std::fs::remove_dir_all(root()); } } }

fn main() {
    let _clean = Clean;
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let entry = it.next().unwrap().to_string();
        let a: u64 = it.next().unwrap().parse().unwrap();
        let b: u64 = it.next().unwrap().parse().unwrap();
        let hex = it.next().unwrap_or("");
        let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        S.with(|s| *s.borrow_mut() = R { bytes, pos: 0, obs: vec![], notes: vec![], fails: vec![] });
        hx::run(&entry, a, b);
        let (obs, fails) = S.with(|s| { let s = s.borrow(); (s.obs.clone(), s.fails.len()) });
        println!("OBS {} {}", fails, obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        std::io::stdout().flush().unwrap();
    }
}
