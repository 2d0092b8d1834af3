//! Native replay of parallel encoding against a reference encoder (real rayon). Same command line as ../native.
use base64_simd::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
struct Rng(u64);
impl Rng { fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 8 } fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize } }
fn reference(s: &[u8], url: bool, pad: bool) -> Vec<u8> {
    let a: &[u8; 64] = if url { b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" } else { b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/" };
    let mut o = vec![];
    for c in s.chunks(3) {
        let w = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { if i <= c.len() { o.push(a[(w >> (18 - 6 * i) & 63) as usize]) } else if pad { o.push(b'=') } }
    }
    o
}
static mut CUR: (&str, usize, usize) = ("", 0, 0);
extern "C" { fn signal(s: i32, h: usize) -> usize; fn _exit(c: i32) -> !; fn alarm(s: u32) -> u32; }
extern "C" fn on_sig(s: i32) { unsafe { let c = CUR; println!("MISMATCH\t{}\tavx2\t{}\t{}\tsignal {}", c.0, c.1, "00".repeat(c.2), if s == 11 { "SIGSEGV" } else if s == 14 { "timeout" } else { "abort" }); _exit(1) } }
static NAMES: [(&str, Base64, bool, bool); 4] = [("b64s_par", STANDARD, false, true), ("b64u_par", URL_SAFE, true, true), ("b64sn_par", STANDARD_NO_PAD, false, false), ("b64un_par", URL_SAFE_NO_PAD, true, false)];
fn run(pools: &[rayon::ThreadPool], e: &'static (&'static str, Base64, bool, bool), data: &[u8], d: usize) -> Option<String> {
    unsafe { CUR = (e.0, d, data.len()); alarm(30); }
    let want = reference(data, e.2, e.3);
    for p in pools {
        let mut buf = vec![0x5au8; d + 64]; let base = buf.as_ptr();
        let r = catch_unwind(AssertUnwindSafe(|| p.install(|| e.1.par_encode(data, buf[..d].as_mut().as_out()).map(|x| (x.as_ptr() as usize, x.len())).ok())));
        let t = p.current_num_threads();
        match r {
            Err(_) => return Some(format!("panicked ({t} threads, {} bytes into {d})", data.len())),
            Ok(None) => if d >= want.len() { return Some(format!("got Err, expected Ok ({t} threads, {} bytes into {d})", data.len())) },
            Ok(Some((q, l))) => {
                if d < want.len() { return Some(format!("got Ok, expected Err ({t} threads, {} bytes into {d})", data.len())) }
                if l != want.len() || buf[..l] != want[..] { let k = (0..l.min(want.len())).find(|&i| buf[i] != want[i]); return Some(format!("differs from sequential encoding ({t} threads, {} bytes, first difference at {k:?}, length {l}/{})", data.len(), want.len())) }
                if q != base as usize { return Some("the result does not start at the destination".into()) }
            }
        }
        if let Some(i) = (want.len().min(d)..buf.len()).find(|&i| buf[i] != 0x5a) { if d >= want.len() || i >= d { return Some(format!("byte {i} outside the result was modified ({t} threads)")) } }
    }
    None
}
fn hexs(v: &[u8]) -> String { if v.is_empty() { return "-".into() } v.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { if s == "-" { return vec![] } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    for s in [11, 6, 7, 14] { unsafe { signal(s, on_sig as *const () as usize); } }
    if a[2] != "avx2" { println!("CALLS 0"); return }
    let pools: Vec<_> = [1, 2, 3, 5, 8].iter().map(|&n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
    let find = |n: &str| NAMES.iter().find(|e| e.0 == n).unwrap();
    let rep = |e: &(&str, Base64, bool, bool), d: usize, v: &[u8], m: String| { println!("MISMATCH\t{}\tavx2\t{}\t{}\t{}", e.0, d, hexs(v), m) };
    let mut calls = 0u64; let mut bad = 0;
    match a[1].as_str() {
        "exact" => { let e = find(&a[3]); let v = unhex(&a[5]); if let Some(m) = run(&pools, e, &v, a[4].parse().unwrap()) { rep(e, a[4].parse().unwrap(), &v, m); bad = 1 } else { println!("HOLDS") } }
        "case" => { let e = find(&a[3]); let mut g = Rng(a[6].parse::<u64>().unwrap() | 1);
            let t0 = Instant::now();
            for _ in 0..a[7].parse::<usize>().unwrap().min(10) { if t0.elapsed() > Duration::from_secs(4) { break }
                let n: usize = a[4].parse().unwrap_or_else(|_| 8192 + g.below(100000)); if n > 1 << 20 { break }
                let mut v: Vec<u8> = (0..n).map(|_| g.next() as u8).collect();
                for x in a[8].split(',').filter(|x| !x.is_empty()) { let (i, b) = x.split_once(':').unwrap(); let i: usize = i.parse().unwrap(); if i < n { v[i] = b.parse().unwrap() } }
                let d = a[5].parse().unwrap_or_else(|_| reference(&v, e.2, e.3).len()); if d > 1 << 22 { break }
                calls += 1; if let Some(m) = run(&pools, e, &v, d) { rep(e, d, &v, m); bad = 1; break } } }
        _ => { let mut g = Rng(a[3].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1); let secs: f64 = a[4].parse().unwrap();
            for n in &a[5..] { let e = find(n); let t0 = Instant::now(); let mut it = 0usize;
                while t0.elapsed().as_secs_f64() < secs { it += 1;
                    let n = match g.below(8) { 0 => g.below(100), 1 => 8180 + g.below(40), 2 => 4096 * (2 + g.below(8)) + g.below(9), 3 => [24570, 24573, 24576, 24579, 12288, 12291, 8193][g.below(7)] + g.below(4), _ => 8192 + g.below(60000) };
                    let v: Vec<u8> = (0..n).map(|_| g.next() as u8).collect(); let w = if e.3 { (n + 2) / 3 * 4 } else { (n * 4 + 2) / 3 };
                    let d = match it % 5 { 0 if w > 0 => w - 1 - g.below(w.min(9)), 1 => w + g.below(40), 2 => g.below(w + 1), _ => w };
                    calls += 1; if let Some(m) = run(&pools, e, &v, d) { rep(e, d, &v, m); bad = 1; break } }
                if bad == 1 { break } } }
    }
    println!("CALLS {calls}"); std::process::exit(bad);
}
