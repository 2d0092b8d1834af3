//! Runs vector-operation wrappers on given operands: each line of stdin is "NAME HEX OUTLEN"; prints the output bytes in hex.
use std::io::{BufRead, Write};
#[repr(C, align(64))]
struct Buf([u8; 512]);
fn main() {
    let t: std::collections::HashMap<&str, unsafe fn(*const u8, *mut u8)> = vops::TABLE.iter().cloned().collect();
    let (mut i, mut o) = (Box::new(Buf([0; 512])), Box::new(Buf([0; 512])));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap(); let mut w = l.split(' ');
        let f = t[w.next().unwrap()]; let h = w.next().unwrap(); let n: usize = w.next().unwrap().parse().unwrap(); let sh: usize = w.next().unwrap().parse().unwrap();
        i.0 = [0xa5; 512]; o.0 = [0x5a; 512];
        for k in 0..h.len() / 2 { i.0[64 + sh + k] = u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap(); }
        unsafe { f(i.0.as_ptr().add(64 + sh), o.0.as_mut_ptr().add(64 + sh)); }
        let mut s: String = o.0[64 + sh..64 + sh + n].iter().map(|b| format!("{b:02x}")).collect();
        if o.0[..64 + sh].iter().any(|b| *b != 0x5a) || o.0[64 + sh + n..].iter().any(|b| *b != 0x5a) { s.push('!'); }
        let mut q = out.lock(); writeln!(q, "{s}").unwrap(); q.flush().unwrap();
    }
}
