//! Runs one harness entry natively on a recorded list of inputs.
//!
//! usage: replay ENTRY FILE      FILE holds one input per line: "c N" choice, "f HEX" f32 bits, "i N" integer, "t N" tier.
//! exit 0: all checks held; 3: a check failed; 4: an assumption did not hold; 5: the recorded list does not fit; 101: panic.
use std::cell::RefCell;

struct St { items: Vec<(char, i64)>, pos: usize, tier: u32, exact: bool }
thread_local! { static S: RefCell<St> = RefCell::new(St { items: vec![], pos: 0, tier: 0, exact: false }); }

fn next(kind: char) -> i64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        if s.pos >= s.items.len() || s.items[s.pos].0 != kind {
            println!("MISFIT at {} wanted {}", s.pos, kind);
            std::process::exit(5);
        }
        s.pos += 1;
        s.items[s.pos - 1].1
    })
}
fn text(p: *const u8, n: usize) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() } }
fn float() -> f32 { f32::from_bits(next('f') as u32) }

#[no_mangle] pub extern "C" fn vp_f32() -> f32 { float() }
#[no_mangle] pub extern "C" fn vp_fin() -> f32 { float() }
#[no_mangle] pub extern "C" fn vp_range(lo: f32, hi: f32) -> f32 { let x = float(); if x >= lo && x <= hi { x } else { println!("ASSUME range"); std::process::exit(4) } }
#[no_mangle] pub extern "C" fn vp_unit(n: u32, out: *mut f32) { for i in 0..n as usize { unsafe { *out.add(i) = float() } } }
#[no_mangle] pub extern "C" fn vp_u8() -> u8 { next('i') as u8 }
#[no_mangle] pub extern "C" fn vp_pin(x: u8) -> u8 { x }
#[no_mangle] pub extern "C" fn vp_i8() -> i8 { next('i') as i8 }
#[no_mangle] pub extern "C" fn vp_u16() -> u16 { next('i') as u16 }
#[no_mangle] pub extern "C" fn vp_i32() -> i32 { next('i') as i32 }
#[no_mangle] pub extern "C" fn vp_choose(n: u8) -> u8 { let v = next('c'); if v < 0 || v >= n as i64 { println!("MISFIT choice"); std::process::exit(5) } v as u8 }
#[no_mangle] pub extern "C" fn vp_assume(c: bool) { if !c { println!("ASSUME"); std::process::exit(4) } }
#[no_mangle] pub extern "C" fn vp_check(c: bool, id: *const u8, n: usize) { if !c { println!("FAIL {}", text(id, n)); std::process::exit(3) } }
#[no_mangle] pub extern "C" fn vp_close(a: f32, b: f32, tol: f32, id: *const u8, n: usize) {
    // The solver asks for |a-b| > tol over exact reals; half of the tolerance is left to rounding.
    let d = (a as f64 - b as f64).abs();
    if !(d <= tol as f64 * 0.5 + 1e-12) { println!("FAIL {} got {:e} want {:e}", text(id, n), a, b); std::process::exit(3) }
}
#[no_mangle] pub extern "C" fn vp_same(a: f32, b: f32, id: *const u8, n: usize) {
    let exact = S.with(|s| s.borrow().exact);
    let ok = if exact { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) } else { (a as f64 - b as f64).abs() <= 1e-4 * (1.0 + (b as f64).abs()) };
    if !ok { println!("FAIL {} got {:e} want {:e}", text(id, n), a, b); std::process::exit(3) }
}
#[no_mangle] pub extern "C" fn vp_reach(id: *const u8, n: usize) { println!("REACH {}", text(id, n)); }
#[no_mangle] pub extern "C" fn vp_tier() -> u32 { S.with(|s| s.borrow().tier) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let body = std::fs::read_to_string(&a[2]).expect("input file");
    let mut st = St { items: vec![], pos: 0, tier: 0, exact: false };
    for l in body.lines() {
        let mut it = l.split_whitespace();
        let (k, v) = match (it.next(), it.next()) { (Some(k), Some(v)) => (k, v), _ => continue };
        match k {
            "c" | "i" => st.items.push((k.chars().next().unwrap(), v.parse().unwrap())),
            "f" => st.items.push(('f', u32::from_str_radix(v, 16).unwrap() as i64)),
            "t" => st.tier = v.parse().unwrap(),
            "x" => st.exact = v == "1",
            _ => {}
        }
    }
    S.with(|s| *s.borrow_mut() = st);
    for (n, f) in harness::ENTRIES {
        if *n == a[1] {
            f();
            println!("DONE");
            return;
        }
    }
    println!("no entry {}", a[1]);
    std::process::exit(6);
}
