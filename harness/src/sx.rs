//! The interface between harnesses and the symbolic engine. The engine replaces these functions by
//! their symbolic meaning; natively they read the inputs of a counterexample to be replayed.
use std::cell::RefCell;

pub struct Native {
    pub inputs: Vec<i128>,
    pub pos: usize,
    pub tier: u32,
    pub verbose: bool,
}
thread_local! { pub static NAT: RefCell<Native> = const { RefCell::new(Native { inputs: Vec::new(), pos: 0, tier: 0, verbose: false }) } }

pub const EXIT_ASSERT: i32 = 3;
pub const EXIT_ASSUME: i32 = 4;

fn next() -> Option<i128> {
    NAT.with(|n| {
        let mut n = n.borrow_mut();
        n.pos += 1;
        n.inputs.get(n.pos - 1).copied()
    })
}
mod imp {
    use super::*;
    pub extern "C" fn int(lo: i128, hi: i128) -> i128 {
        let v = next().unwrap_or(0.max(lo).min(hi));
        if v < lo || v > hi {
            println!("ASSUME input {v} outside [{lo},{hi}]");
            std::process::exit(EXIT_ASSUME)
        }
        v
    }
    pub extern "C" fn choose(n: u32) -> u32 {
        let v = next().unwrap_or(0);
        if v < 0 || v >= n as i128 {
            println!("ASSUME choice {v} outside {n}");
            std::process::exit(EXIT_ASSUME)
        }
        v as u32
    }
    pub extern "C" fn assume(c: bool) {
        if !c {
            println!("ASSUME");
            std::process::exit(EXIT_ASSUME)
        }
    }
    pub extern "C" fn assert(c: bool, p: *const u8, n: usize) {
        if !c {
            let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
            println!("ASSERT {s}");
            std::process::exit(EXIT_ASSERT)
        }
    }
    pub extern "C" fn note(p: *const u8, n: usize) {
        let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        if NAT.with(|n| n.borrow().verbose) {
            println!("NOTE {s}");
        }
    }
    pub extern "C" fn conc(v: i128) -> i128 { v }
    pub extern "C" fn is_sym(_v: i128) -> bool { false }
    pub extern "C" fn tier() -> u32 { NAT.with(|n| n.borrow().tier) }
    pub extern "C" fn verbose() -> bool { NAT.with(|n| n.borrow().verbose) }
}

macro_rules! api {
    ($($name:ident, $imp:path, ($($a:ident : $t:ty),*) $(-> $r:ty)?;)*) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $name($($a: $t),*) $(-> $r)? {
                static mut F: extern "C" fn($($t),*) $(-> $r)? = $imp;
                let f = unsafe { std::ptr::read_volatile(&raw const F) };
                f($($a),*)
            }
        )*
    };
}
pub(crate) use api;

api! {
    sx_int, imp::int, (lo: i128, hi: i128) -> i128;
    sx_choose, imp::choose, (n: u32) -> u32;
    sx_assume, imp::assume, (c: bool);
    sx_assert, imp::assert, (c: bool, p: *const u8, n: usize);
    sx_note, imp::note, (p: *const u8, n: usize);
    sx_conc, imp::conc, (v: i128) -> i128;
    sx_is_sym, imp::is_sym, (v: i128) -> bool;
    sx_tier, imp::tier, () -> u32;
    sx_verbose, imp::verbose, () -> bool;
}

/// a symbolic integer in [lo, hi]
pub fn int(lo: i128, hi: i128) -> i128 { sx_int(lo, hi) }
/// the same, with bounds (quick, thorough)
pub fn int2(q: (i128, i128), t: (i128, i128)) -> i128 { if thorough() { sx_int(t.0, t.1) } else { sx_int(q.0, q.1) } }
/// a nondeterministic choice in 0..n (every value explored)
pub fn choose(n: u32) -> u32 { sx_choose(n) }
pub fn assume(c: bool) { sx_assume(c) }
pub fn check(c: bool, label: &str) { sx_assert(c, label.as_ptr(), label.len()) }
pub fn note(s: &str) { sx_note(s.as_ptr(), s.len()) }
pub fn conc(v: i128) -> i128 { sx_conc(v) }
pub fn thorough() -> bool { sx_tier() > 0 }
/// true when inputs are concrete: printing is affordable
pub fn verbose() -> bool { sx_verbose() }
pub fn show(label: &str, x: &impl std::fmt::Debug) { if verbose() { note(&format!("{label}: {x:?}")) } }
