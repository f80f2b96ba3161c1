#![allow(dead_code, unused_imports)]
mod rr;
mod sx;
mod h19;
#[path = "../../build/macro_src/lib.rs"]
mod m;
#[macro_export]
macro_rules! pmi {
    ($t:ident as $ty:ty) => { match syn::parse2::<$ty>($t) { Ok(d) => d, Err(e) => return e.to_compile_error().into() } };
    ($t:ident with $p:path) => { match syn::parse::Parser::parse2($p, $t) { Ok(d) => d, Err(e) => return e.to_compile_error().into() } };
    ($t:ident) => { $crate::pmi!($t as _) };
}
macro_rules! harnesses {
    ($($name:ident = $f:path;)*) => {
        $( #[no_mangle] #[inline(never)] pub extern "C" fn $name() { $f() } )*
        static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
harnesses! {
    c19_pair = h19::pair; c19_three = h19::three; c19_unary = h19::unary; c19_paren = h19::paren; c19_func = h19::func; c19_long = h19::long; c19_two = h19::two; c19_number = h19::number;
}
fn main() {
    let mut a = std::env::args().skip(1);
    let name = match a.next() { Some(n) => n, None => { for (n, _) in TABLE { println!("{n}") } return } };
    let tier = a.next().and_then(|s| s.parse().ok()).unwrap_or(0);
    let inputs = a.next().unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("input")).collect();
    let verbose = a.next().is_some();
    sx::NAT.with(|n| { let mut n = n.borrow_mut(); n.inputs = inputs; n.tier = tier; n.verbose = verbose });
    let table = unsafe { std::ptr::read_volatile(&raw const TABLE) };
    match table.iter().find(|t| t.0 == name) {
        Some(t) => { (t.1)(); println!("OK") }
        None => { println!("no such harness"); std::process::exit(2) }
    }
}
