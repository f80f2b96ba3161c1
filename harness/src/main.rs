#![allow(dead_code)]
mod rr;
mod sx;
mod val;
mod gen;
mod h01; mod h02; mod h03; mod h04; mod h05; mod h06; mod h07; mod h08; mod h09; mod h10; mod h11; mod h12; mod h13; mod h14; mod h15; mod h16; mod h17; mod h18; mod h20; mod h21;

macro_rules! harnesses {
    ($($name:ident = $f:path;)*) => {
        $( #[no_mangle] #[inline(never)] pub extern "C" fn $name() { $f() } )*
        static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
harnesses! {
    c01_arith_own = h01::arith_own; c01_arith_var = h01::arith_var; c01_wide = h01::wide; c01_create = h01::create; c01_convert = h01::convert; c01_preds = h01::preds; c01_order = h01::order; c01_consts = h01::consts; c01_big = h01::big; c01_native = h01::native;
    c02_unary = h02::unary; c02_div_rem = h02::div_rem; c02_gcd = h02::gcd; c02_powi = h02::powi; c02_powf = h02::powf; c02_powbig = h02::powbig; c02_binom = h02::binom;
    c03_eq_raw11 = h03::eq_raw11; c03_eq_leaf = h03::eq_leaf; c03_eq_red21 = h03::eq_red21; c03_eq_mirror = h03::eq_mirror; c03_zoo2 = h03::zoo2; c03_zoo2b = h03::zoo2b; c03_zoo3 = h03::zoo3; c03_ord3 = h03::ord3; c03_real = h03::real; c03_near = h03::near;
    c04_expon = h04::expon; c04_s11 = h04::s11; c04_s21 = h04::s21; c04_r11 = h04::r11; c04_f11 = h04::f11; c04_f12 = h04::f12; c04_merge = h04::merge; c04_mergep = h04::mergep; c04_pow = h04::pow; c04_neg = h04::neg; c04_negpow = h04::negpow; c04_forms = h04::forms; c04_named = h04::named; c04_deep = h04::deep; c04_long = h04::long; c04_both = h04::both;
    c05_raw2 = h05::raw2; c05_raw2b = h05::raw2b; c05_raw3 = h05::raw3; c05_rawf = h05::rawf; c05_fun = h05::fun; c05_flat = h05::flat; c05_smart = h05::smart; c05_numeric = h05::numeric; c05_st2 = h05::st2; c05_st3 = h05::st3; c05_stf = h05::stf; c05_sts = h05::sts; c05_sts3 = h05::sts3; c05_stflat = h05::stflat; c05_order = h05::order; c05_deep = h05::deep; c05_deepf = h05::deepf; c05_long = h05::long; c05_branch = h05::branch; c05_pool = h05::pool;
    c06_dup = h06::dup; c06_frac = h06::frac; c06_s2 = h06::s2; c06_s3 = h06::s3; c06_f2 = h06::f2; c06_r2 = h06::r2; c06_full = h06::full; c06_binomial = h06::binomial; c06_deep = h06::deep; c06_long = h06::long; c06_branch = h06::branch; c06_high = h06::high;
    c07_single = h07::single; c07_powers = h07::powers; c07_products = h07::products; c07_tree2 = h07::tree2; c07_tree2f = h07::tree2f; c07_tree3 = h07::tree3; c07_separate = h07::separate; c07_more = h07::more; c07_deep = h07::deep; c07_high = h07::high;
    c08_tree2 = h08::tree2; c08_tree3 = h08::tree3; c08_exp = h08::exp; c08_ln = h08::ln; c08_base = h08::base; c08_long = h08::long; c08_deep = h08::deep; c08_power = h08::power;
    c09_s2 = h09::s2; c09_s2p = h09::s2p; c09_s3 = h09::s3; c09_r2 = h09::r2; c09_one = h09::one; c09_three = h09::three; c09_deep = h09::deep; c09_long = h09::long;
    c10_p11 = h10::p11; c10_p21 = h10::p21; c10_mono = h10::mono; c10_out2 = h10::out2; c10_out3 = h10::out3; c10_outf = h10::outf; c10_outr = h10::outr; c10_separate = h10::separate; c10_long = h10::long; c10_deep = h10::deep; c10_separatef = h10::separatef;
    c11_s2 = h11::s2; c11_s2b = h11::s2b; c11_s3 = h11::s3; c11_r2 = h11::r2; c11_funcs = h11::funcs; c11_logs = h11::logs; c11_consts = h11::consts; c11_deep = h11::deep; c11_nested = h11::nested; c11_long = h11::long; c11_powers = h11::powers;
    c12_two = h12::two; c12_three = h12::three; c12_gen = h12::gen; c12_param = h12::param; c12_mono = h12::mono; c12_monopow = h12::monopow; c12_unreduced = h12::unreduced; c12_high = h12::high; c12_not = h12::not; c12_own = h12::own;
    c13_kinds = h13::kinds; c13_sub = h13::sub; c13_sub3 = h13::sub3; c13_sub2 = h13::sub2; c13_free = h13::free; c13_visit = h13::visit; c13_vars = h13::vars; c13_varsl = h13::varsl; c13_alias = h13::alias; c13_pure = h13::pure; c13_deep = h13::deep; c13_long = h13::long;
    c14_operand = h14::operand; c14_tree = h14::tree; c14_zero = h14::zero; c14_defined = h14::defined; c14_transform = h14::transform; c14_deep = h14::deep; c14_nested = h14::nested; c14_long = h14::long;
    c15_s2 = h15::s2; c15_f2 = h15::f2; c15_r2 = h15::r2; c15_r2b = h15::r2b; c15_s3 = h15::s3; c15_nest = h15::nest; c15_factors = h15::factors; c15_func = h15::func; c15_numbers = h15::numbers; c15_deep = h15::deep; c15_long = h15::long;
    c16_five = h16::five; c16_sort2 = h16::sort2; c16_sortr = h16::sortr; c16_nest = h16::nest; c16_sort3 = h16::sort3; c16_deep = h16::deep; c16_long = h16::long;
    c17_parts = h17::parts; c17_binary = h17::binary; c17_preds = h17::preds; c17_funcs = h17::funcs;
    c18_s1 = h18::s1; c18_s2 = h18::s2; c18_r2 = h18::r2; c18_f2 = h18::f2; c18_frac = h18::frac; c18_s2b = h18::s2b; c18_s3 = h18::s3; c18_f2b = h18::f2b; c18_deep = h18::deep; c18_long = h18::long;
    c20_trig = h20::trig; c20_list1 = h20::list1; c20_odd1 = h20::odd1; c20_tree2 = h20::tree2; c20_two = h20::two;
    c21_tree = h21::tree; c21_raw = h21::raw; c21_list = h21::list; c21_func = h21::func; c21_name = h21::name; c21_number = h21::number; c21_txt = h21::txt;
}

fn main() {
    let mut a = std::env::args().skip(1);
    let name = match a.next() { Some(n) => n, None => { for (n, _) in TABLE { println!("{n}") } return } };
    let tier = a.next().and_then(|s| s.parse().ok()).unwrap_or(0);
    let inputs = a.next().unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("input")).collect();
    let verbose = a.next().is_some();
    sx::NAT.with(|n| { let mut n = n.borrow_mut(); n.inputs = inputs; n.tier = tier; n.verbose = verbose });
    let table = unsafe { std::ptr::read_volatile(&raw const TABLE) };
    match table.iter().find(|t| t.0 == name) {
        Some(t) => { (t.1)(); println!("OK") }
        None => { println!("no such harness"); std::process::exit(2) }
    }
}
