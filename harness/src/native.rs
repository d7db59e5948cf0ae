//! Native implementation of the interface: reads the counterexample given in
//! the file named by HARNESS_INPUT and reports what happens on stdout.
use std::collections::HashMap;
use std::sync::Mutex;

struct Input {
    syms: HashMap<u32, f64>,
    choices: HashMap<u32, u32>,
    params: HashMap<u32, u64>,
    mode: u32,
    mode_label: u32,
    rtol: f64,
}
static INPUT: Mutex<Option<Input>> = Mutex::new(None);

pub fn load(path: &str) {
    let mut inp = Input {
        syms: HashMap::new(),
        choices: HashMap::new(),
        params: HashMap::new(),
        mode: 0,
        mode_label: 0,
        rtol: 0.0,
    };
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() == 2 && f[0] == "rtol" {
            inp.rtol = f[1].parse().unwrap();
        }
        if f.len() < 3 || f[0] == "#" {
            continue;
        }
        let id: u32 = f[1].parse().unwrap();
        match f[0] {
            "s" => {
                inp.syms
                    .insert(id, f64::from_bits(u64::from_str_radix(f[2], 16).unwrap()));
            }
            "c" => {
                inp.choices.insert(id, f[2].parse().unwrap());
            }
            "p" => {
                inp.params.insert(id, f[2].parse().unwrap());
            }
            _ => (),
        }
    }
    *INPUT.lock().unwrap() = Some(inp);
}
fn with<R>(f: impl FnOnce(&mut Input) -> R) -> R {
    f(INPUT
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .as_mut()
        .unwrap())
}
pub fn finish(panicked: bool) {
    with(|i| {
        if panicked && i.mode == 0 {
            println!("FAIL {} panic", i.mode_label);
        } else if !panicked && i.mode == 1 {
            println!("FAIL {} no-panic", i.mode_label);
        }
        println!("END {}", if panicked { "panic" } else { "return" });
    })
}
#[no_mangle]
extern "C" fn __sym_f64(id: u32) -> f64 {
    with(|i| *i.syms.get(&id).unwrap_or(&0.0))
}
#[no_mangle]
extern "C" fn __choice(id: u32, n: u32) -> u32 {
    with(|i| (*i.choices.get(&id).unwrap_or(&0)).min(n - 1))
}
#[no_mangle]
extern "C" fn __param(id: u32) -> u64 {
    if id == 99 {
        return 1;
    }
    with(|i| *i.params.get(&id).unwrap_or(&0))
}
#[no_mangle]
extern "C" fn __assume(c: bool) {
    if !c {
        println!("ASSUME");
        std::process::exit(3);
    }
}
thread_local! {
    static AT: std::cell::Cell<Option<&'static std::panic::Location<'static>>> = std::cell::Cell::new(None);
}
/// where the next assertion is in the harness
pub fn at(l: &'static std::panic::Location<'static>) {
    AT.with(|a| a.set(Some(l)));
}
fn place() -> String {
    match AT.with(|a| a.get()) {
        Some(l) => format!(" at {}:{}", l.file(), l.line()),
        None => String::new(),
    }
}
#[no_mangle]
extern "C" fn __check(c: bool, label: u32) {
    if c {
        println!("PASS {}", label);
    } else {
        println!("FAIL {}{}", label, place());
    }
}
#[no_mangle]
extern "C" fn __check_kf(c: bool, known: bool, kf: u32, label: u32) {
    if c {
        println!("PASS {}", label);
    } else if known {
        println!("KNOWN {} {}", label, kf);
    } else {
        println!("FAIL {}{}", label, place());
    }
}
fn eq(a: f64, b: f64, scale: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    let rtol = with(|i| i.rtol);
    if rtol == 0.0 {
        return false;
    }
    let m = a.abs().max(b.abs()).max(scale.abs());
    // out of the range where rounding is negligible: no verdict
    if !m.is_finite() || m > 1e100 {
        return true;
    }
    (a - b).abs() <= rtol * m
}
#[no_mangle]
extern "C" fn __check_eq(a: f64, b: f64, scale: f64, label: u32) {
    let c = eq(a, b, scale);
    println!(
        "{} {} {:e} {:e} {:e}{}",
        if c { "PASS" } else { "FAIL" },
        label,
        a,
        b,
        scale,
        if c { String::new() } else { place() }
    );
}
#[no_mangle]
extern "C" fn __check_eq_alt(
    a: f64,
    b: f64,
    a2: f64,
    b2: f64,
    scale: f64,
    kf: u32,
    label: u32,
) {
    if !eq(a, b, scale) && eq(a2, b2, scale) {
        println!("KNOWN {} {} {:e} {:e}", label, kf, a, b);
    } else {
        __check_eq(a, b, scale, label);
    }
}
#[no_mangle]
extern "C" fn __near(a: f64, b: f64, scale: f64) -> bool {
    eq(a, b, scale)
}
#[no_mangle]
extern "C" fn __same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
#[no_mangle]
extern "C" fn __panic_mode(mode: u32, label: u32) {
    with(|i| {
        i.mode = mode;
        i.mode_label = label;
    })
}
#[no_mangle]
extern "C" fn __reach(label: u32) {
    println!("REACH {}", label);
}
#[no_mangle]
unsafe extern "C" fn __log_text(name: *const u8, n: usize, buf: *mut u8, cap: usize) -> usize {
    let name = std::str::from_utf8(std::slice::from_raw_parts(name, n)).unwrap();
    let text = std::fs::read(name).unwrap_or_default();
    assert!(text.len() <= cap);
    std::ptr::copy_nonoverlapping(text.as_ptr(), buf, text.len());
    text.len()
}
#[no_mangle]
unsafe extern "C" fn __number(s: *const u8, n: usize, v: *mut f64) -> u32 {
    match std::str::from_utf8(std::slice::from_raw_parts(s, n)).map(|s| s.parse::<f64>()) {
        Ok(Ok(x)) => {
            *v = x;
            1
        }
        _ => 0,
    }
}
