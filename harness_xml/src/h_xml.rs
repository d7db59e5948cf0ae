//! C16: what reading a configuration gives. The document is described by
//! `doc.rs`; natively it is written to a file and read by the real parser.
use crate::api::*;
use crate::doc::{self, Text, FLOATS, METHODS, NORMS, P_FD};
use newton_rootfinder as nrf;
use nrf::iteratives::{IterativeParams, IterativeParamsFD, PerturbationMethod};
use nrf::residuals::NormalizationMethod;
use nrf::solver::*;

extern "C" {
    /// calls f; 1 when it panicked
    fn __try(f: extern "C-unwind" fn() -> u32) -> u32;
    /// the configuration file is to be there
    fn __document();
}

type Jac = (
    SolverParameters,
    Vec<IterativeParams>,
    Vec<NormalizationMethod>,
    Vec<NormalizationMethod>,
);
type Fd = (
    SolverParameters,
    Vec<IterativeParamsFD>,
    Vec<NormalizationMethod>,
    Vec<NormalizationMethod>,
);
static mut JAC: Option<Jac> = None;
static mut FD: Option<Fd> = None;

pub const FILE: &str = "configuration.xml";
extern "C-unwind" fn read() -> u32 {
    unsafe {
        if param(P_FD) == 1 {
            FD = Some(nrf::xml_parser::from_xml_finite_diff(FILE));
        } else {
            JAC = Some(nrf::xml_parser::from_xml_jacobian(FILE));
        }
    }
    0
}

fn is_word(t: Text) -> Option<&'static str> {
    match t {
        Text::Word(w) => Some(w),
        _ => None,
    }
}
fn one_of(t: Text, words: &[&str]) -> Option<usize> {
    let w = is_word(t)?;
    for i in 0..words.len() {
        if words[i] == w {
            return Some(i);
        }
    }
    None
}
fn method(m: usize) -> ResolutionMethod {
    use QuasiNewtonMethod::*;
    use UpdateQuasiNewtonMethod::*;
    match m {
        0 => ResolutionMethod::NewtonRaphson,
        1 => ResolutionMethod::QuasiNewton(StationaryNewton),
        2 => ResolutionMethod::QuasiNewton(JacobianUpdate(BroydenFirstMethod)),
        3 => ResolutionMethod::QuasiNewton(JacobianUpdate(BroydenSecondMethod)),
        4 => ResolutionMethod::QuasiNewton(JacobianUpdate(GreenstadtFirstMethod)),
        5 => ResolutionMethod::QuasiNewton(JacobianUpdate(GreenstadtSecondMethod)),
        6 => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(BroydenFirstMethod)),
        7 => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(BroydenSecondMethod)),
        8 => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(GreenstadtFirstMethod)),
        _ => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(GreenstadtSecondMethod)),
    }
}
fn norm(m: usize) -> NormalizationMethod {
    match m {
        0 => NormalizationMethod::Abs,
        1 => NormalizationMethod::Rel,
        _ => NormalizationMethod::Adapt,
    }
}

/// the numbers and the method of an iterative node; None: to be refused
fn floats(node: usize, fd: bool) -> Option<([f64; 6], usize)> {
    let mut x = [0.0; 6];
    for i in 0..if fd { 6 } else { 4 } {
        let mut t = doc::attr(node, FLOATS[i]);
        if t == Text::Absent && node != 2 {
            t = doc::attr(2, FLOATS[i]);
        }
        match t {
            Text::Number(k) => x[i] = sym(k),
            _ => return None,
        }
    }
    let mut m = 0;
    if fd {
        let mut t = doc::attr(node, "perturbation_method");
        if t == Text::Absent && node != 2 {
            t = doc::attr(2, "perturbation_method");
        }
        m = one_of(t, &["Max", "Sum"])?;
    }
    // what the constructors accept: C15
    let ok = x[0] > 0.0 && x[1] > 0.0 && x[2] < x[3] && (!fd || (x[4] > 0.0 && x[5] > 0.0));
    if ok {
        Some((x, m))
    } else {
        None
    }
}
fn norms(node: usize) -> Option<(usize, usize)> {
    let mut r = [0; 2];
    for (i, a) in ["stopping_criteria", "update_method"].iter().enumerate() {
        let mut t = doc::attr(node, a);
        if t == Text::Absent && node != 3 {
            t = doc::attr(3, a);
        }
        r[i] = one_of(t, &NORMS)?;
    }
    Some((r[0], r[1]))
}

struct Solver {
    size: usize,
    iter: usize,
    tol: f64,
    meth: usize,
    damp: bool,
}
fn solver() -> Option<Solver> {
    let size = match doc::attr(1, "problem_size") {
        Text::Int(k) => k,
        _ => return None,
    };
    let iter = match doc::attr(1, "max_iter") {
        Text::Int(k) => k,
        _ => return None,
    };
    let tol = match doc::attr(1, "tolerance") {
        Text::Number(k) => sym(k),
        _ => return None,
    };
    let meth = one_of(doc::attr(1, "resolution_method"), &METHODS)?;
    let damp = match doc::attr(1, "damping") {
        Text::Absent => false,
        t => one_of(t, &["false", "true"])? == 1,
    };
    Some(Solver { size, iter, tol, meth, damp })
}
/// the configuration is to be accepted (asked in the order of the document)
fn acceptable(fd: bool) -> bool {
    if doc::name(0) != "nrf" || doc::children(0) < 3 {
        return false;
    }
    if doc::name(1) != "solver" {
        return false;
    }
    let s = match solver() {
        Some(s) => s,
        None => return false,
    };
    if doc::name(2) != "iteratives" || floats(2, fd).is_none() {
        return false;
    }
    for (p, child_name) in [(2, "iterative"), (3, "residual")] {
        if p == 3 && (doc::name(3) != "residuals" || norms(3).is_none()) {
            return false;
        }
        for k in 0..doc::children(p) {
            let c = doc::child(p, k);
            if doc::name(c) != child_name || doc::attr(c, "id") != Text::Int(k) {
                return false;
            }
            if p == 2 {
                if floats(c, fd).is_none() {
                    return false;
                }
            } else if norms(c).is_none() {
                return false;
            }
        }
    }
    s.size == doc::children(2) && s.size == doc::children(3)
}


pub fn h_c16() {
    let fd = param(P_FD) == 1;
    unsafe { __document() };
    let panicked = unsafe { __try(read) } == 1;
    if panicked {
        reach(1);
        check(!acceptable(fd), 1);
        return;
    }
    let ok = acceptable(fd);
    check(ok, 2);
    if !ok {
        return;
    }
    reach(2);
    let s = solver().unwrap();
    let (p, n, stop, upd) = unsafe {
        if fd {
            let (p, v, s, u) = FD.as_ref().unwrap();
            (p, v.len(), s, u)
        } else {
            let (p, v, s, u) = JAC.as_ref().unwrap();
            (p, v.len(), s, u)
        }
    };
    check(p.get_problem_size() == s.size, 3);
    check(p.get_max_iter() == s.iter, 4);
    check(same(p.get_tolerance(), s.tol), 5);
    check(p.get_resolution_method() == method(s.meth), 6);
    check(p.get_damping() == s.damp, 7);
    check(n == s.size && stop.len() == s.size && upd.len() == s.size, 8);
    if n != s.size || stop.len() != s.size || upd.len() != s.size {
        return;
    }
    for k in 0..s.size {
        let (x, m) = floats(20 + k, fd).unwrap();
        let (a, r, lo, hi);
        if fd {
            let q = unsafe { &FD.as_ref().unwrap().1[k] };
            (a, r, lo, hi) = (q.get_max_step_abs(), q.get_max_step_rel(), q.get_min_value(), q.get_max_value());
            check(same(q.get_dx_abs(), x[4]), 14);
            check(same(q.get_dx_rel(), x[5]), 15);
            check((q.get_perturbation_method() == PerturbationMethod::Sum) == (m == 1), 16);
        } else {
            let q = unsafe { &JAC.as_ref().unwrap().1[k] };
            (a, r, lo, hi) = (q.get_max_step_abs(), q.get_max_step_rel(), q.get_min_value(), q.get_max_value());
        }
        check(same(a, x[0]), 10);
        check(same(r, x[1]), 11);
        check(same(lo, x[2]), 12);
        check(same(hi, x[3]), 13);
        let (c, u) = norms(30 + k).unwrap();
        check(stop[k] == norm(c), 17);
        check(upd[k] == norm(u), 18);
    }
}
