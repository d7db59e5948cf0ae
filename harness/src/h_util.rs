//! The crate `util`: the one-dimensional solver (C20) and the test problems (C21).
use crate::api::*;
use crate::common::*;
use nalgebra::{DMatrix, DVector};
use util::solver_one_dimensional::{solver1d, solver1d_fd};
use util::test_cases::{broyden1965 as br, polynom as po};

// ---------------------------------------------------------------- C20

/// calls received: (is the derivative, abscissa)
static mut CALLS: [(bool, f64); 32] = [(false, 0.0); 32];
static mut COUNT: usize = 0;
static mut FUNCS: u32 = 0;
static mut DERIVS: u32 = 0;

fn call(d: bool, x: f64) {
    unsafe {
        if COUNT < 32 {
            CALLS[COUNT] = (d, x);
        }
        COUNT += 1;
    }
}
fn func(x: f64) -> f64 {
    call(false, x);
    unsafe {
        FUNCS += 1;
        sym(1000 + FUNCS - 1)
    }
}
fn deriv(x: f64) -> f64 {
    call(true, x);
    unsafe {
        DERIVS += 1;
        sym(2000 + DERIVS - 1)
    }
}
pub fn h_c20() {
    let fd = param(P_JAC) == 0;
    let max_iter = param(P_ITER);
    let val = param(P_VAL) == 1;
    let tol = tolerance();
    assume(tol.is_finite());
    let g = sym(10);
    let dx = sym(11);
    if fd {
        assume(dx != 0.0);
    }
    unsafe {
        COUNT = 0;
        FUNCS = 0;
        DERIVS = 0;
    }
    let r = if fd {
        solver1d_fd(g, func, max_iter, tol, dx)
    } else {
        solver1d(g, func, deriv, max_iter, tol)
    };
    let n = unsafe { COUNT };
    let at = |p: usize| unsafe { CALLS[p] };
    check(n >= 1 && !at(0).0, 1);
    check_eq(at(0).1, g, 0.0, 2);
    let (mut p, mut f, mut d) = (1, 0u32, 0u32);
    let mut x = g;
    let mut iters = 0;
    loop {
        let res = sym(1000 + f);
        f += 1;
        if !(res.abs() > tol) {
            check(p == n, 3);
            check_eq(r, x, 0.0, 4);
            reach(100 + iters as u32);
            return;
        }
        if iters == max_iter {
            check(p == n, 5);
            check_eq(r, x, 0.0, 4);
            reach(120 + iters as u32);
            return;
        }
        iters += 1;
        check(p + 1 < n, 6);
        if p + 1 >= n {
            return;
        }
        // the slope is taken at the current guess
        check(at(p).0 == !fd, 7);
        let slope = if fd {
            if val {
                check_eq(at(p).1, x + dx, x, 8);
            }
            f += 1;
            (sym(1000 + f - 1) - res) / dx
        } else {
            check_eq(at(p).1, x, 0.0, 9);
            d += 1;
            sym(2000 + d - 1)
        };
        p += 1;
        check(!at(p).0, 10);
        if val {
            check_eq(at(p).1, x - res / slope, x, 11);
        }
        x = at(p).1;
        p += 1;
    }
}

// ---------------------------------------------------------------- C21

type F = fn(&DVector<f64>) -> DVector<f64>;
type J = fn(&DVector<f64>) -> DMatrix<f64>;

pub fn h_c21() {
    let (f, j, n): (F, J, usize) = match param(P_CASE) {
        0 => (po::square2, po::dsquare, 1),
        1 => (po::root_with_high_derivative, po::root_with_high_derivative_jac, 1),
        2 => (br::broyden1965_case5, br::broyden1965_case5_jac, 5),
        3 => (br::broyden1965_case6, br::broyden1965_case6_jac, 5),
        4 => (br::broyden1965_case7, br::broyden1965_case7_jac, 10),
        5 => (br::broyden1965_case8, br::broyden1965_case8_jac, 20),
        6 => (br::broyden1965_case9, br::broyden1965_case9_jac, 2),
        _ => (br::broyden1965_case10, br::broyden1965_case10_jac, 2),
    };
    let n = if param(P_N) > 0 { param(P_N) } else { n };
    let h = sym(5);
    let mut x = DVector::zeros(n);
    for i in 0..n {
        x[i] = sym(10 + i as u32);
    }
    let jac = j(&x);
    check(jac.shape() == (n, n), 1);
    check(f(&x).len() == n, 2);
    for k in 0..n {
        // the derivative from a symmetric difference formula, exact for the
        // polynomials of degree up to 10
        let at = |m: f64| {
            let mut y = x.clone();
            y[k] += m * h;
            f(&y)
        };
        let w = [2100.0, -600.0, 150.0, -25.0, 2.0];
        let mut s = DVector::zeros(n);
        let mut sc = DVector::<f64>::zeros(n);
        for q in 0..5 {
            let m = (q + 1) as f64;
            let (a, b) = (at(m), at(-m));
            for i in 0..n {
                s[i] += w[q] * (a[i] - b[i]);
                if natively() {
                    sc[i] += (w[q] * a[i]).abs() + (w[q] * b[i]).abs();
                }
            }
        }
        for i in 0..n {
            check_eq(2520.0 * h * jac[(i, k)], s[i], sc[i], 10);
        }
    }
    reach(100);
}
