//! Whole resolutions against a symbolic model: C01, C02, C03, C04, C11 (when
//! the jacobian is measured), C13, C14, C18.
use crate::api::*;
use crate::common::*;
use crate::h_kernel::limited;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, Dyn, U1};
use newton_rootfinder as nrf;
use nrf::iteratives::Iteratives;
use nrf::residuals::ResidualsConfig;
use nrf::solver::RootFinder;

/// how the solver is used before the resolution that is observed
#[derive(Clone, Copy, PartialEq)]
pub enum Use {
    Fresh,
    /// solve once with that model base before
    Again(u32),
    /// with the log activated
    Debug,
    /// solve once with that model base before, with the log activated from the start
    DebugAgain(u32),
}

pub const LOG: &str = "nrf_verif_log.txt";

#[inline(never)]
pub fn resolve<D>(usage: Use, base: u32) -> (Verdict, SymModel<D>, Option<String>)
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    resolve_and(usage, base, |_| ())
}
/// the same, something being done with what the solver returns
#[inline(always)]
pub fn resolve_and<D>(
    usage: Use,
    base: u32,
    then: impl Fn(&Result<(), nrf::errors::SolverError<SymModel<D>, D>>),
) -> (Verdict, SymModel<D>, Option<String>)
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let n = param(P_N);
    let lim = param(P_LIM);
    let its: [Spy; NMAX] = std::array::from_fn(|i| Spy(iterative(if i < n { i } else { 0 }, lim)));
    let iters = Iteratives::new(&its[..n]);
    let stop = norms(param(P_STOP));
    let upd = norms(param(P_UPD));
    let config = ResidualsConfig::new(&stop[..n], &upd[..n]);
    let mut rf = RootFinder::new(parameters(), vguess::<D>(n), &iters, &config);
    if let Use::Again(b) = usage {
        for _ in 0..1 + param(P_CASE) {
            let mut m0 = model::<D>(b);
            set_pending(0);
            let v = verdict(&rf.solve(&mut m0));
            reach(900 + v.kind);
        }
    }
    if let Use::Debug | Use::DebugAgain(_) = usage {
        rf.activate_debug(LOG);
    }
    if let Use::DebugAgain(b) = usage {
        let mut m0 = model::<D>(b);
        set_pending(0);
        let v = verdict(&rf.solve(&mut m0));
        reach(900 + v.kind);
        crate::h_log::first(&m0);
    }
    let mut m = model::<D>(base);
    set_pending(0);
    let r = rf.solve(&mut m);
    let v = verdict(&r);
    then(&r);
    let text = match r {
        Err(nrf::errors::SolverError::ModelInitialEvaluationError(s)) => Some(s),
        _ => None,
    };
    (v, m, text)
}

macro_rules! dispatch {
    ($f:ident) => {
        match (param(P_DYN), param(P_N)) {
            (0, 1) => $f::<Const<1>>(),
            (0, 2) => $f::<Const<2>>(),
            (0, 3) => $f::<Const<3>>(),
            _ => $f::<Dyn>(),
        }
    };
}
pub(crate) use dispatch;

// ---------------------------------------------------------------- C01

fn c01<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    assume(tolerance().is_finite());
    let (v, m, _) = resolve::<D>(Use::Fresh, 10000);
    reach(100 + v.kind);
    if v.kind == V_OK {
        // evaluated exactly where it stands, and accurately
        check(m.fresh, 1);
        check(m.evals > 0 && m.last_outcome == ACCURATE, 2);
        let stop = param(P_STOP);
        for i in 0..m.n {
            let e = norm_spec(m.left[i], m.right[i], digit(stop, i)).abs();
            check(e <= tolerance(), 10 + i as u32);
        }
        reach(150 + m.evals.min(3));
    }
}
pub fn h_c01() {
    dispatch!(c01)
}

// ---------------------------------------------------------------- C03

fn c03<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    assume(tolerance().is_finite());
    panic_mode(0, 1);
    let (v, m, text) = resolve::<D>(Use::Fresh, 10000);
    reach(100 + v.kind);
    check(m.after_fatal == 0, 2);
    // the first fatal outcome, by its place
    let mut want = 99;
    let mut call = 0;
    let (mut evals, mut jacs) = (0, 0);
    let mut last = ACCURATE;
    let mut i = 0;
    while i < m.tn {
        let e = m.t[i];
        if e.kind == E_EVAL || e.kind == E_PERT {
            if e.info == UNUSABLE && want == 99 {
                want = if evals == 0 {
                    V_INITIAL
                } else if e.kind == E_EVAL {
                    V_EVAL_UNUSABLE
                } else {
                    V_JAC_UNUSABLE
                };
                call = if evals == 0 { 0 } else { evals };
            }
            evals += 1;
            last = e.info;
        }
        if e.kind == E_JAC {
            if e.info != ACCURATE && want == 99 {
                want = if e.info == UNUSABLE {
                    V_JAC_UNUSABLE
                } else {
                    V_JAC_INACCURATE
                };
                call = 1000 + jacs;
            }
            jacs += 1;
        }
        i += 1;
    }
    if want != 99 {
        check(v.kind == want, 3);
        check(v.call == call, 4);
        if want == V_INITIAL {
            if let Some(s) = &text {
                check(s.as_bytes() == b"model error 0", 5);
            }
        }
        reach(130 + want);
        if want == V_EVAL_UNUSABLE || want == V_JAC_UNUSABLE {
            reach(140 + evals.min(9));
        }
        check(v.kind != V_SINGULAR, 6);
    } else {
        // one equation: a measured jacobian is singular when it is null
        if m.n == 1 && m.jac && param(P_UPD) == 0 {
            let mut null = false;
            for k in 0..jacs as u32 {
                let d = sj(m.base, k, 0, 0) - if m.rhs { sjr(m.base, k, 0, 0) } else { 0.0 };
                null |= d == 0.0;
            }
            let last = m.tn > 0 && m.t[m.tn - 1].kind == E_JAC;
            check(!null || v.kind == V_SINGULAR, 20);
            check(v.kind != V_SINGULAR || !last || null, 21);
        }
        // no fatal outcome: never reported as a failure of the model
        check(
            v.kind == V_OK || v.kind == V_NONCONV || v.kind == V_FINAL || v.kind == V_SINGULAR,
            6,
        );
        if v.kind == V_OK || v.kind == V_FINAL {
            check((v.kind == V_FINAL) == (last == INACCURATE), 7);
            // it is about convergence in both cases
            let stop = param(P_STOP);
            for i in 0..m.n {
                let e = norm_spec(m.left[i], m.right[i], digit(stop, i)).abs();
                check(e <= tolerance(), 8);
            }
        }
    }
}
pub fn h_c03() {
    dispatch!(c03)
}

// ---------------------------------------------------------------- C02, C11, C12: the course of a resolution

/// Square matrices, written without the library
pub type Mat = [[f64; NMAX]; NMAX];
pub type Vect = [f64; NMAX];
pub fn inverse(n: usize, m: &Mat) -> Mat {
    let mut r = [[0.0; NMAX]; NMAX];
    if n == 1 {
        r[0][0] = 1.0 / m[0][0];
    } else if n == 2 {
        let d = m[0][0] * m[1][1] - m[0][1] * m[1][0];
        r[0][0] = m[1][1] / d;
        r[0][1] = -m[0][1] / d;
        r[1][0] = -m[1][0] / d;
        r[1][1] = m[0][0] / d;
    } else if n > 3 {
        // elimination without pivoting: for the matrices that allow it
        let mut a = *m;
        for i in 0..n {
            r[i][i] = 1.0;
        }
        for p in 0..n {
            let d = a[p][p];
            for j in 0..n {
                a[p][j] /= d;
                r[p][j] /= d;
            }
            for i in 0..n {
                if i != p {
                    let f = a[i][p];
                    for j in 0..n {
                        a[i][j] -= f * a[p][j];
                        r[i][j] -= f * r[p][j];
                    }
                }
            }
        }
    } else {
        let c = |a: usize, b: usize, p: usize, q: usize| m[a][p] * m[b][q] - m[a][q] * m[b][p];
        let d = m[0][0] * c(1, 2, 1, 2) - m[0][1] * c(1, 2, 0, 2) + m[0][2] * c(1, 2, 0, 1);
        let q = [
            [c(1, 2, 1, 2), -c(0, 2, 1, 2), c(0, 1, 1, 2)],
            [-c(1, 2, 0, 2), c(0, 2, 0, 2), -c(0, 1, 0, 2)],
            [c(1, 2, 0, 1), -c(0, 2, 0, 1), c(0, 1, 0, 1)],
        ];
        for i in 0..3 {
            for j in 0..3 {
                r[i][j] = q[i][j] / d;
            }
        }
    }
    r
}
pub fn det(n: usize, m: &Mat) -> f64 {
    let c = |a: usize, b: usize, p: usize, q: usize| m[a][p] * m[b][q] - m[a][q] * m[b][p];
    match n {
        1 => m[0][0],
        2 => c(0, 1, 0, 1),
        // not computed
        4.. => 1.0,
        _ => m[0][0] * c(1, 2, 1, 2) - m[0][1] * c(1, 2, 0, 2) + m[0][2] * c(1, 2, 0, 1),
    }
}
pub fn mv(n: usize, m: &Mat, v: &Vect) -> Vect {
    let mut r = [0.0; NMAX];
    for i in 0..n {
        for j in 0..n {
            r[i] += m[i][j] * v[j];
        }
    }
    r
}
/// transpose(m) * v
pub fn mtv(n: usize, m: &Mat, v: &Vect) -> Vect {
    let mut r = [0.0; NMAX];
    for i in 0..n {
        for j in 0..n {
            r[i] += m[j][i] * v[j];
        }
    }
    r
}
pub fn dot(n: usize, a: &Vect, b: &Vect) -> f64 {
    let mut r = 0.0;
    for i in 0..n {
        r += a[i] * b[i];
    }
    r
}
pub fn diff(n: usize, a: &Vect, b: &Vect) -> Vect {
    let mut r = [0.0; NMAX];
    for i in 0..n {
        r[i] = a[i] - b[i];
    }
    r
}
/// The documented updates. `meth` is the parameter of the job: 2..=5 update the
/// jacobian, 6..=9 its inverse (Broyden 1 and 2, Greenstadt 1 and 2)
pub fn quasi_newton(n: usize, meth: usize, m: &Mat, s: &Vect, y: &Vect, f: &Vect) -> Mat {
    let mut r = *m;
    if meth >= 6 {
        let h = m;
        let c = match meth - 6 {
            0 => mtv(n, h, s),
            1 => *y,
            2 => *f,
            _ => mtv(n, h, &mv(n, h, y)),
        };
        let u = diff(n, &mv(n, h, y), s);
        let d = dot(n, &c, y);
        for i in 0..n {
            for j in 0..n {
                r[i][j] = h[i][j] - u[i] * c[j] / d;
            }
        }
    } else {
        // the same rank one update, for the jacobian: w = J^T c
        let w = match meth - 2 {
            0 => *s,
            1 => mtv(n, m, y),
            2 => mtv(n, m, f),
            _ => mv(n, &inverse(n, m), y),
        };
        let u = diff(n, &mv(n, m, s), y);
        let d = dot(n, &w, s);
        for i in 0..n {
            for j in 0..n {
                r[i][j] = m[i][j] - u[i] * w[j] / d;
            }
        }
    }
    r
}
/// derivative of the normalised residual
pub fn dnorm_spec(l: f64, r: f64, dl: f64, dr: f64, m: usize) -> f64 {
    let t = l + r;
    let s = if t < 0.0 { -1.0 } else { 1.0 };
    match m {
        0 => dl - dr,
        1 => 2.0 * s * ((dl - dr) * t - (l - r) * (dl + dr)) / (t * t),
        _ => {
            let a = 1.0 + s * t / 2.0;
            ((dl - dr) * a - (l - r) * s * (dl + dr) / 2.0) / (a * a)
        }
    }
}
/// update residuals after the k-th evaluation
pub fn update_values<D>(m: &SymModel<D>, k: u32) -> Vect
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let mut f = [0.0; NMAX];
    for i in 0..m.n {
        let r = if m.rhs { sr(m.base, k, i) } else { 0.0 };
        f[i] = norm_spec(left_of(m, k, i), r, digit(param(P_UPD), i));
    }
    f
}
fn left_of<D>(m: &SymModel<D>, k: u32, i: usize) -> f64
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    // the left values of a linear model depend on the iteratives
    if param(P_LIN) == 1 {
        let mut c = 0;
        for e in &m.t[..m.tn] {
            if e.kind == E_EVAL || e.kind == E_PERT {
                if c == k {
                    let mut l = sl(m.base, 0, i);
                    for j in 0..m.n {
                        l += sj(m.base, 0, i, j) * e.v[j];
                    }
                    return l;
                }
                c += 1;
            }
        }
        return 0.0;
    }
    sl(m.base, k, i)
}
fn limits(i: usize) -> (f64, f64, f64, f64) {
    let b = 100 + 10 * i as u32;
    if param(P_LIM) == 2 {
        (sym(b), sym(b + 1), sym(b + 2), sym(b + 3))
    } else {
        (sym(b), sym(b + 1), f64::NEG_INFINITY, f64::INFINITY)
    }
}
/// one variable moved from `x` to `z` within its limits
fn moved(i: usize, x: f64, z: f64) -> bool {
    let (a, r, lo, hi) = limits(i);
    let d = (z - x).abs();
    (d <= a && d <= r * x.abs()) || (x < lo && z == lo) || (x > hi && z == hi)
}
/// m d = -f (jacobian) or d = -m f (inverse)
fn solves(n: usize, inv: bool, m: &Mat, d: &Vect, f: &Vect) -> bool {
    let a = mv(n, m, if inv { f } else { d });
    let b = if inv { d } else { f };
    let mut ok = true;
    for i in 0..n {
        let mut sc = 0.0f64;
        if natively() {
            for j in 0..n {
                sc = sc.max((m[i][j] * if inv { f[j] } else { d[j] }).abs());
            }
        }
        ok &= near(a[i], -b[i], sc);
    }
    ok
}

/// Follows the calls received by the model along the documented course of a
/// resolution (labels: 1.. the budget and the verdict, 30.. the jacobian, 50..
/// the damping). With P_VAL the numbers are followed too.
fn course<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let tol = tolerance();
    assume(tol.is_finite());
    if param(P_LIN) == 1 {
        assume(tol >= 0.0);
    }
    let (v, m, _) = resolve::<D>(Use::Fresh, 10000);
    // fatal outcomes and singular jacobians end the course early: C03
    let singular = v.kind == V_SINGULAR;
    let fatal = v.kind == V_JAC_UNUSABLE || v.kind == V_JAC_INACCURATE;
    let n = m.n;
    let rhs = m.rhs;
    let max_iter = param(P_ITER);
    let meth = param(P_METHOD);
    let damp = param(P_DAMP) == 1;
    let fd = !m.jac;
    let val = param(P_VAL) == 1;
    let lim = param(P_LIM) % 3;
    let lin = param(P_LIN) == 1;
    let mut p = 0; // position in the history
    check(m.tn >= 2 && m.t[0].kind == E_SET && m.t[1].kind == E_EVAL, 1);
    if m.tn < 2 {
        return;
    }
    for i in 0..n {
        check(same(m.t[0].v[i], guess(i)), 2);
    }
    p += 2;
    let mut k = 0u32; // number of the evaluation of the current iterate
    let mut x = m.t[0].v; // the current iterate
    let mut jacs = 0;
    let mut evals = 1u32;
    let mut iters = 0;
    let mut forced = true; // a measured jacobian is needed
    // matrix of the quasi-Newton methods
    let mut qa = [[0.0; NMAX]; NMAX];
    // previous iterate (values, evaluation)
    let mut last = (x, 0u32);
    loop {
        let mut within = true;
        if lin {
            for i in 0..n {
                within &= left_of(&m, k, i).abs() <= tol;
            }
        } else {
            within = all_within(m.base, k, n, rhs, tol);
        }
        if within {
            // stops at the first iterate within the tolerance
            check(p == m.tn, 3);
            check(v.kind == V_OK || v.kind == V_FINAL, 4);
            reach(100 + iters as u32);
            return;
        }
        if lin && iters == 1 && meth == 0 {
            // a linear problem is solved in one iteration
            check(false, 25);
            return;
        }
        if iters == max_iter {
            check(p == m.tn, 5);
            check(v.kind == V_NONCONV, 6);
            reach(120 + iters as u32);
            return;
        }
        iters += 1;
        let measured = meth == 0 || forced;
        // the jacobian
        let f = update_values(&m, k);
        let mut jm = [[0.0; NMAX]; NMAX];
        let mut got_jac = 0;
        let mut pert = 0;
        while p < m.tn {
            let e = m.t[p];
            if e.kind == E_JAC {
                if val {
                    for i in 0..n {
                        check(near(e.v[i], x[i], 0.0), 34);
                        for j in 0..n {
                            let (l, r) = (
                                left_of(&m, k, i),
                                if rhs { sr(m.base, k, i) } else { 0.0 },
                            );
                            let (dl, dr) = (
                                sj(m.base, if lin { 0 } else { jacs }, i, j),
                                if rhs { sjr(m.base, jacs, i, j) } else { 0.0 },
                            );
                            jm[i][j] = dnorm_spec(l, r, dl, dr, digit(param(P_UPD), i));
                        }
                    }
                }
                jacs += 1;
                got_jac += 1;
                p += 1;
            } else if e.kind == E_SETMEM {
                if val {
                    check(pert > 0 && near(e.v[0], smem(m.base, k), 0.0), 11);
                }
                p += 1;
            } else if e.kind == E_SET && p + 1 < m.tn && m.t[p + 1].kind == E_PERT {
                if m.use_mem && pert > 0 {
                    check(m.t[p - 1].kind == E_SETMEM, 12);
                }
                for i in 0..n {
                    // not even by rounding
                    check(i == pert || same(e.v[i], x[i]), 13);
                }
                if val && pert < n {
                    let g = update_values(&m, evals);
                    let dx = perturbation(pert, x[pert]);
                    for i in 0..n {
                        let want = if i == pert { x[i] + dx } else { x[i] };
                        check_eq(e.v[i], want, 0.0, 10);
                        jm[i][pert] = (g[i] - f[i]) / dx;
                    }
                }
                pert += 1;
                evals += 1;
                p += 2;
            } else {
                break;
            }
        }
        if m.use_mem && pert > 0 {
            check(m.t[p - 1].kind == E_SETMEM, 12);
        }
        if fd {
            check(got_jac == 0, 30);
            check(pert == if measured { n } else { 0 }, 31);
        } else {
            check(pert == 0, 32);
            check(got_jac == if measured { 1 } else { 0 }, 33);
        }
        if measured {
            reach(160);
        } else {
            reach(161);
        }
        if val && measured {
            let d = det(n, &jm);
            let mut sc = 0.0;
            if natively() {
                for i in 0..n {
                    for j in 0..n {
                        sc = if jm[i][j].abs() > sc { jm[i][j].abs() } else { sc };
                    }
                }
            }
            if singular && p == m.tn && n <= 3 {
                check_eq(d, 0.0, sc.powi(n as i32), 26);
            } else if !(singular && p == m.tn) {
                check(natively() || d != 0.0, 27);
            }
        }
        if (singular || fatal) && p == m.tn {
            return;
        }
        // the step
        check(p + 1 < m.tn && m.t[p].kind == E_SET && m.t[p + 1].kind == E_EVAL, 7);
        if !(p + 1 < m.tn && m.t[p].kind == E_SET && m.t[p + 1].kind == E_EVAL) {
            return;
        }
        let z = m.t[p].v;
        p += 2;
        let k2 = evals;
        evals += 1;
        if lim > 0 {
            for i in 0..n {
                let (_, _, lo, hi) = limits(i);
                check(lo <= z[i] && z[i] <= hi, 60);
                if val {
                    check(moved(i, x[i], z[i]), 61);
                }
            }
        }
        if val && lim > 0 {
            // the step, then the limits
            if measured {
                qa = if meth >= 6 { inverse(n, &jm) } else { jm };
            } else if meth >= 2 {
                let s = diff(n, &x, &last.0);
                let y = diff(n, &f, &update_values(&m, last.1));
                qa = quasi_newton(n, meth, &qa, &s, &y, &f);
            }
            let d = mv(n, &if meth >= 6 { qa } else { inverse(n, &qa) }, &f);
            for i in 0..n {
                let (a, r, lo, hi) = limits(i);
                let sc = if natively() { x[i].abs() + d[i].abs() } else { 0.0 };
                if let Some(w) = limited(a, r, lo, hi, x[i], -d[i]) {
                    check(near(z[i], w, sc), if meth == 0 { 21 } else if measured { 37 } else { 38 });
                }
            }
        } else if val {
            let d = diff(n, &z, &x);
            let inv = meth >= 6;
            if meth == 0 {
                check(solves(n, false, &jm, &d, &f), 20);
            } else {
                if measured {
                    qa = if inv { inverse(n, &jm) } else { jm };
                } else if meth >= 2 {
                    let s = diff(n, &x, &last.0);
                    let y = diff(n, &f, &update_values(&m, last.1));
                    qa = quasi_newton(n, meth, &qa, &s, &y, &f);
                }
                check(solves(n, inv, &qa, &d, &f), if measured { 35 } else { 36 });
            }
        }
        forced = false;
        let mut kn = k2;
        let mut xn = z;
        if damp {
            let before = max_error(m.base, k, n, rhs);
            let after = max_error(m.base, k2, n, rhs);
            if after > before {
                if measured {
                    let redone = p + 1 < m.tn && m.t[p].kind == E_SET && m.t[p + 1].kind == E_EVAL;
                    check(redone, 50);
                    if !redone {
                        return;
                    }
                    xn = m.t[p].v;
                    if val {
                        for i in 0..n {
                            let mid = (x[i] + z[i]) / 2.0;
                            check(near(xn[i], mid, x[i]), 53);
                            if lim > 0 {
                                let (_, _, lo, hi) = limits(i);
                                let inside = lo <= x[i] && x[i] <= hi;
                                check(!inside || (lo <= xn[i] && xn[i] <= hi), 63);
                                check(!inside || moved(i, x[i], xn[i]), 64);
                            }
                        }
                    }
                    p += 2;
                    kn = evals;
                    evals += 1;
                    reach(170);
                } else {
                    // kept as it is, the jacobian is measured next
                    check(!(p + 1 < m.tn && m.t[p].kind == E_SET && m.t[p + 1].kind == E_EVAL), 55);
                    forced = true;
                    reach(171);
                }
            } else {
                // nothing is evaluated again: what comes next is a jacobian, or
                // the end
                let over = meth == 0 || iters == max_iter || all_within(m.base, k2, n, rhs, tol);
                if over {
                    check(!(p + 1 < m.tn && m.t[p].kind == E_SET && m.t[p + 1].kind == E_EVAL), 54);
                }
                reach(172);
            }
        }
        last = (x, k);
        k = kn;
        x = xn;
    }
}
/// perturbation of a variable, from the documentation
pub fn perturbation(i: usize, x: f64) -> f64 {
    let b = 100 + 10 * i as u32;
    let (da, dr, sum) = if param(P_LIM) == 0 {
        (5e-8, 5e-8, false)
    } else {
        (sym(b + 4), sym(b + 5), choice(b + 6, 2) == 1)
    };
    let r = dr * x.abs();
    if sum {
        da + r
    } else if r > da {
        r
    } else {
        da
    }
}
pub fn h_course() {
    dispatch!(course)
}

// ---------------------------------------------------------------- C13, C14, C18

fn compare<D, E>(v1: Verdict, a: &SymModel<D>, v2: Verdict, b: &SymModel<E>)
where
    D: SolveDim,
    E: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<E> + Allocator<E, E>,
{
    check(v1.kind == v2.kind, 1);
    check(v1.call == v2.call, 2);
    check(a.tn == b.tn, 3);
    let mut i = 0;
    while i < a.tn && i < b.tn {
        let (e, f) = (a.t[i], b.t[i]);
        check(e.kind == f.kind, 4);
        check(e.info == f.info, 5);
        for j in 0..a.n {
            check_eq(e.v[j], f.v[j], 0.0, 6);
        }
        i += 1;
    }
    for j in 0..a.n {
        check_eq(a.x[j], b.x[j], 0.0, 7);
    }
}

fn c13<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    assume(tolerance().is_finite());
    let (v1, a, _) = resolve::<D>(Use::Again(20000), 10000);
    let (v2, b, _) = resolve::<D>(Use::Fresh, 10000);
    reach(100 + v1.kind);
    compare(v1, &a, v2, &b);
}
pub fn h_c13() {
    dispatch!(c13)
}

fn c14<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    assume(tolerance().is_finite());
    let (v1, a, _) = resolve::<D>(Use::Debug, 10000);
    let (v2, b, _) = resolve::<D>(Use::Fresh, 10000);
    reach(100 + v1.kind);
    compare(v1, &a, v2, &b);
}
pub fn h_c14() {
    dispatch!(c14)
}

pub fn h_c18() {
    assume(tolerance().is_finite());
    let (v1, a, _) = resolve::<Dyn>(Use::Fresh, 10000);
    reach(100 + v1.kind);
    match param(P_N) {
        1 => {
            let (v2, b, _) = resolve::<Const<1>>(Use::Fresh, 10000);
            compare(v1, &a, v2, &b)
        }
        2 => {
            let (v2, b, _) = resolve::<Const<2>>(Use::Fresh, 10000);
            compare(v1, &a, v2, &b)
        }
        3 => {
            let (v2, b, _) = resolve::<Const<3>>(Use::Fresh, 10000);
            compare(v1, &a, v2, &b)
        }
        _ => {
            let (v2, b, _) = resolve::<Const<6>>(Use::Fresh, 10000);
            compare(v1, &a, v2, &b)
        }
    }
}
