//! The parts of the library on their own: C05, C06, C07, C08, C10, C15, C17, C19.
use crate::api::*;
use crate::common::*;
use crate::h_solve::*;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DMatrix, DVector, DefaultAllocator, Dyn, OMatrix, OVector, U1};
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod};
use nrf::model::*;
use nrf::residuals::*;
use nrf::solver::*;

fn ovec<D>(n: usize, f: impl Fn(usize) -> f64) -> OVector<f64, D>
where
    D: SolveDim,
    DefaultAllocator: Allocator<D>,
{
    let mut g = OVector::<f64, D>::zeros_generic(D::from_usize(n), U1);
    for i in 0..n {
        g[i] = f(i);
    }
    g
}
fn omat<D>(n: usize, f: impl Fn(usize, usize) -> f64) -> OMatrix<f64, D, D>
where
    D: SolveDim,
    DefaultAllocator: Allocator<D, D>,
{
    let d = D::from_usize(n);
    let mut g = OMatrix::<f64, D, D>::zeros_generic(d, d);
    for i in 0..n {
        for j in 0..n {
            g[(i, j)] = f(i, j);
        }
    }
    g
}

// ---------------------------------------------------------------- C05

/// what the limitation must give; None where only the bounds are promised
pub fn limited(a: f64, r: f64, lo: f64, hi: f64, v: f64, s: f64) -> Option<f64> {
    let rv = r * v.abs();
    // no relative limit when it is not a number (infinite factor, null value)
    let m = if rv < a { rv } else { a };
    let next = if s >= -m && s <= m {
        v + s
    } else if s > m {
        v + m
    } else if s < -m {
        v - m
    } else {
        return None;
    };
    if next.is_nan() {
        None
    } else if next > hi {
        Some(hi)
    } else if next < lo {
        Some(lo)
    } else {
        Some(next)
    }
}
/// one variable, or three of them as a vector
pub fn h_c05() {
    let n = param(P_N);
    let mut ps = vec![];
    let mut fds = vec![];
    for i in 0..n {
        let b = 100 + 10 * i as u32;
        let (a, r, lo, hi) = (sym(b), sym(b + 1), sym(b + 2), sym(b + 3));
        assume(a > 0.0);
        assume(r > 0.0);
        assume(lo < hi);
        ps.push(IterativeParams::new(a, r, lo, hi));
        fds.push(IterativeParamsFD::new(a, r, lo, hi, 1e-3, 1e-3, PerturbationMethod::Max));
    }
    let v = ovec::<Dyn>(n, |i| sym(10 + i as u32));
    let s = ovec::<Dyn>(n, |i| sym(20 + i as u32));
    let out = if n == 1 {
        ovec::<Dyn>(1, |_| ps[0].step_limitation(v[0], s[0]))
    } else {
        Iteratives::new(&ps).step_limitations(&v, &s)
    };
    let outfd = if n == 1 {
        ovec::<Dyn>(1, |_| fds[0].step_limitation(v[0], s[0]))
    } else {
        Iteratives::new(&fds).step_limitations(&v, &s)
    };
    for i in 0..n {
        let b = 100 + 10 * i as u32;
        let (a, r, lo, hi) = (sym(b), sym(b + 1), sym(b + 2), sym(b + 3));
        check(lo <= out[i] && out[i] <= hi, 1);
        check(same(out[i], outfd[i]), 2);
        match limited(a, r, lo, hi, v[i], s[i]) {
            Some(w) => {
                check(out[i] == w, 3);
                reach(100);
            }
            None => reach(101),
        }
    }
}
/// default parameters: nothing is limited
fn c05_default() {
    let (v, s) = (sym(10), sym(20));
    let out = IterativeParams::default().step_limitation(v, s);
    let outfd = IterativeParamsFD::default().step_limitation(v, s);
    check(same(out, outfd), 2);
    // (an infinite factor of a null value is no limit)
    if (v + s).is_finite() {
        check(out == v + s, 4);
        reach(102);
    }
}

// ---------------------------------------------------------------- C06

/// the perturbation of one variable (floats)
pub fn h_c06p() {
    let (da, dr, x) = (sym(104), sym(105), sym(10));
    assume(da > 0.0);
    assume(dr > 0.0);
    let sum = choice(1, 2) == 1;
    let how = if sum { PerturbationMethod::Sum } else { PerturbationMethod::Max };
    let p = IterativeParamsFD::new(f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, da, dr, how);
    let dx = p.compute_perturbation(x);
    check(p.with_finite_diff(), 1);
    check(!p.get_iterative_params().with_finite_diff(), 4);
    let r = dr * x.abs();
    if !x.is_nan() && !r.is_nan() {
        let want = if sum {
            da + r
        } else if r > da {
            r
        } else {
            da
        };
        check(dx == want, 2);
        check(dx > 0.0, 3);
        reach(100);
    }
}

/// the jacobian by finite differences (reals), the perturbations being given
fn c06j<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let n = param(P_N);
    let (stop, upd) = (norms(param(P_STOP)), norms(param(P_UPD)));
    let config = ResidualsConfig::new(&stop[..n], &upd[..n]);
    let mut m = model::<D>(10000);
    set_pending(0);
    let x0 = vguess::<D>(n);
    m.set_iteratives(&x0);
    let _ = m.evaluate();
    if m.last_outcome == UNUSABLE {
        return;
    }
    let dx = ovec::<D>(n, |i| sym(20 + i as u32));
    for i in 0..n {
        assume(dx[i] > 0.0);
    }
    set_pending(n);
    let r = compute_jacobian_from_finite_difference(&mut m, &dx, &config);
    let mut p = 2;
    let f = update_values(&m, 0);
    for i in 0..n {
        let ok = p + 1 < m.tn && m.t[p].kind == E_SET && m.t[p + 1].kind == E_PERT;
        check(ok, 10);
        if !ok {
            return;
        }
        for j in 0..n {
            check_eq(m.t[p].v[j], if i == j { x0[j] + dx[j] } else { x0[j] }, 0.0, 11);
            if i != j {
                // the others do not move, not even by rounding
                check(same(m.t[p].v[j], x0[j]), 20);
            }
        }
        let o = m.t[p + 1].info;
        p += 2;
        if o == UNUSABLE {
            // reported at once, with the error of the model
            check(p == m.tn, 12);
            match &r {
                Err(ModelError::UnusableValuesError(e)) => check(e.0 == i as u32 + 1, 13),
                _ => check(false, 14),
            }
            reach(101);
            return;
        }
        if m.use_mem {
            let ok = p < m.tn && m.t[p].kind == E_SETMEM;
            check(ok, 15);
            if !ok {
                return;
            }
            check_eq(m.t[p].v[0], smem(m.base, 0), 0.0, 16);
            p += 1;
        }
    }
    // at most put back at the reference point in the end
    let back = p + 1 == m.tn && m.t[p].kind == E_SET;
    check(p == m.tn || back, 17);
    match &r {
        Ok(j) => {
            for c in 0..n {
                let g = update_values(&m, c as u32 + 1);
                for i in 0..n {
                    let sc = if natively() { g[i].abs().max(f[i].abs()) / dx[c] } else { 0.0 };
                    check_eq(j[(i, c)], (g[i] - f[i]) / dx[c], sc, 18);
                }
            }
            reach(100);
        }
        Err(_) => check(false, 19),
    }
}
pub fn h_c06j() {
    dispatch!(c06j)
}

// ---------------------------------------------------------------- C07, C08

pub fn h_c07() {
    let m = param(P_CASE);
    let (l, r, dl, dr) = (sym(10), sym(11), sym(12), sym(13));
    let t = l + r;
    if m == 1 {
        assume(t != 0.0);
    }
    let sc = if natively() { l.abs().max(r.abs()) / if m == 1 { t.abs() } else { 1.0 } } else { 0.0 };
    check_eq(normalization(l, r, norm(m)), norm_spec(l, r, m), sc, 1);
    reach(100);
    if m == 2 {
        // not differentiable on t = 0, but along it or where l = r
        assume(t != 0.0 || l == r || dl + dr == 0.0);
    }
    let mut sc = 0.0;
    if natively() {
        sc = (dl.abs() + dr.abs()) * (1.0 + l.abs() + r.abs());
        if m == 1 {
            sc /= t * t;
        }
    }
    check_eq(deriv_normalization(l, r, dl, dr, norm(m)), dnorm_spec(l, r, dl, dr, m), sc, 2);
}

/// the derivative against the definition: f(p + h q) - f(p) - h f'(p; q) is of
/// second order, for a step small enough not to cross the kink
pub fn h_c07d() {
    let m = param(P_CASE);
    let (l, r, dl, dr, h) = (sym(10), sym(11), sym(12), sym(13), sym(14));
    assume(h != 0.0);
    let (t, t2) = (l + r, l + r + h * (dl + dr));
    assume((t > 0.0 && t2 > 0.0) || (t < 0.0 && t2 < 0.0));
    let d = deriv_normalization(l, r, dl, dr, norm(m));
    let f0 = normalization(l, r, norm(m));
    let f1 = normalization(l + h * dl, r + h * dr, norm(m));
    // all three are homographic along a line: f1 - f0 = h d w(0) / w(h), w the denominator
    let w = |t: f64| match m {
        0 => 1.0,
        1 => t,
        _ => 1.0 + t.abs() / 2.0,
    };
    let sc = if natively() { (f0.abs() + f1.abs()) * w(t2).abs() } else { 0.0 };
    check_eq((f1 - f0) * w(t2), h * d * w(t), sc, 1);
    reach(100);
}

fn c08<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let n = param(P_N);
    // P_MEM 1: any stopping criterion for each equation, P_LIM 1: any update method
    let (mut ks, mut ku) = ([0; NMAX], [0; NMAX]);
    for i in 0..n {
        ks[i] = if param(P_MEM) == 1 { choice(i as u32, 3) as usize } else { digit(param(P_STOP), i) };
        ku[i] = if param(P_LIM) == 1 { choice((NMAX + i) as u32, 3) as usize } else { digit(param(P_UPD), i) };
    }
    let (stop, upd) = (ks.map(norm), ku.map(norm));
    let config = ResidualsConfig::new(&stop[..n], &upd[..n]);
    check(config.len() == n, 1);
    let l = ovec::<D>(n, |i| sym(10 + i as u32));
    let r = ovec::<D>(n, |i| sym(20 + i as u32));
    for i in 0..n {
        assume(l[i] + r[i] != 0.0);
    }
    let values = ResidualsValues::new(l.clone(), r.clone());
    let u = config.evaluate_update_residuals(&values);
    let s = config.evaluate_stopping_residuals(&values);
    check(u.len() == n && s.len() == n, 2);
    for i in 0..n {
        let sc = if natively() { (l[i].abs() + r[i].abs()) * (1.0 + 1.0 / (l[i] + r[i]).abs()) } else { 0.0 };
        check_eq(u[i], norm_spec(l[i], r[i], ku[i]), sc, 3);
        let w = norm_spec(l[i], r[i], ks[i]);
        check_eq(s[i], if w < 0.0 { -w } else { w }, sc, 4);
    }
    reach(100);
    if param(P_CASE) == 1 {
        let jl = |i: usize, j: usize| sym(1000 + 10 * i as u32 + j as u32);
        let jr = |i: usize, j: usize| sym(1100 + 10 * i as u32 + j as u32);
        let jac = JacobianValues::new(omat::<D>(n, jl), omat::<D>(n, jr));
        let g = jac.normalize(&values, &upd[..n]);
        for i in 0..n {
            for j in 0..n {
                let sc = if natively() {
                    (jl(i, j).abs() + jr(i, j).abs()) * (1.0 + l[i].abs() + r[i].abs()) * (1.0 + 1.0 / (l[i] + r[i]).powi(2))
                } else {
                    0.0
                };
                let w = dnorm_spec(l[i], r[i], jl(i, j), jr(i, j), ku[i]);
                check_eq(g[(i, j)], w, sc, 5);
            }
        }
        reach(101);
    }
}
pub fn h_c08() {
    dispatch!(c08)
}
/// the split of the configurations of the equations
pub fn h_c08v() {
    let n = param(P_N);
    let mut v = vec![];
    let mut want = vec![];
    for i in 0..n {
        let (s, u) = (choice(2 * i as u32, 3) as usize, choice(2 * i as u32 + 1, 3) as usize);
        let c = ResidualConfig::new(norm(s), norm(u));
        check(c.get_stopping_criteria() == norm(s), 1);
        check(c.get_update_method() == norm(u), 2);
        v.push(c);
        want.push((norm(s), norm(u)));
    }
    let (s, u) = ResidualsConfig::convert_into_vecs(v);
    check(s.len() == n && u.len() == n, 3);
    let config = ResidualsConfig::new(&s, &u);
    for i in 0..n {
        check(s[i] == want[i].0 && config.get_stopping_criterias()[i] == want[i].0, 4);
        check(u[i] == want[i].1 && config.get_update_methods()[i] == want[i].1, 5);
    }
    reach(100);
}

// ---------------------------------------------------------------- C10

fn qn(m: usize) -> UpdateQuasiNewtonMethod {
    match m {
        0 => UpdateQuasiNewtonMethod::BroydenFirstMethod,
        1 => UpdateQuasiNewtonMethod::BroydenSecondMethod,
        2 => UpdateQuasiNewtonMethod::GreenstadtFirstMethod,
        _ => UpdateQuasiNewtonMethod::GreenstadtSecondMethod,
    }
}
fn tomat<D>(n: usize, m: &OMatrix<f64, D, D>) -> Mat
where
    D: SolveDim,
    DefaultAllocator: Allocator<D, D>,
{
    let mut r = [[0.0; NMAX]; NMAX];
    for i in 0..n {
        for j in 0..n {
            r[i][j] = m[(i, j)];
        }
    }
    r
}
/// one update through the functions used by the solver; P_METHOD 0..4 the
/// method, P_CASE 0: jacobian, 1: inverse, 2: both agree
fn c10<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let n = param(P_N);
    let k = param(P_METHOD);
    let case = param(P_CASE);
    let s = ovec::<D>(n, |i| sym(10 + i as u32));
    let y = ovec::<D>(n, |i| sym(20 + i as u32));
    let f = ovec::<D>(n, |i| sym(30 + i as u32));
    let (mut sv, mut yv, mut fv) = ([0.0; NMAX], [0.0; NMAX], [0.0; NMAX]);
    for i in 0..n {
        sv[i] = s[i];
        yv[i] = y[i];
        fv[i] = f[i];
    }
    let m0 = omat::<D>(n, |i, j| sym(40 + 10 * i as u32 + j as u32));
    let a0 = tomat(n, &m0);
    if case == 0 || case == 2 {
        let mut holder = JacobianMatrix::<D>::new();
        if holder.update_jacobian_with_exact_value(m0.clone()).is_err() {
            reach(110);
            return;
        }
        let h0 = holder.get_inverse().clone().unwrap();
        let res = approximate_jacobian(&mut holder, qn(k), &s, &y, &f);
        let want = quasi_newton(n, 2 + k, &a0, &sv, &yv, &fv);
        if res.is_err() {
            // refused only when the updated jacobian is singular
            let d = determinant(n, &want);
            check(near(d, 0.0, rows_scale(n, &want)), 1);
            reach(111);
            return;
        }
        if case == 0 {
            let got = tomat(n, holder.get_jacobian().as_ref().unwrap());
            let js = mv(n, &got, &sv);
            for i in 0..n {
                let mut sc = 0.0f64;
                if natively() {
                    for j in 0..n {
                        sc = sc.max((got[i][j] * sv[j]).abs());
                    }
                }
                check_eq(js[i], yv[i], sc, 2);
                for j in 0..n {
                    check_eq(got[i][j], want[i][j], a0[i][j], 3);
                }
            }
            reach(100);
        } else {
            // the inverse updated with the same method is the inverse
            let mut other = JacobianMatrix::<D>::new();
            other.update_inverse(h0);
            approximate_inv_jacobian(&mut other, qn(k), &s, &y, &f);
            let h = tomat(n, other.get_inverse().as_ref().unwrap());
            let j = tomat(n, holder.get_jacobian().as_ref().unwrap());
            for i in 0..n {
                for c in 0..n {
                    let mut e = 0.0;
                    let mut sc = 1.0f64;
                    for q in 0..n {
                        e += j[i][q] * h[q][c];
                        if natively() {
                            sc = sc.max((j[i][q] * h[q][c]).abs());
                        }
                    }
                    check_eq(e, if i == c { 1.0 } else { 0.0 }, sc, 4);
                }
            }
            reach(101);
        }
    } else {
        let mut holder = JacobianMatrix::<D>::new();
        holder.update_inverse(m0.clone());
        approximate_inv_jacobian(&mut holder, qn(k), &s, &y, &f);
        let got = tomat(n, holder.get_inverse().as_ref().unwrap());
        let want = quasi_newton(n, 6 + k, &a0, &sv, &yv, &fv);
        let hy = mv(n, &got, &yv);
        for i in 0..n {
            let mut sc = 0.0f64;
            if natively() {
                for j in 0..n {
                    sc = sc.max((got[i][j] * yv[j]).abs());
                }
            }
            check_eq(hy[i], sv[i], sc, 5);
            for j in 0..n {
                check_eq(got[i][j], want[i][j], a0[i][j], 6);
            }
        }
        reach(102);
    }
}
pub fn h_c10() {
    dispatch!(c10)
}
/// the exported formulas called directly
fn c10f<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let n = param(P_N);
    let k = param(P_METHOD);
    let s = ovec::<D>(n, |i| sym(10 + i as u32));
    let y = ovec::<D>(n, |i| sym(20 + i as u32));
    let c = ovec::<D>(n, |i| sym(30 + i as u32));
    let m0 = omat::<D>(n, |i, j| sym(40 + 10 * i as u32 + j as u32));
    let inv = k >= 4;
    let got = match k {
        0 => broyden_first_method_udpate_jac(&m0, &s, &y),
        1 => broyden_second_method_udpate_jac(&m0, &s, &y),
        2 => quasi_method_update_jac(&m0, &s, &y, &c),
        3 => greenstadt_second_method_udpate_jac(&m0, &s, &y, &c),
        4 => broyden_first_method_udpate_inv_jac(&m0, &s, &y),
        5 => broyden_second_method_udpate_inv_jac(&m0, &s, &y),
        _ => quasi_method_update_inv_jac(&m0, &s, &y, &c),
    };
    let (a, b) = if inv { (&y, &s) } else { (&s, &y) };
    for i in 0..n {
        let mut e = 0.0;
        let mut sc = 0.0f64;
        for j in 0..n {
            e += got[(i, j)] * a[j];
            if natively() {
                sc = sc.max((got[(i, j)] * a[j]).abs());
            }
        }
        check_eq(e, b[i], sc, 7);
    }
    // the correction has rank one
    if n > 1 {
        let d = |i: usize, j: usize| got[(i, j)] - m0[(i, j)];
        for i in 0..n - 1 {
            for j in 0..n - 1 {
                let (p, q) = (d(i, j) * d(i + 1, j + 1), d(i, j + 1) * d(i + 1, j));
                check_eq(p, q, if natively() { p.abs().max(q.abs()) + 1.0 } else { 0.0 }, 8);
            }
        }
    }
    reach(103);
}
pub fn h_c10f() {
    dispatch!(c10f)
}

// ---------------------------------------------------------------- C15

fn size(id: u32) -> usize {
    choice(id, 3) as usize + 1
}
fn expect(valid: bool, label: u32) {
    panic_mode(if valid { 0 } else { 1 }, label);
}
pub fn h_c15() {
    let (a, r, lo, hi, da, dr) = (sym(100), sym(101), sym(102), sym(103), sym(104), sym(105));
    let plain = a > 0.0 && r > 0.0 && lo < hi;
    let fd = da > 0.0 && dr > 0.0;
    let how = if choice(106, 2) == 0 { PerturbationMethod::Max } else { PerturbationMethod::Sum };
    match param(P_CASE) {
        0 => {
            expect(plain, 1);
            let p = IterativeParams::new(a, r, lo, hi);
            check(p.get_max_step_abs() == a && p.get_max_step_rel() == r, 2);
            check(p.get_min_value() == lo && p.get_max_value() == hi, 3);
            reach(100);
        }
        1 | 2 => {
            let extend = param(P_CASE) == 2;
            if extend {
                assume(plain);
                expect(fd, 1);
            } else {
                expect(plain && fd, 1);
            }
            let p = if extend {
                IterativeParamsFD::extend(IterativeParams::new(a, r, lo, hi), da, dr, how)
            } else {
                IterativeParamsFD::new(a, r, lo, hi, da, dr, how)
            };
            check(p.get_max_step_abs() == a && p.get_max_step_rel() == r, 2);
            check(p.get_min_value() == lo && p.get_max_value() == hi, 3);
            check(p.get_dx_abs() == da && p.get_dx_rel() == dr, 4);
            check(p.get_perturbation_method() == how, 5);
            let q = p.get_iterative_params();
            check(q.get_max_step_abs() == a && q.get_max_step_rel() == r, 6);
            check(q.get_min_value() == lo && q.get_max_value() == hi, 7);
            reach(101);
        }
        3 => {
            let (i, j) = (size(1), size(2));
            let (s, u) = ([NormalizationMethod::Abs; 3], [NormalizationMethod::Rel; 3]);
            expect(i == j, 10);
            let c = ResidualsConfig::new(&s[..i], &u[..j]);
            check(c.len() == i, 11);
            reach(102);
        }
        4 => {
            let (i, j) = (size(1), size(2));
            expect(i == j, 12);
            let v = ResidualsValues::<Dyn>::new(ovec::<Dyn>(i, |k| sym(k as u32)), ovec::<Dyn>(j, |k| sym(50 + k as u32)));
            check(v.len() == i && v.shape() == i, 13);
            for k in 0..i {
                let (l, r) = v.get_values(k);
                check(same(l, sym(k as u32)) && same(r, sym(50 + k as u32)), 14);
            }
            reach(103);
        }
        5 => {
            let (i, j, p, q) = (size(1), size(2), size(3), size(4));
            expect(i == j && j == p && p == q, 15);
            let v = JacobianValues::<Dyn>::new(DMatrix::zeros(i, j), DMatrix::zeros(p, q));
            check(v.get_jacobians().0.nrows() == i && v.get_jacobians().1.ncols() == i, 16);
            reach(104);
        }
        6 => {
            let (n, g, i, c) = (size(1), size(2), size(3), size(4));
            let its = [IterativeParams::default(), IterativeParams::default(), IterativeParams::default()];
            let iters = Iteratives::new(&its[..i]);
            let s = [NormalizationMethod::Abs; 3];
            let config = ResidualsConfig::new(&s[..c], &s[..c]);
            expect(n == g && n == i && n == c, 17);
            let p = SolverParameters::new(n, 1e-3, 5, method(choice(5, 2) as usize), false);
            let _ = RootFinder::new(p, DVector::zeros(g), &iters, &config);
            reach(105);
        }
        7 => {
            // the defaults
            let p = IterativeParams::default();
            check(p.get_max_step_abs() == f64::INFINITY && p.get_max_step_rel() == f64::INFINITY, 20);
            check(p.get_min_value() == f64::NEG_INFINITY && p.get_max_value() == f64::INFINITY, 21);
            let p = IterativeParamsFD::default();
            check(p.get_max_step_abs() == f64::INFINITY && p.get_max_step_rel() == f64::INFINITY, 22);
            check(p.get_min_value() == f64::NEG_INFINITY && p.get_max_value() == f64::INFINITY, 23);
            check(p.get_dx_abs() == 5e-8 && p.get_dx_rel() == 5e-8, 24);
            check(p.get_perturbation_method() == PerturbationMethod::Max, 25);
            let n = size(1);
            check(nrf::iteratives::default_vec_iteratives(n).len() == n, 26);
            check(nrf::iteratives::default_vec_iteratives_fd(n).len() == n, 27);
            let v = nrf::residuals::default_vec_residuals(n);
            check(v.len() == n, 28);
            for r in v {
                check(r.get_stopping_criteria() == NormalizationMethod::Abs && r.get_update_method() == NormalizationMethod::Abs, 29);
            }
            c05_default();
            reach(106);
        }
        8 => {
            // what is given to the solver parameters is kept
            let (t, m, d) = (sym(1), choice(1, 10) as usize, choice(2, 2) == 1);
            let p = SolverParameters::new(size(3), t, size(4), method(m), d);
            check(p.get_problem_size() == size(3) && p.get_max_iter() == size(4), 30);
            check(same(p.get_tolerance(), t), 31);
            check(p.get_damping() == d && p.get_resolution_method() == method(m), 32);
            reach(107);
        }
        _ => {
            // the default solver: tolerance 1e-6, 50 iterations
            let its = [Spy(IterativeParamsFD::default())];
            let iters = Iteratives::new(&its);
            let s = [NormalizationMethod::Abs];
            let config = ResidualsConfig::new(&s, &s);
            let mut rf = default_with_guess(
                ovec::<Const<1>>(1, |_| 0.5),
                &iters,
                &config,
                method(choice(1, 2) as usize),
                false,
            );
            let x = sym(1);
            // at the first evaluation, or at the last one
            let at = if choice(2, 2) == 0 { 1 } else { 51 };
            let mut m = Fixed { value: x, at, evals: 0, x: 0.0 };
            let ok = rf.solve(&mut m).is_ok();
            if x.abs() <= 1e-6 {
                check(ok && m.evals == at, 40);
                reach(108);
            } else {
                check(!ok && m.evals == if at == 1 { 2 } else { 51 }, 41);
                reach(109);
            }
        }
    }
}
/// a model that answers 1, but a symbolic number once; the next evaluation fails
struct Fixed {
    value: f64,
    at: usize,
    evals: usize,
    x: f64,
}
impl Model<Const<1>> for Fixed {
    type InaccurateValuesError = ModelErr;
    type UnusableValuesError = ModelErr;
    fn len_problem(&self) -> usize {
        1
    }
    fn set_iteratives(&mut self, x: &OVector<f64, Const<1>>) {
        self.x = x[0];
    }
    fn get_iteratives(&self) -> OVector<f64, Const<1>> {
        ovec::<Const<1>>(1, |_| self.x)
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, Const<1>>> {
        self.evals += 1;
        if self.evals > self.at {
            return Err(ModelError::UnusableValuesError(ModelErr(0)));
        }
        Ok(())
    }
    fn get_residuals(&self) -> ResidualsValues<Const<1>> {
        let v = if self.evals == self.at { self.value } else { 1.0 };
        ResidualsValues::new(ovec::<Const<1>>(1, |_| v), ovec::<Const<1>>(1, |_| 0.0))
    }
    fn jacobian_provided(&self) -> bool {
        true
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<Const<1>>, ModelError<Self, Const<1>>> {
        Ok(JacobianValues::new(omat::<Const<1>>(1, |_, _| 1.0), omat::<Const<1>>(1, |_, _| 0.0)))
    }
}

// ---------------------------------------------------------------- C17

static mut CALLS: u32 = 0;
static mut JCALLS: u32 = 0;
static mut ARG: [f64; NMAX] = [0.0; NMAX];
static mut JARG: [f64; NMAX] = [0.0; NMAX];
fn user_f(x: &DVector<f64>) -> DVector<f64> {
    unsafe {
        for i in 0..x.len() {
            ARG[i] = x[i];
        }
        CALLS += 1;
        let c = CALLS;
        ovec::<Dyn>(x.len(), |i| sym(1000 + 10 * c + i as u32))
    }
}
fn user_j(x: &DVector<f64>) -> DMatrix<f64> {
    unsafe {
        for i in 0..x.len() {
            JARG[i] = x[i];
        }
        JCALLS += 1;
        let c = JCALLS;
        omat::<Dyn>(x.len(), |i, j| sym(2000 + 100 * c + (10 * i + j) as u32))
    }
}
/// a history of operations on an adapter
fn adapter<M: Model<Dyn>>(n: usize, m: &mut M, with_jac: bool, set_right: impl Fn(&mut M, DVector<f64>)) {
    unsafe {
        CALLS = 0;
        JCALLS = 0;
    }
    check(m.len_problem() == n, 1);
    check(m.jacobian_provided() == with_jac, 2);
    let r = m.get_residuals();
    for i in 0..n {
        let (l, r) = r.get_values(i);
        // NaN whatever the normalisation
        check(l.is_nan() && !r.is_nan(), 3);
        for k in 0..3 {
            check(normalization(l, r, norm(k)).is_nan(), 4);
        }
    }
    let mut cur = m.get_iteratives();
    check(cur.len() == n, 5);
    let mut right = ovec::<Dyn>(n, |_| 0.0);
    let mut evals = 0u32;
    let mut jacs = 0u32;
    for step in 0..param(P_ITER) as u32 {
        let op = choice(step, if with_jac { 5 } else { 4 });
        match if op == 3 && !with_jac { 4 } else { op } {
            0 => {
                let x = ovec::<Dyn>(n, |i| sym(100 + 10 * step + i as u32));
                m.set_iteratives(&x);
                cur = x;
            }
            1 => {
                check(m.evaluate().is_ok(), 6);
                evals += 1;
                unsafe {
                    check(CALLS == evals, 7);
                    for i in 0..n {
                        check(same(ARG[i], cur[i]), 8);
                    }
                }
            }
            2 => {
                let mem = m.get_memory();
                m.set_memory(&mem);
            }
            4 => {
                // the constants on the right
                right = ovec::<Dyn>(n, |i| sym(700 + 10 * step + i as u32));
                set_right(m, right.clone());
                reach(102);
            }
            _ => {
                let j = m.get_jacobian();
                jacs += 1;
                match j {
                    Ok(j) => {
                        let (a, b) = j.get_jacobians();
                        check(a.nrows() == n && b.nrows() == n && a.ncols() == n && b.ncols() == n, 9);
                        for i in 0..n {
                            for k in 0..n {
                                check(same(a[(i, k)], sym(2000 + 100 * jacs + (10 * i + k) as u32)), 10);
                                check(b[(i, k)] == 0.0, 11);
                            }
                        }
                    }
                    Err(_) => check(false, 12),
                }
                unsafe {
                    check(JCALLS == jacs, 13);
                    for i in 0..n {
                        check(same(JARG[i], cur[i]), 14);
                    }
                }
                reach(101);
            }
        }
        unsafe {
            check(CALLS == evals, 15);
        }
        let x = m.get_iteratives();
        let r = m.get_residuals();
        check(r.len() == n, 16);
        for i in 0..n {
            check(same(x[i], cur[i]), 17);
            let (l, r) = r.get_values(i);
            if evals > 0 {
                check(same(l, sym(1000 + 10 * evals + i as u32)), 18);
                check(same(r, right[i]), 19);
            } else {
                check(l.is_nan(), 20);
            }
        }
    }
    reach(100);
}
pub fn h_c17() {
    let n = param(P_N);
    match param(P_CASE) {
        0 => adapter(n, &mut UserModelFromFunction::new(n, user_f), false, |m, r| m.right = r),
        1 => adapter(n, &mut UserModelFromFunctionAndJacobian::new(n, user_f, user_j), true, |m, r| m.right = r),
        2 => {
            let f = |x: &DVector<f64>| user_f(x);
            adapter(n, &mut UserModelFromClosure::new(n, &f), false, |m, r| m.right = r)
        }
        _ => {
            let f = |x: &DVector<f64>| user_f(x);
            let j = |x: &DVector<f64>| user_j(x);
            adapter(n, &mut UserModelFromClosureAndJacobian::new(n, &f, &j), true, |m, r| m.right = r)
        }
    }
}

// ---------------------------------------------------------------- C19

/// the size of the terms of the determinant
fn rows_scale(n: usize, m: &Mat) -> f64 {
    let mut sc = 0.0;
    if natively() {
        sc = 1.0;
        for i in 0..n {
            sc *= m[i][..n].iter().fold(0.0, |x: f64, y| x.max(y.abs()));
        }
    }
    sc
}
/// by elimination without pivoting from 4 rows on
fn determinant(n: usize, m: &Mat) -> f64 {
    if n < 4 {
        return det(n, m);
    }
    let mut a = *m;
    let mut d = 1.0;
    for p in 0..n {
        d *= a[p][p];
        for i in p + 1..n {
            let f = a[i][p] / a[p][p];
            for j in p..n {
                a[i][j] -= f * a[p][j];
            }
        }
    }
    d
}
fn c19<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let n = param(P_N);
    let mut h = JacobianMatrix::<D>::new();
    let mut matrix: Option<Mat> = None;
    // Some(None): the inverse of the matrix
    let mut inverse_known: Option<Option<Mat>> = None;
    let mut needed = true;
    let mut approx = Some(false);
    for step in 0..param(P_ITER) as u32 {
        let e = |i: usize, j: usize| sym(100 + 100 * step + (10 * i + j) as u32);
        let m = omat::<D>(n, e);
        let a = tomat(n, &m);
        let op = choice(step, 5);
        match op {
            0 | 1 => {
                let r = if op == 0 {
                    h.update_jacobian_with_exact_value(m)
                } else {
                    h.update_jacobian_with_approximated_value(m)
                };
                if r.is_ok() {
                    matrix = Some(a);
                    inverse_known = Some(None);
                    needed = false;
                    approx = Some(op == 1);
                    reach(100);
                } else {
                    // only when singular
                    let d = determinant(n, &a);
                    check(near(d, 0.0, rows_scale(n, &a)), 1);
                    matrix = None;
                    inverse_known = None;
                    approx = None;
                    reach(101);
                }
            }
            2 => {
                h.update_inverse(m);
                matrix = None;
                inverse_known = Some(Some(a));
                approx = Some(true);
                reach(102);
            }
            3 => {
                h.force_jacobian_computation();
                needed = true;
            }
            _ => {
                h.invalidate_jacobian();
                matrix = None;
                inverse_known = None;
            }
        }
        check(h.get_jacobian().is_some() == matrix.is_some(), 2);
        check(h.get_inverse().is_some() == inverse_known.is_some(), 3);
        check(h.compute_jacobian() == needed, 4);
        if let Some(b) = approx {
            check(h.is_jacobian_approximated() == b, 5);
        }
        if let (Some(w), Some(g)) = (&matrix, h.get_jacobian()) {
            for i in 0..n {
                for j in 0..n {
                    check_eq(g[(i, j)], w[i][j], 0.0, 6);
                }
            }
        }
        if let (Some(w), Some(g)) = (&inverse_known, h.get_inverse()) {
            for i in 0..n {
                for j in 0..n {
                    match w {
                        Some(w) => check_eq(g[(i, j)], w[i][j], 0.0, 7),
                        None => {
                            let w = matrix.as_ref().unwrap();
                            let (mut e, mut f, mut sc) = (0.0, 0.0, 1.0f64);
                            for q in 0..n {
                                e += w[i][q] * g[(q, j)];
                                f += g[(i, q)] * w[q][j];
                                if natively() {
                                    sc = sc.max((w[i][q] * g[(q, j)]).abs());
                                    sc = sc.max((g[(i, q)] * w[q][j]).abs());
                                }
                            }
                            let id = if i == j { 1.0 } else { 0.0 };
                            check_eq(e, id, sc, 8);
                            check_eq(f, id, sc, 9);
                        }
                    }
                }
            }
        }
    }
}
pub fn h_c19() {
    dispatch!(c19)
}
