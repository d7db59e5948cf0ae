//! The environment of a resolution: a model whose every response is symbolic.
use crate::api::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, Dim, DimMin, OMatrix, OVector, U1};
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, IterativeParamsFD, PerturbationMethod};
use nrf::model::{Model, ModelError};
use nrf::residuals::{JacobianValues, NormalizationMethod, ResidualsValues};
use nrf::solver::{QuasiNewtonMethod, ResolutionMethod, SolverParameters, UpdateQuasiNewtonMethod};
use std::fmt;

/// maximum size of the problems
pub const NMAX: usize = 10;
/// maximum length of a recorded history
pub const TMAX: usize = 256;

pub const ACCURATE: u32 = 0;
pub const INACCURATE: u32 = 1;
pub const UNUSABLE: u32 = 2;

/// Error of the model: carries the number of the call that failed
pub struct ModelErr(pub u32);
impl fmt::Display for ModelErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "model error {}", self.0)
    }
}
impl fmt::Debug for ModelErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("model error")
    }
}
impl std::error::Error for ModelErr {}

pub const E_SET: u32 = 1;
pub const E_EVAL: u32 = 2;
pub const E_JAC: u32 = 3;
pub const E_SETMEM: u32 = 4;
pub const E_PERT: u32 = 5;

/// What the model was asked, in order
#[derive(Clone, Copy)]
pub struct Ev {
    pub kind: u32,
    /// E_EVAL: outcome
    pub info: u32,
    /// E_SET / E_EVAL / E_JAC: the iteratives; E_SETMEM: the memory
    pub v: [f64; NMAX],
}
pub const EV0: Ev = Ev {
    kind: 0,
    info: 0,
    v: [0.0; NMAX],
};

/// Number of calls of compute_perturbation not followed yet by an evaluation
static mut PENDING: usize = 0;
pub fn pending() -> usize {
    unsafe { PENDING }
}
pub fn set_pending(n: usize) {
    unsafe { PENDING = n }
}

/// The parameters of the library, observed: notes the perturbations requested
#[derive(Clone, Debug)]
pub struct Spy(pub IterativeParamsFD);
impl Iterative for Spy {
    fn step_limitation(&self, value_current: f64, raw_step: f64) -> f64 {
        self.0.step_limitation(value_current, raw_step)
    }
    fn compute_perturbation(&self, x: f64) -> f64 {
        set_pending(pending() + 1);
        self.0.compute_perturbation(x)
    }
    fn with_finite_diff(&self) -> bool {
        true
    }
}
impl fmt::Display for Spy {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}

/// Model with symbolic responses, whatever it is asked
///
/// The k-th evaluation gives left/right values named after k, hence arbitrary:
/// this covers every function, with or without memory.
pub struct SymModel<D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    pub n: usize,
    pub x: OVector<f64, D>,
    pub left: OVector<f64, D>,
    pub right: OVector<f64, D>,
    pub mem: f64,
    /// offset of the names of the symbols
    pub base: u32,
    /// provides the jacobian
    pub jac: bool,
    /// outcomes allowed: 0 accurate, 1 + inaccurate, 2 + unusable
    pub faults: u32,
    /// symbolic right hand sides (otherwise zero)
    pub rhs: bool,
    /// evaluations made
    pub evals: u32,
    pub jacs: u32,
    /// the residuals are those of the current iteratives
    pub fresh: bool,
    pub last_outcome: u32,
    /// number of calls received after a fatal failure
    pub after_fatal: u32,
    pub fatal: bool,
    pub first_fatal_in_pert: bool,
    pub t: [Ev; TMAX],
    pub tn: usize,
    /// all the jacobians given (left)
    pub use_mem: bool,
}

pub fn sl(base: u32, k: u32, i: usize) -> f64 {
    sym(base + 1000 + k * 10 + i as u32)
}
pub fn sr(base: u32, k: u32, i: usize) -> f64 {
    sym(base + 2000 + k * 10 + i as u32)
}
pub fn sj(base: u32, k: u32, i: usize, j: usize) -> f64 {
    sym(base + 3000 + entry(k, i, j))
}
pub fn sjr(base: u32, k: u32, i: usize, j: usize) -> f64 {
    sym(base + 4000 + entry(k, i, j))
}
fn entry(k: u32, i: usize, j: usize) -> u32 {
    let (a, b) = (i as u32, j as u32);
    if i < 3 && j < 3 {
        k * 20 + a * 3 + b
    } else if i < 5 && j < 5 {
        3000 + k * 30 + a * 5 + b
    } else {
        5000 + k * 100 + a * 10 + b
    }
}
pub fn smem(base: u32, k: u32) -> f64 {
    sym(base + 5000 + k)
}

impl<D> SymModel<D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    pub fn new(n: usize, base: u32) -> Self {
        let z = || OVector::<f64, D>::zeros_generic(D::from_usize(n), U1);
        SymModel {
            n,
            x: z(),
            left: z(),
            right: z(),
            mem: smem(base, 99),
            base,
            jac: false,
            faults: 0,
            rhs: false,
            evals: 0,
            jacs: 0,
            fresh: false,
            last_outcome: ACCURATE,
            after_fatal: 0,
            fatal: false,
            first_fatal_in_pert: false,
            t: [EV0; TMAX],
            tn: 0,
            use_mem: false,
        }
    }
    pub fn push(&mut self, kind: u32, info: u32, v: [f64; NMAX]) {
        if self.fatal && kind != E_SET && kind != E_SETMEM {
            self.after_fatal += 1;
        }
        if kind == E_SET && self.tn > 0 && self.t[self.tn - 1].kind == E_SET {
            // replaced before it was ever used
            self.tn -= 1;
        }
        if self.tn == TMAX {
            // the resolution asks more than anything documented (C02)
            check(false, 900);
            assume(false);
        }
        self.t[self.tn] = Ev { kind, info, v };
        self.tn += 1;
    }
    pub fn xs(&self) -> [f64; NMAX] {
        let mut v = [0.0; NMAX];
        for i in 0..self.n {
            v[i] = self.x[i];
        }
        v
    }
    pub fn outcome(&self, id: u32) -> u32 {
        choice(self.base + id, self.faults + 1)
    }
}

impl<D> Model<D> for SymModel<D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    type InaccurateValuesError = ModelErr;
    type UnusableValuesError = ModelErr;

    fn len_problem(&self) -> usize {
        self.n
    }
    fn set_iteratives(&mut self, x: &OVector<f64, D>) {
        for i in 0..self.n {
            self.x[i] = x[i];
        }
        let v = self.xs();
        self.fresh = false;
        self.push(E_SET, 0, v);
    }
    fn get_iteratives(&self) -> OVector<f64, D> {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, D>> {
        let k = self.evals;
        let pert = pending() > 0;
        if pert {
            set_pending(pending() - 1);
        }
        let o = self.outcome(100 + k);
        let v = self.xs();
        self.push(if pert { E_PERT } else { E_EVAL }, o, v);
        self.evals += 1;
        for i in 0..self.n {
            if param(P_LIN) == 1 {
                let mut l = sl(self.base, 0, i);
                for j in 0..self.n {
                    l += sj(self.base, 0, i, j) * self.x[j];
                }
                self.left[i] = l;
            } else {
                self.left[i] = sl(self.base, k, i);
            }
            if param(P_POS) == 1 {
                assume(self.left[i] > 0.0);
            }
            if self.rhs {
                self.right[i] = sr(self.base, k, i);
            }
        }
        if self.use_mem {
            self.mem = smem(self.base, k);
        }
        self.fresh = true;
        self.last_outcome = o;
        match o {
            ACCURATE => Ok(()),
            INACCURATE => Err(ModelError::InaccurateValuesError(ModelErr(k))),
            _ => {
                if !self.fatal {
                    self.first_fatal_in_pert = pert;
                }
                self.fatal = true;
                Err(ModelError::UnusableValuesError(ModelErr(k)))
            }
        }
    }
    fn get_residuals(&self) -> ResidualsValues<D> {
        ResidualsValues::new(self.left.clone(), self.right.clone())
    }
    fn jacobian_provided(&self) -> bool {
        self.jac
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<D>, ModelError<Self, D>> {
        let k = self.jacs;
        let o = self.outcome(200 + k);
        let v = self.xs();
        self.push(E_JAC, o, v);
        self.jacs += 1;
        let d = D::from_usize(self.n);
        let mut l = OMatrix::<f64, D, D>::zeros_generic(d, d);
        let mut r = OMatrix::<f64, D, D>::zeros_generic(d, d);
        for i in 0..self.n {
            for j in 0..self.n {
                l[(i, j)] = sj(self.base, if param(P_LIN) == 1 { 0 } else { k }, i, j);
                if self.rhs {
                    r[(i, j)] = sjr(self.base, k, i, j);
                }
            }
        }
        match o {
            ACCURATE => Ok(JacobianValues::new(l, r)),
            INACCURATE => {
                self.fatal = true;
                Err(ModelError::InaccurateValuesError(ModelErr(1000 + k)))
            }
            _ => {
                self.fatal = true;
                Err(ModelError::UnusableValuesError(ModelErr(1000 + k)))
            }
        }
    }
    fn get_memory(&self) -> nalgebra::DVector<f64> {
        if self.use_mem {
            nalgebra::DVector::from_vec(vec![self.mem])
        } else {
            nalgebra::DVector::from_vec(vec![])
        }
    }
    fn set_memory(&mut self, memory: &nalgebra::DVector<f64>) {
        if self.use_mem {
            self.mem = memory[0];
            let m = self.mem;
            let mut v = [0.0; NMAX];
            v[0] = m;
            self.push(E_SETMEM, 0, v);
        }
    }
}

pub fn method(m: usize) -> ResolutionMethod {
    use QuasiNewtonMethod::*;
    use UpdateQuasiNewtonMethod::*;
    match m {
        0 => ResolutionMethod::NewtonRaphson,
        1 => ResolutionMethod::QuasiNewton(StationaryNewton),
        2 => ResolutionMethod::QuasiNewton(JacobianUpdate(BroydenFirstMethod)),
        3 => ResolutionMethod::QuasiNewton(JacobianUpdate(BroydenSecondMethod)),
        4 => ResolutionMethod::QuasiNewton(JacobianUpdate(GreenstadtFirstMethod)),
        5 => ResolutionMethod::QuasiNewton(JacobianUpdate(GreenstadtSecondMethod)),
        6 => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(BroydenFirstMethod)),
        7 => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(BroydenSecondMethod)),
        8 => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(GreenstadtFirstMethod)),
        _ => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(GreenstadtSecondMethod)),
    }
}
pub fn norm(m: usize) -> NormalizationMethod {
    match m {
        0 => NormalizationMethod::Abs,
        1 => NormalizationMethod::Rel,
        _ => NormalizationMethod::Adapt,
    }
}
/// the documented normalisation, written independently
pub fn norm_spec(l: f64, r: f64, m: usize) -> f64 {
    match m {
        0 => l - r,
        1 => (l - r) / ((l + r).abs() / 2.0),
        _ => (l - r) / (1.0 + (l + r).abs() / 2.0),
    }
}

pub const P_METHOD: u32 = 0;
pub const P_DAMP: u32 = 1;
pub const P_JAC: u32 = 2;
pub const P_ITER: u32 = 3;
pub const P_FAULTS: u32 = 4;
/// base 3 digits: stopping criteria of the equations, then update methods
pub const P_STOP: u32 = 5;
pub const P_UPD: u32 = 6;
pub const P_N: u32 = 7;
/// 0: default parameters, 1: symbolic limits, 2: symbolic bounds and limits,
/// 3: no limit, symbolic perturbations
pub const P_LIM: u32 = 8;
pub const P_RHS: u32 = 9;
pub const P_MEM: u32 = 10;
pub const P_DYN: u32 = 11;
/// 1: the values are followed too (over the reals)
pub const P_VAL: u32 = 12;
/// 1: the left values are assumed positive
pub const P_POS: u32 = 13;
/// 1: the model is linear
pub const P_LIN: u32 = 14;
/// case of a harness
pub const P_CASE: u32 = 15;

pub fn digit(v: usize, i: usize) -> usize {
    let mut v = v;
    for _ in 0..i {
        v /= 3;
    }
    v % 3
}
pub fn norms(v: usize) -> [NormalizationMethod; NMAX] {
    let mut r = [NormalizationMethod::Abs; NMAX];
    for i in 0..NMAX {
        r[i] = norm(digit(v, i));
    }
    r
}

/// symbolic parameters of one variable, as accepted by the constructor
pub fn iterative(i: usize, lim: usize) -> IterativeParamsFD {
    let b = 100 + 10 * i as u32;
    if lim == 0 {
        return IterativeParamsFD::default();
    }
    let (a, r) = if lim == 3 {
        (f64::INFINITY, f64::INFINITY)
    } else {
        let (a, r) = (sym(b), sym(b + 1));
        assume(a > 0.0);
        assume(r > 0.0);
        (a, r)
    };
    let (lo, hi) = if lim == 2 {
        let (lo, hi) = (sym(b + 2), sym(b + 3));
        assume(lo < hi);
        (lo, hi)
    } else {
        (f64::NEG_INFINITY, f64::INFINITY)
    };
    let (da, dr) = (sym(b + 4), sym(b + 5));
    assume(da > 0.0);
    assume(dr > 0.0);
    let p = if choice(b + 6, 2) == 0 {
        PerturbationMethod::Max
    } else {
        PerturbationMethod::Sum
    };
    IterativeParamsFD::new(a, r, lo, hi, da, dr, p)
}

pub fn guess(i: usize) -> f64 {
    sym(10 + i as u32)
}
pub fn tolerance() -> f64 {
    sym(1)
}

pub fn vguess<D>(n: usize) -> OVector<f64, D>
where
    D: Dim,
    DefaultAllocator: Allocator<D>,
{
    let mut g = OVector::<f64, D>::zeros_generic(D::from_usize(n), U1);
    for i in 0..n {
        g[i] = guess(i);
    }
    g
}

pub fn parameters() -> SolverParameters {
    SolverParameters::new(
        param(P_N),
        tolerance(),
        param(P_ITER),
        method(param(P_METHOD)),
        param(P_DAMP) == 1,
    )
}
pub fn model<D>(base: u32) -> SymModel<D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let mut m = SymModel::new(param(P_N), base);
    m.jac = param(P_JAC) == 1;
    m.faults = param(P_FAULTS) as u32;
    m.rhs = param(P_RHS) == 1;
    m.use_mem = param(P_MEM) == 1;
    m
}

/// What a resolution returned, comparable
#[derive(Clone, Copy, PartialEq)]
pub struct Verdict {
    pub kind: u32,
    /// number of the failing call, when there is one
    pub call: u32,
}
pub const V_OK: u32 = 0;
pub const V_NONCONV: u32 = 1;
pub const V_INITIAL: u32 = 2;
pub const V_EVAL_UNUSABLE: u32 = 3;
pub const V_EVAL_INACCURATE: u32 = 4;
pub const V_JAC_UNUSABLE: u32 = 5;
pub const V_JAC_INACCURATE: u32 = 6;
pub const V_SINGULAR: u32 = 7;
pub const V_FINAL: u32 = 8;

pub fn verdict<D>(r: &Result<(), nrf::errors::SolverError<SymModel<D>, D>>) -> Verdict
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    use nrf::errors::SolverError::*;
    use nrf::errors::SolverInternalError::*;
    let (kind, call) = match r {
        Ok(()) => (V_OK, 0),
        Err(NonConvergenceError) => (V_NONCONV, 0),
        Err(ModelInitialEvaluationError(_)) => (V_INITIAL, 0),
        Err(ModelEvaluationError(ModelError::UnusableValuesError(e))) => (V_EVAL_UNUSABLE, e.0),
        Err(ModelEvaluationError(ModelError::InaccurateValuesError(e))) => {
            (V_EVAL_INACCURATE, e.0)
        }
        Err(JacobianError(InvalidJacobianError(ModelError::UnusableValuesError(e)))) => {
            (V_JAC_UNUSABLE, e.0)
        }
        Err(JacobianError(InvalidJacobianError(ModelError::InaccurateValuesError(e)))) => {
            (V_JAC_INACCURATE, e.0)
        }
        Err(JacobianError(InvalidJacobianInverseError)) => (V_SINGULAR, 0),
        Err(FinalEvaluationError) => (V_FINAL, 0),
    };
    Verdict { kind, call }
}

/// error of the i-th equation after the k-th evaluation of a model, from the documentation
pub fn stop_error(base: u32, k: u32, i: usize, rhs: bool) -> f64 {
    let r = if rhs { sr(base, k, i) } else { 0.0 };
    norm_spec(sl(base, k, i), r, digit(param(P_STOP), i)).abs()
}
pub fn all_within(base: u32, k: u32, n: usize, rhs: bool, tol: f64) -> bool {
    let mut ok = true;
    for i in 0..n {
        ok &= stop_error(base, k, i, rhs) <= tol;
    }
    ok
}
/// largest error, NaN counting as infinite
pub fn max_error(base: u32, k: u32, n: usize, rhs: bool) -> f64 {
    let mut m = 0.0;
    for i in 0..n {
        let e = stop_error(base, k, i, rhs);
        if !(e <= m) {
            m = if e.is_nan() { f64::INFINITY } else { e };
        }
    }
    m
}

pub trait SolveDim: DimMin<Self, Output = Self> + Dim {}
impl<D: Dim + DimMin<D, Output = D>> SolveDim for D {}
