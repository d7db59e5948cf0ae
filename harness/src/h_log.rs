//! The text of the log against the history of the resolution: C22.
use crate::api::*;
use crate::common::*;
use crate::h_solve::*;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, Dyn, U1};
use newton_rootfinder as nrf;
use nrf::iteratives::Iteratives;
use nrf::residuals::ResidualsConfig;

const CAP: usize = 1 << 17;
/// a part of a text
type Part = (usize, usize);

pub struct Log {
    t: Vec<u8>,
    n: usize,
    p: usize,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Line {
    End,
    /// beginning of a resolution
    Parameters,
    Iteration,
    Damping,
    Refused,
    Jacobian,
}
use Line::*;

impl Log {
    pub fn read(name: &str) -> Self {
        let mut t = vec![0; CAP];
        let n = log_text(name, &mut t);
        Log { t, n, p: 0 }
    }
    pub fn of(text: &str) -> Self {
        Log {
            t: text.as_bytes().to_vec(),
            n: text.len(),
            p: 0,
        }
    }
    /// the next line, without moving
    fn line(&self) -> Option<Part> {
        if self.p >= self.n {
            return None;
        }
        let mut e = self.p;
        while e < self.n && self.t[e] != b'\n' {
            e += 1;
        }
        Some((self.p, e))
    }
    fn skip(&mut self, l: Part) {
        self.p = l.1 + 1;
    }
    fn is(&self, l: Part, s: &[u8]) -> bool {
        l.1 - l.0 >= s.len() && &self.t[l.0..l.0 + s.len()] == s
    }
    pub fn text(&self, c: Part) -> &[u8] {
        &self.t[c.0..c.1]
    }
    fn trim(&self, c: Part) -> Part {
        let (mut a, mut b) = c;
        while a < b && self.t[a] == b' ' {
            a += 1;
        }
        while a < b && self.t[b - 1] == b' ' {
            b -= 1;
        }
        (a, b)
    }
    /// the next cell of a row, from that place: what is before the separator
    fn cell(&self, from: usize, end: usize, sep: u8) -> Option<(Part, usize)> {
        let mut e = from;
        while e < end && self.t[e] != sep {
            e += 1;
        }
        if e >= end {
            return None;
        }
        Some((self.trim((from, e)), e + 1))
    }
    /// the cells of a row of a table
    fn cells<const N: usize>(&self, l: Part) -> Option<[Part; N]> {
        let mut r = [(0, 0); N];
        if l.0 == l.1 || self.t[l.0] != b'|' {
            return None;
        }
        let mut at = l.0 + 1;
        for i in 0..N {
            match self.cell(at, l.1, b'|') {
                Some((c, next)) => {
                    r[i] = c;
                    at = next;
                }
                None => return None,
            }
        }
        Some(r)
    }
    /// what comes next, after the titles and the separations
    pub fn next(&mut self) -> Line {
        while let Some(l) = self.line() {
            if self.is(l, b"Solver parameters") {
                return Parameters;
            }
            if self.is(l, b"Iteration: ") {
                return Iteration;
            }
            if self.is(l, b"Damping activated !") {
                return Damping;
            }
            if self.is(l, b"Iteration refused") {
                return Refused;
            }
            if self.is(l, b"Jacobian matrix") {
                return Jacobian;
            }
            self.skip(l);
        }
        End
    }
    pub fn value(&self, c: Part, expected: f64, label: u32) {
        match number(self.text(c)) {
            Some(v) => check_eq(v, expected, 0.0, label),
            None => check(false, label),
        }
    }
    fn count(&self, c: Part, expected: usize, label: u32) {
        let mut v = 0;
        let mut ok = c.0 < c.1;
        for i in c.0..c.1 {
            let d = self.t[i].wrapping_sub(b'0');
            ok &= d < 10;
            v = v * 10 + d as usize;
        }
        check(ok && v == expected, label);
    }
    /// skips up to the next line starting so, the line after it
    pub fn find(&mut self, s: &[u8]) -> Option<Part> {
        while let Some(l) = self.line() {
            self.skip(l);
            if self.is(l, s) {
                return Some(l);
            }
        }
        None
    }
    /// the next row of a table
    pub fn row<const N: usize>(&mut self) -> Option<[Part; N]> {
        while let Some(l) = self.line() {
            if self.is(l, b"=========================") {
                return None;
            }
            self.skip(l);
            if let Some(c) = self.cells::<N>(l) {
                return Some(c);
            }
        }
        None
    }
}

/// An iterate: its iteration number (none for a damped one), the table of the
/// evaluation k at x
fn entry<D>(log: &mut Log, m: &SymModel<D>, kind: Line, iter: usize, k: u32, x: [f64; NMAX]) -> bool
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let ok = log.next() == kind;
    check(ok, 1);
    if !ok {
        return false;
    }
    let l = log.line().unwrap();
    log.skip(l);
    if kind == Iteration {
        let c = log.trim((l.0 + 11, l.1));
        log.count(c, iter, 2);
    }
    let e = log.find(b"Max error: ");
    check(e.is_some(), 7);
    let mut nan = false;
    for i in 0..m.n {
        nan |= stop_error(m.base, k, i, m.rhs).is_nan();
    }
    if let Some(l) = e {
        if !nan {
            let c = log.trim((l.0 + 11, l.1));
            log.value(c, max_error(m.base, k, m.n, m.rhs), 7);
        }
    }
    // the titles
    if log.row::<4>().is_none() {
        check(false, 9);
        return false;
    }
    for i in 0..m.n {
        match log.row::<4>() {
            Some(c) => {
                log.count(c[0], i, 9);
                log.value(c[1], x[i], 3);
                match log.cell(c[2].0, c[2].1, b'=') {
                    Some((left, from)) => {
                        log.value(left, sl(m.base, k, i), 4);
                        let right = log.trim((from, c[2].1));
                        log.value(right, if m.rhs { sr(m.base, k, i) } else { 0.0 }, 5);
                    }
                    None => check(false, 4),
                }
                log.value(c[3], stop_error(m.base, k, i, m.rhs), 6);
            }
            None => {
                check(false, 9);
                return false;
            }
        }
    }
    true
}

fn contains(t: &[u8], s: &[u8]) -> bool {
    let mut i = 0;
    while i + s.len() <= t.len() {
        if &t[i..i + s.len()] == s {
            return true;
        }
        i += 1;
    }
    false
}
fn method_name(m: usize) -> &'static [u8] {
    match m {
        0 => b"Newton-Raphson",
        1 => b"Frozen Jacobian matrix",
        2 | 6 => b"Broyden First",
        3 | 7 => b"Broyden Second",
        4 | 8 => b"Greenstadt First",
        _ => b"Greenstadt Second",
    }
}
fn norm_name(m: usize) -> &'static [u8] {
    match m {
        0 => b"Absolute Normalization",
        1 => b"Relative Normalization",
        _ => b"Adaptative Normalization",
    }
}

pub fn solver_table(log: &mut Log) {
    let found = log.find(b"Solver parameters").is_some() && log.row::<5>().is_some();
    check(found, 20);
    match log.row::<5>() {
        Some(c) => {
            log.count(c[0], param(P_N), 21);
            log.count(c[1], param(P_ITER), 22);
            log.value(c[2], tolerance(), 23);
            let damping: &[u8] = if param(P_DAMP) == 1 { b"true" } else { b"false" };
            check(log.text(c[3]) == damping, 24);
            check(contains(log.text(c[4]), method_name(param(P_METHOD))), 25);
        }
        None => check(false, 20),
    }
}
/// the limits of a variable in its row
fn limits_row(log: &Log, c: &[Part], i: usize) {
    let b = 100 + 10 * i as u32;
    let lim = param(P_LIM);
    let own = lim == 1 || lim == 2;
    let a = if own { sym(b) } else { f64::INFINITY };
    let r = if own { sym(b + 1) } else { f64::INFINITY };
    let lo = if lim == 2 { sym(b + 2) } else { f64::NEG_INFINITY };
    let hi = if lim == 2 { sym(b + 3) } else { f64::INFINITY };
    log.value(c[1], a, 27);
    log.value(c[2], r, 28);
    log.value(c[3], lo, 29);
    log.value(c[4], hi, 30);
}
pub fn iteratives_table(log: &mut Log, n: usize, fd: bool) {
    let found = log.find(b"Iteratives parameters").is_some()
        && if fd { log.row::<8>().is_some() } else { log.row::<5>().is_some() };
    check(found, 26);
    for i in 0..n {
        if !fd {
            match log.row::<5>() {
                Some(c) => {
                    log.count(c[0], i, 26);
                    limits_row(log, &c, i);
                }
                None => check(false, 26),
            }
            continue;
        }
        match log.row::<8>() {
            Some(c) => {
                log.count(c[0], i, 26);
                limits_row(log, &c, i);
                let b = 100 + 10 * i as u32;
                let (da, dr, sum) = if param(P_LIM) == 0 {
                    (5e-8, 5e-8, false)
                } else {
                    (sym(b + 4), sym(b + 5), choice(b + 6, 2) == 1)
                };
                let name: &[u8] = if sum { b"Sum" } else { b"Max" };
                check(log.text(c[5]) == name, 31);
                log.value(c[6], da, 32);
                log.value(c[7], dr, 33);
            }
            None => check(false, 26),
        }
    }
}
pub fn residuals_table(log: &mut Log, n: usize) {
    let found = log.find(b"Residuals configuration").is_some() && log.row::<3>().is_some();
    check(found, 34);
    for i in 0..n {
        match log.row::<3>() {
            Some(c) => {
                log.count(c[0], i, 34);
                check(log.text(c[1]) == norm_name(digit(param(P_STOP), i)), 35);
                check(log.text(c[2]) == norm_name(digit(param(P_UPD), i)), 36);
            }
            None => check(false, 34),
        }
    }
}

/// One resolution in the log, against its history
fn walk<D>(log: &mut Log, m: &SymModel<D>)
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let meth = param(P_METHOD);
    let damp = param(P_DAMP) == 1;
    if m.tn < 2 || m.t[1].kind != E_EVAL || m.t[1].info == UNUSABLE {
        // no iterate
        let l = log.next();
        check(l == End || l == Parameters, 10);
        return;
    }
    let ok = log.next() == Parameters;
    check(ok, 1);
    if !ok {
        return;
    }
    solver_table(log);
    iteratives_table(log, m.n, true);
    residuals_table(log, m.n);
    if !entry(log, m, Iteration, 0, 0, m.t[1].v) {
        return;
    }
    let mut p = 2;
    let mut k = 0;
    let mut evals = 1;
    let mut iter = 1;
    loop {
        let mut measured = false;
        while p < m.tn && m.t[p].kind != E_EVAL {
            match m.t[p].kind {
                E_PERT => {
                    measured = true;
                    evals += 1;
                }
                E_JAC => measured = true,
                _ => (),
            }
            p += 1;
        }
        if p == m.tn {
            // the end, possibly without being able to use the jacobian
            let mut l = log.next();
            if l == Jacobian {
                let at = log.line().unwrap();
                log.skip(at);
                l = log.next();
            }
            check(l == End || l == Parameters, 10);
            return;
        }
        // the jacobian of the step
        let ok = log.next() == Jacobian;
        check(ok, 1);
        if !ok {
            return;
        }
        let at = log.line().unwrap();
        log.skip(at);
        let known = log.find(b"Jacobian ");
        match known {
            Some(l) => {
                let up = log.is(l, b"Jacobian up to date");
                let not = log.is(l, b"Jacobian not up to date");
                check(if meth >= 6 && !measured { not } else { up }, 8);
            }
            None => check(false, 8),
        }
        let (x, k2, o) = (m.t[p].v, evals, m.t[p].info);
        p += 1;
        evals += 1;
        if o == UNUSABLE {
            let l = log.next();
            check(l == End || l == Parameters, 10);
            return;
        }
        if !entry(log, m, Iteration, iter, k2, x) {
            return;
        }
        let before = max_error(m.base, k, m.n, m.rhs);
        let after = max_error(m.base, k2, m.n, m.rhs);
        k = k2;
        if damp && after > before {
            if measured {
                while p < m.tn && m.t[p].kind != E_EVAL {
                    p += 1;
                }
                if p == m.tn {
                    check(false, 11);
                    return;
                }
                let (x, o) = (m.t[p].v, m.t[p].info);
                k = evals;
                p += 1;
                evals += 1;
                if o == UNUSABLE {
                    let l = log.next();
                    check(l == End || l == Parameters, 10);
                    return;
                }
                reach(170);
                if !entry(log, m, Damping, 0, k, x) {
                    return;
                }
            } else {
                reach(171);
                let ok = log.next() == Refused;
                check(ok, 1);
                if !ok {
                    return;
                }
                let l = log.line().unwrap();
                log.skip(l);
            }
        }
        iter += 1;
    }
}

/// the log after the first of two resolutions
static mut READ: usize = 0;
pub fn first<D>(m: &SymModel<D>)
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let mut log = Log::read(LOG);
    walk(&mut log, m);
    check(log.next() == End, 10);
    unsafe { READ = log.n }
}

fn c22<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    assume(tolerance().is_finite());
    unsafe { READ = 0 }
    if param(P_CASE) == 2 {
        // a file of another resolution is replaced
        resolve::<D>(Use::Debug, 20000);
    }
    let again = param(P_CASE) == 1;
    let (v, m, _) = resolve::<D>(if again { Use::DebugAgain(20000) } else { Use::Debug }, 10000);
    reach(100 + v.kind);
    let mut log = Log::read(LOG);
    if !again {
        let l = log.line();
        check(l.is_some(), 12);
    }
    log.p = unsafe { READ };
    walk(&mut log, &m);
    check(log.next() == End, 10);
}
pub fn h_c22() {
    dispatch!(c22)
}

// ---------------------------------------------------------------- tables

/// The configurations printed on their own
pub fn h_c22t() {
    let n = param(P_N);
    if param(P_CASE) == 1 {
        let its: [_; NMAX] = std::array::from_fn(|i| iterative(if i < n { i } else { 0 }, param(P_LIM)).get_iterative_params().clone());
        iteratives_table(&mut Log::of(&Iteratives::new(&its[..n]).to_string()), n, false);
        return;
    }
    let its: [_; NMAX] = std::array::from_fn(|i| iterative(if i < n { i } else { 0 }, param(P_LIM)));
    iteratives_table(&mut Log::of(&Iteratives::new(&its[..n]).to_string()), n, true);
    let (stop, upd) = (norms(param(P_STOP)), norms(param(P_UPD)));
    residuals_table(&mut Log::of(&ResidualsConfig::new(&stop[..n], &upd[..n]).to_string()), n);
    solver_table(&mut Log::of(&parameters().to_string()));
}

// ---------------------------------------------------------------- C23

/// the message ends with the text of the model about its call `call`
fn says(t: &[u8], call: u32) -> bool {
    let m = b"model error ";
    let mut at = t.len();
    while at > 0 && t[at - 1] >= b'0' && t[at - 1] <= b'9' {
        at -= 1;
    }
    let mut v = 0;
    for d in &t[at..] {
        v = v * 10 + (*d - b'0') as u32;
    }
    at < t.len() && v == call && at >= m.len() && &t[at - m.len()..at] == m
}
fn c23<D>()
where
    D: SolveDim,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    assume(tolerance().is_finite());
    let (v, _, _) = resolve_and::<D>(Use::Fresh, 10000, |r| {
        let v = verdict(r);
        if let Err(e) = r {
            let t = e.to_string();
            let t = t.as_bytes();
            let (what, payload): (&[u8], bool) = match v.kind {
                V_NONCONV => (b"Convergence not reached", false),
                V_INITIAL => (b"Initial model evaluation failed: ", true),
                V_EVAL_UNUSABLE => (b"Model evaluation failed: UnusableValuesError Error: ", true),
                V_EVAL_INACCURATE => (b"Model evaluation failed: InaccurateValues Error: ", true),
                V_JAC_UNUSABLE => (b"Jacobian error: Invalid jacobian: UnusableValuesError Error: ", true),
                V_JAC_INACCURATE => (b"Jacobian error: Invalid jacobian: InaccurateValues Error: ", true),
                V_SINGULAR => (b"Jacobian error: Non invertible jacobian", false),
                _ => (b"Final model evaluation failed", false),
            };
            check(t.len() >= what.len() && &t[..what.len()] == what, 1);
            check(payload || t.len() == what.len(), 2);
            if payload {
                check(says(t, v.call), 3);
            }
            check(format!("{:?}", e).as_bytes() == t, 4);
        }
    });
    reach(100 + v.kind);
}
pub fn h_c23() {
    dispatch!(c23)
}
