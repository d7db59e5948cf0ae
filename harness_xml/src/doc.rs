//! The document: which nodes and attributes are there is a matter of choices,
//! made when something asks (shared by the harness and the stand-in of minidom).
//!
//! Nodes: 0 root; 1..=3 its children; 10 * s + k the k-th child of s.
use crate::api::{choice, param};

pub const P_N: u32 = 7; // problem size
pub const P_FD: u32 = 2; // finite-difference parameters
pub const P_FOCUS: u32 = 0; // what varies
pub const P_CHILD: u32 = 1; // the child that varies

pub const F_SOLVER: usize = 1;
pub const F_DEFAULTS: usize = 2;
pub const F_CHILD: usize = 4;
pub const F_IDS: usize = 8;
pub const F_SHAPE: usize = 16;
pub const F_RESDEF: usize = 32;
pub const F_RESCHILD: usize = 64;
/// absent attributes and garbage are possible
pub const F_BAD: usize = 128;

fn focus(f: usize) -> bool {
    param(P_FOCUS) & f != 0
}
fn pick(id: u32, free: bool, n: u32) -> u32 {
    if free {
        choice(id, n)
    } else {
        0
    }
}
pub fn size() -> usize {
    param(P_N)
}
pub fn root_name() -> &'static str {
    if pick(1, focus(F_SHAPE), 2) == 0 {
        "nrf"
    } else {
        "NRF"
    }
}
pub const NAMES: [&str; 4] = ["solver", "iteratives", "residuals", "other"];
pub fn name(node: usize) -> &'static str {
    match node {
        0 => root_name(),
        1..=3 => NAMES[(node - 1 + pick(10 + node as u32, focus(F_SHAPE), 4) as usize) % 4],
        _ => {
            let w = pick(20 + node as u32, focus(F_SHAPE) && node % 10 == 0, 2) == 1;
            match (node / 10, w) {
                (2, false) => "iterative",
                (3, false) => "residual",
                (2, true) => "residual",
                _ => "iterative",
            }
        }
    }
}
pub fn children(node: usize) -> usize {
    match node {
        0 => 3 - pick(2, focus(F_SHAPE), 4) as usize,
        2 | 3 => {
            let n = size();
            // as many as the problem size, one more, one less
            let c = pick(50 + node as u32, focus(F_SHAPE), if n > 0 { 3 } else { 2 }) as usize;
            [n, n + 1, n.wrapping_sub(1)][c]
        }
        _ => 0,
    }
}
pub fn child(node: usize, k: usize) -> usize {
    if node == 0 {
        1 + k
    } else {
        10 * node + k
    }
}

/// what an attribute holds
#[derive(Clone, Copy, PartialEq)]
pub enum Text {
    Absent,
    Number(u32),
    Int(usize),
    Word(&'static str),
}
use Text::*;

pub const FLOATS: [&str; 6] = [
    "max_step_abs",
    "max_step_rel",
    "min_value",
    "max_value",
    "dx_abs",
    "dx_rel",
];
pub const METHODS: [&str; 10] = [
    "NR", "SN", "BROY1", "BROY2", "GRST1", "GRST2", "BROY1_INV", "BROY2_INV", "GRST1_INV", "GRST2_INV",
];
pub const NORMS: [&str; 3] = ["Abs", "Rel", "Adapt"];

pub fn is_default(node: usize) -> bool {
    node < 10
}
/// texts which are no numbers
const NO_FLOAT: [&str; 10] = ["1,5", "", "1.5...", " 1.5", "1.5 ", "1.5f", "0x1", "1_000.5", "--1.5", "1.5e"];
const NO_INT: [&str; 9] = ["-1", "x", "", " 6", "6 ", "6.0", "6.", "0x6", "6u"];

fn float(base: u32, node: usize, free: bool) -> Text {
    // defaults: the number, or missing, or garbage; children: missing first
    let bad = focus(F_BAD);
    let all = 2 + NO_FLOAT.len() as u32;
    let c = if is_default(node) {
        pick(base, free && bad, all)
    } else {
        match pick(base, free, if bad { all } else { 2 }) {
            0 => 1,
            1 => 0,
            c => c,
        }
    };
    match c {
        0 => Number(base),
        1 => Absent,
        // for a child without bad ones never happens
        c => Word(NO_FLOAT[c as usize - 2]),
    }
}
/// one of the words, garbage or nothing
fn word(base: u32, node: usize, free: bool, words: &[&'static str], garbage: &[&'static str]) -> Text {
    let n = words.len() as u32;
    let g = garbage.len() as u32;
    let bad = focus(F_BAD);
    if is_default(node) {
        let c = pick(base, free, if bad { n + 1 + g } else { n });
        if c < n {
            Word(words[c as usize])
        } else if c == n {
            Absent
        } else {
            Word(garbage[(c - n - 1) as usize])
        }
    } else {
        let c = pick(base, free, if bad { n + 1 + g } else { n + 1 });
        if c == 0 {
            Absent
        } else if c <= n {
            Word(words[c as usize - 1])
        } else {
            Word(garbage[(c - n - 1) as usize])
        }
    }
}
fn int(base: u32, free: bool, value: usize) -> Text {
    match pick(base, free, if focus(F_BAD) { 3 + NO_INT.len() as u32 } else { 2 }) {
        0 => Int(value),
        1 => Int(value + 1),
        2 => Absent,
        c => Word(NO_INT[c as usize - 3]),
    }
}

pub fn attr(node: usize, name: &str) -> Text {
    let base = 1000 + 20 * node as u32;
    if node == 1 {
        let free = focus(F_SOLVER);
        return match name {
            "problem_size" => match int(base, free, size()) {
                // the number is not that of the children
                x => x,
            },
            "max_iter" => int(base + 1, free, 60),
            "tolerance" => float(base + 2, 1, free),
            "resolution_method" => word(base + 3, 1, free, &METHODS, &["nr", "", "NR ", " NR", "NRX", "BROY", "GRST1_", "BROY3", "BROY1-INV"]),
            "damping" => match pick(base + 4, free, if focus(F_BAD) { 10 } else { 3 }) {
                0 => Absent,
                1 => Word("true"),
                2 => Word("false"),
                c => Word(["True", "", "1", "0", " true", "false ", "truee"][c as usize - 3]),
            },
            _ => Absent,
        };
    }
    let def = is_default(node);
    let mine = def || node % 10 == param(P_CHILD);
    if name == "id" && !def {
        let k = node % 10;
        let free = focus(F_IDS) && mine;
        return match pick(base + 10, free, 9) {
            0 => Int(k),
            1 => Int(k + 1),
            2 => Absent,
            c => Word(["first", "", " 0", "0 ", "0.0", "-0"][c as usize - 3]),
        };
    }
    if node == 2 || node / 10 == 2 {
        let free = mine && focus(if def { F_DEFAULTS } else { F_CHILD });
        for (i, f) in FLOATS.iter().enumerate() {
            if *f == name {
                if i >= 4 && param(P_FD) == 0 {
                    return Absent;
                }
                return float(base + i as u32, node, free);
            }
        }
        if name == "perturbation_method" && param(P_FD) == 1 {
            return word(base + 6, node, free, &["Max", "Sum"], &["max", "", "Max ", "Maximum", "SUM"]);
        }
    }
    if node == 3 || node / 10 == 3 {
        let free = mine && focus(if def { F_RESDEF } else { F_RESCHILD });
        if name == "stopping_criteria" {
            return word(base, node, free, &NORMS, &["abs", "", "Abs ", "Absolute", "Adaptative", "Rela"]);
        }
        if name == "update_method" {
            return word(base + 1, node, free, &NORMS, &["rel", "", " Rel", "Relative", "Ab", "ADAPT"]);
        }
    }
    Absent
}
