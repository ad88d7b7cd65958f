//! C16, C17, C18: LP files, solution files, command-line solvers.

use crate::mat::*;
use crate::prob::reals;
use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::{ProblemMilp, ProblemMilpIO};
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::cbc_cmd::SolverCbcCmd;
use numopt::solver::clp_cmd::SolverClpCmd;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use symrt::*;

/// A private scratch directory, empty.
pub fn scratch() -> PathBuf {
    let base = std::env::var("SYM_SCRATCH").expect("SYM_SCRATCH");
    let who = if is_sym() { unsafe { libc::getppid() } } else { unsafe { libc::getpid() } };
    let d = Path::new(&base).join(format!("s{}", who));
    fs::remove_dir_all(&d).ok();
    fs::create_dir_all(&d).expect("scratch");
    d
}

// ---------------------------------------------------------------- LP format

#[derive(Default)]
pub struct Lp { pub sense: i32, pub obj: Vec<(String, f64)>, pub rows: Vec<(String, Vec<(String, f64)>, String, f64)>, pub bounds: Vec<(String, f64, f64)>, pub ints: Vec<String>, pub ended: bool }

fn number(t: &str) -> Option<f64> { parse_token(t).or_else(|| { if t.starts_with(|c: char| c.is_ascii_alphabetic()) && !t.to_lowercase().starts_with("inf") { None } else { t.parse::<f64>().ok() } }) }
fn sense(t: &str) -> Option<&'static str> { match t { "<" | "<=" | "=<" => Some("<="), ">" | ">=" | "=>" => Some(">="), "=" => Some("="), _ => None } }

/// Reads an LP file by the rules of the format. None: not well formed.
pub fn parse_lp(text: &str) -> Option<Lp> {
    let mut lp = Lp::default();
    let toks: Vec<&str> = text.lines().map(|l| l.split('\\').next().unwrap()).flat_map(|l| l.split_whitespace()).collect();
    // sections
    #[derive(PartialEq, Clone, Copy)]
    enum Sec { None, Obj, Rows, Bounds, Gen, End }
    let mut sec = Sec::None;
    let mut i = 0;
    let mut name = String::new();
    let mut terms: Vec<(String, f64)> = Vec::new();
    let mut sign = 1.;
    let mut coef: Option<f64> = None;
    let mut bound: Vec<String> = Vec::new();
    let mut bvals: Vec<f64> = Vec::new();
    macro_rules! flush { () => { if sec == Sec::Obj { lp.obj = std::mem::take(&mut terms); } if sec == Sec::Rows && !terms.is_empty() { return None; } } }
    while i < toks.len() {
        let t = toks[i];
        i += 1;
        let low = t.to_lowercase();
        let next = if i < toks.len() { toks[i].to_lowercase() } else { String::new() };
        let new = match low.as_str() {
            "minimize" | "minimise" | "min" => { lp.sense = 1; Some(Sec::Obj) }
            "maximize" | "maximise" | "max" => { lp.sense = -1; Some(Sec::Obj) }
            "subject" if next == "to" => { i += 1; Some(Sec::Rows) }
            "such" if next == "that" => { i += 1; Some(Sec::Rows) }
            "st" | "s.t." | "st." => Some(Sec::Rows),
            "bounds" | "bound" => Some(Sec::Bounds),
            "general" | "generals" | "gen" | "integer" | "integers" | "int" => Some(Sec::Gen),
            "end" => Some(Sec::End),
            _ => None,
        };
        if let Some(s) = new {
            flush!();
            if !bound.is_empty() { return None; }
            if sec == Sec::End { return None; }
            sec = s;
            sign = 1.;
            coef = None;
            if s == Sec::End { lp.ended = true; }
            continue;
        }
        match sec {
            Sec::None | Sec::End => return None,
            Sec::Obj | Sec::Rows => {
                if let Some(n) = t.strip_suffix(':') {
                    if !terms.is_empty() || coef.is_some() { return None; }
                    name = n.to_string();
                } else if t == "+" { if coef.is_some() { return None; } }
                else if t == "-" { if coef.is_some() { return None; } sign = -sign; }
                else if let Some(s) = sense(t) {
                    if sec == Sec::Obj || coef.is_some() || i >= toks.len() { return None; }
                    let mut rs = 1.;
                    let mut k = toks[i];
                    i += 1;
                    if k == "-" { rs = -1.; k = toks.get(i)?; i += 1; }
                    let r = rs * number(k)?;
                    lp.rows.push((std::mem::take(&mut name), std::mem::take(&mut terms), s.to_string(), r));
                    sign = 1.;
                } else if let Some(v) = number(t) {
                    if coef.is_some() { return None; }
                    coef = Some(v);
                } else {
                    let (n, neg) = match t.strip_prefix('-') { Some(n) => (n, true), None => (t.strip_prefix('+').unwrap_or(t), false) };
                    let c = sign * coef.take().unwrap_or(1.);
                    terms.push((n.to_string(), if neg { 0. - c } else { c }));
                    sign = 1.;
                }
            }
            Sec::Bounds => {
                // l <= x <= u | l <= x | x <= u | x >= l | x = v | x free
                if let Some(v) = number(t) { bvals.push(v); bound.push("#".into()); }
                else if let Some(s) = sense(t) { bound.push(s.into()); }
                else if low == "free" { bound.push("free".into()); }
                else { bound.push(t.to_string()); }
                let more = i < toks.len() && (sense(toks[i]).is_some() || toks[i].to_lowercase() == "free");
                let b: Vec<&str> = bound.iter().map(|s| s.as_str()).collect();
                let done = match b.len() {
                    2 if b[1] == "free" => { lp.bounds.push((b[0].to_string(), f64::NEG_INFINITY, f64::INFINITY)); true }
                    3 if !more => {
                        let (x, s, v) = if b[0] == "#" { (b[2], match b[1] { "<=" => ">=", ">=" => "<=", o => o }, *bvals.get(0)?) } else { (b[0], b[1], *bvals.get(0)?) };
                        let old = lp.bounds.iter().rev().find(|k| k.0 == x).map_or((0., f64::INFINITY), |k| (k.1, k.2));
                        lp.bounds.push((x.to_string(), if s == "<=" { old.0 } else { v }, if s == ">=" { old.1 } else { v }));
                        true
                    }
                    5 => {
                        if b[0] != "#" || b[1] != "<=" || b[2] == "#" || b[3] != "<=" || b[4] != "#" { return None; }
                        lp.bounds.push((b[2].to_string(), bvals[0], bvals[1]));
                        true
                    }
                    n if n > 5 => return None,
                    _ => false,
                };
                if done { bound.clear(); bvals.clear(); }
            }
            Sec::Gen => lp.ints.push(t.to_string()),
        }
    }
    if coef.is_some() || !bound.is_empty() { return None; }
    Some(lp)
}

/// `read` is `want` to 10 significant digits.
fn near(label: &str, read: f64, want: f64, scale: f64) {
    if !is_sym() || (sym_id(read).is_none() && sym_id(want).is_none()) {
        check(label, read == want || (read - want).abs() <= 5e-10 * want.abs() + 1e-14 * scale);
        return;
    }
    if sym_id(want).is_none() && !want.is_finite() { check(label, read == want); return; }
    let (d, t) = (read - want, 5e-10 * want);
    prove(label, &or(&and(&le(0., want), &and(&le(0. - t, d), &le(d, t))), &and(&le(want, 0.), &and(&le(t, d), &le(d, 0. - t)))));
}

pub struct Milp { pub c: Vec<f64>, pub a: Pat, pub b: Vec<f64>, pub l: Vec<f64>, pub u: Vec<f64>, pub p: Vec<bool> }
impl Milp {
    pub fn nx(&self) -> usize { self.c.len() }
    pub fn milp(&self) -> ProblemMilp { ProblemMilp::new(self.c.clone(), self.a.coo(), self.b.clone(), self.l.clone(), self.u.clone(), self.p.clone(), None) }
    pub fn lp(&self) -> ProblemLp { ProblemLp::new(self.c.clone(), self.a.coo(), self.b.clone(), self.l.clone(), self.u.clone(), None) }
}

/// The LP file describes the problem.
pub fn same_lp(text: &str, m: &Milp) {
    let lp = parse_lp(text);
    check("well formed LP file", lp.is_some());
    let lp = lp.unwrap();
    let nx = m.nx();
    let col = |n: &str| -> usize {
        let k = n.strip_prefix("x_").and_then(|s| s.parse::<usize>().ok());
        check("names a column", k.map_or(false, |k| k < nx));
        k.unwrap()
    };
    check("complete LP file", lp.ended);
    check("minimization", lp.sense == 1);
    let mut c = vec![0.; nx];
    for (n, v) in lp.obj.iter() { let k = col(n); c[k] = c[k] + *v; }
    for k in 0..nx { near("objective coefficient", c[k], m.c[k], 0.); }
    check("number of rows", lp.rows.len() == m.b.len());
    let mut seen = vec![false; m.b.len()];
    for (n, terms, s, r) in lp.rows.iter() {
        let i = n.strip_prefix("c_").and_then(|s| s.parse::<usize>().ok());
        check("names a row", i.map_or(false, |i| i < m.b.len() && !seen[i]));
        let i = i.unwrap();
        seen[i] = true;
        check("equality", s == "=");
        near("right-hand side", *r, m.b[i], 0.);
        let mut row = vec![0.; nx];
        for (n, v) in terms.iter() { let k = col(n); row[k] = row[k] + *v; }
        for k in 0..nx {
            let mut scale = 0.;
            for q in 0..m.a.nnz() { if m.a.rows[q] == i && m.a.cols[q] == k && (!is_sym() || sym_id(m.a.vals[q]).is_none()) { scale += m.a.vals[q].abs(); } }
            near("matrix entry", row[k], m.a.at(i, k), scale);
        }
    }
    // limits; a column without a Bounds entry has the format's default
    let mut lim = vec![(0., f64::INFINITY); nx];
    for (n, l, u) in lp.bounds.iter() { lim[col(n)] = (*l, *u); }
    for k in 0..nx { near("lower limit", lim[k].0, m.l[k], 0.); near("upper limit", lim[k].1, m.u[k], 0.); }
    let mut p = vec![false; nx];
    for n in lp.ints.iter() { p[col(n)] = true; }
    check("integer variables", p == m.p);
}

fn any_milp(nx: usize, na: usize, k: usize, infs: bool, rows: bool) -> Milp {
    let a = pattern_of("a", na, nx, k);
    if rows {
        // only the rows vary
        let f = |a: f64| (0..nx).map(|i| a + 0.375 * i as f64).collect::<Vec<f64>>();
        return Milp { c: f(-1.25), a, b: reals("b", na), l: f(-7.5), u: f(3.), p: (0..nx).map(|i| i == 1).collect() };
    }
    let lim = |n: &str, inf: f64| -> Vec<f64> { (0..nx).map(|i| if infs && flag("infinite") { inf } else { real(&format!("{}{}", n, i)) }).collect() };
    Milp { c: reals("c", nx), a, b: reals("b", na), l: lim("l", f64::NEG_INFINITY), u: lim("u", f64::INFINITY), p: (0..nx).map(|_| flag("integer")).collect() }
}

/// A larger problem, drawn from a fixed seed: numbers are given but for one entry of each kind.
fn large_milp(nx: usize, na: usize, k: usize, seed: usize) -> Milp {
    let few = |name: &str, i: usize, n: usize, given: f64| -> f64 { if i + 1 + seed % 2 == n { real(&format!("{}{}", name, i)) } else { given } };
    let sums = [1., -1., 0., 2.5, -0.25, 3., -1048576.5, 0.0009765625, 1., -1., 0.5];
    let lone = [0., 0.1, -1e20, 1e-12, 1., -1., 123456789.123, -3.3333333333333335, 1e8, -1e8, 7.];
    let mut a = drawn("a", seed, na, nx, k, false);
    for i in 0..a.nnz() { a.vals[i] = if i + 1 == k { a.vals[i] } else { sums[(i * 3 + seed) % 11] }; }
    Milp {
        c: (0..nx).map(|i| few("c", i, nx, lone[(i + seed) % 11])).collect(), a,
        b: (0..na).map(|i| few("b", i, na, lone[(i * 2 + seed) % 11])).collect(),
        l: (0..nx).map(|i| if i % 5 == 3 { f64::NEG_INFINITY } else { few("l", i, nx, lone[(i * 3 + seed) % 11]) }).collect(),
        u: (0..nx).map(|i| if i % 4 == 2 { f64::INFINITY } else { few("u", i, nx, lone[(i * 4 + seed) % 11]) }).collect(),
        p: (0..nx).map(|i| match seed % 4 { 0 => false, 1 => true, 2 => i % 3 == 1, _ => i + 4 >= nx }).collect(),
    }
}

/// C16: the LP file describes the problem.
pub fn c16(p: &[usize]) {
    let large = p[3] == 3;
    let (nx, na) = if large { (p[0], p[1]) } else { (1 + choose("nx", p[0]), choose("na", p[1] + 1)) };
    let m = if large { large_milp(nx, na, p[2], choose("problem", p[5])) } else { any_milp(nx, na, p[2], p[3] == 1, p[3] == 2) };
    let dir = scratch();
    let target = if p[4] == 1 { choose("target", 5) } else { 0 };
    note(&format!("nx {} rows {} entries {:?} p {:?} target {}", nx, na, m.a.rows.iter().zip(m.a.cols.iter()).collect::<Vec<_>>(), m.p, target));
    let path = match target {
        0 => dir.join("out.lp"),
        1 => { let f = dir.join("old.lp"); fs::write(&f, "garbage ".repeat(4000)).unwrap(); f }
        2 => dir.join("missing").join("out.lp"),
        3 => { let d = dir.join("d"); fs::create_dir(&d).unwrap(); d }
        // through a link, so that nothing but the link can be removed
        _ => { let f = dir.join("full"); std::os::unix::fs::symlink("/dev/full", &f).unwrap(); f }
    };
    let prob = m.milp();
    let r = prob.write_to_lp_file(path.to_str().unwrap());
    match target {
        0 | 1 => {
            check("written", r.is_ok());
            same_lp(&fs::read_to_string(&path).expect("written file"), &m);
            reached("written");
        }
        _ => {
            check("failure to write is reported", r.is_err());
            reached("refused");
        }
    }
    fs::remove_dir_all(&dir).ok();
}

// ---------------------------------------------------------------- solution files

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Says { Optimal, Infeasible, Other }
pub const CBC: [(&str, Says); 11] = [
    ("Optimal - objective value 58.00000000\n", Says::Optimal),
    ("Infeasible - objective value 12.00000000\n", Says::Infeasible),
    ("Integer infeasible - objective value 0.00000000\n", Says::Infeasible),
    ("Unbounded - objective value -3.00000000\n", Says::Other),
    ("Stopped on time - objective value 3.00000000\n", Says::Other),
    ("Optimal (within gap tolerance) - objective value 2.00000000\n", Says::Optimal),
    ("Unknown status\n", Says::Other),
    ("\n", Says::Other),
    ("", Says::Other),
    ("Optimistic - objective value 58.00000000\n", Says::Other),
    ("Infeasibility unknown - objective value 12.00000000\n", Says::Other),
];
pub const CLP: [(&str, Says); 11] = [
    ("Optimal - objective value             205\n", Says::Optimal),
    ("Infeasible - objective value              12\n", Says::Infeasible),
    ("optimal\nObjective value =      205\n", Says::Optimal),
    ("infeasible\nObjective value =      12\n", Says::Infeasible),
    ("Unbounded - objective value          -5e+10\n", Says::Other),
    ("Stopped on iterations or time - objective value 1\n", Says::Other),
    ("unbounded\nObjective value =      205\n", Says::Other),
    ("\n", Says::Other),
    ("", Says::Other),
    ("Optimistic - objective value             205\n", Says::Other),
    ("infeasibility unknown\nObjective value =      12\n", Says::Other),
];

#[derive(Clone, Copy, PartialEq)]
pub enum Line { Good, Bad, Either }

/// Stands for bytes that are not UTF-8.
const NOT_TEXT: char = '\u{f8ff}';
fn bytes_of(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for (i, part) in s.split(NOT_TEXT).enumerate() { if i > 0 { v.extend([0xff, 0xfe, 0x80]); } v.extend(part.as_bytes()); }
    v
}

/// One line of a solution file about item `it` (variables first, then rows).
pub fn sol_line(shape: usize, it: usize, nx: usize, value: f64, mul: f64) -> (String, Line) {
    let (name, i) = if it < nx { ("x", it) } else { ("c", it - nx) };
    let (v, m) = (text(value), text(mul));
    match shape {
        0 => (format!("{:7} {}_{}   {}   {}", i, name, i, v, m), Line::Good),
        1 => (format!("{} {}_{} {} {} extra", i, name, i, v, m), Line::Either),
        2 => (format!("{} {}_{} {}", i, name, i, v), Line::Bad),
        3 => (format!("{} {}_{}", i, name, i), Line::Bad),
        4 => (format!("{}", i), Line::Bad),
        5 => (format!("{} {}_{} abc {}", i, name, i, m), Line::Bad),
        6 => (format!("{} {}_{} {} 1.2.3", i, name, i, v), Line::Bad),
        7 => (format!("{} y_{} {} {}", i, i, v, m), Line::Bad),
        8 => (format!("{} {} {} {}", i, name, v, m), Line::Bad),
        9 => (format!("{} {}_ {} {}", i, name, v, m), Line::Bad),
        10 => (format!("{} {}_9 {} {}", i, name, v, m), Line::Bad),
        11 => (format!("{} {}_-1 {} {}", i, name, v, m), Line::Bad),
        12 => (format!("{} {}_{}_7 {} {}", i, name, i, v, m), Line::Bad),
        13 => ("".to_string(), Line::Either),
        14 => (format!("**  {} {}_{} {} {}", i, name, i, v, m), Line::Either),
        15 => (format!("{} {}_99999999999999999999999 {} {}", i, name, v, m), Line::Bad),
        // bytes that are no text
        _ => (format!("{} {}_{} {} {}", i, name, i, NOT_TEXT, m), Line::Bad),
    }
}

/// The solution is exactly what the listed items say.
pub fn same_sol(sol: &ProblemSol, nx: usize, na: usize, listed: &[(usize, f64, f64)]) {
    check("solution dimensions", sol.x.len() == nx && sol.lam.len() == na && sol.mu.len() == nx && sol.pi.len() == nx && sol.nu.is_empty());
    for i in 0..nx {
        match listed.iter().find(|t| t.0 == i) {
            Some((_, v, m)) => {
                prove_same("variable value", sol.x[i], *v);
                prove("reduced cost is split", &same(sol.pi[i] - sol.mu[i], *m));
                prove("multipliers by sign", &all(&[le(0., sol.pi[i]), le(0., sol.mu[i]), or(&eq(sol.pi[i], 0.), &eq(sol.mu[i], 0.))]));
            }
            None => {
                prove_same("unlisted variable", sol.x[i], 0.);
                prove_same("unlisted multiplier", sol.pi[i], 0.);
                prove_same("unlisted multiplier", sol.mu[i], 0.);
            }
        }
    }
    for i in 0..na {
        prove_same("row multiplier", sol.lam[i], listed.iter().find(|t| t.0 == nx + i).map_or(0., |t| t.2));
    }
}

pub fn plain_milp(nx: usize, na: usize) -> Milp {
    let mut a = Pat { shape: (na, nx), rows: vec![], cols: vec![], vals: vec![] };
    for i in 0..na { a.rows.push(i); a.cols.push(i % nx); a.vals.push(2.); }
    Milp { c: vec![1.; nx], a, b: vec![3.; na], l: vec![0.; nx], u: vec![1.; nx], p: (0..nx).map(|i| i % 2 == 0).collect() }
}

/// C17: files with many lines.
pub fn c17_large(p: &[usize]) {
    let (nx, na, orders) = (p[0], p[1], p[2]);
    let m = plain_milp(nx, na);
    let prob = m.milp();
    let cbc = flag("cbc");
    let dir = scratch();
    let path = dir.join("out.sol");
    let (head, says) = if cbc { (CBC[0].0, CBC[0].1) } else { let h = [0, 2][choose("format", 2)]; (CLP[h].0, CLP[h].1) };
    let order = choose("order", orders);
    let n = nx + na;
    let mut items: Vec<usize> = match order % 4 {
        0 => (nx..n).chain(0..nx).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| (i * 7 + order) % n).collect(),
        _ => (0..n).filter(|i| i % 3 != order % 3).collect(),
    };
    items = { let mut seen = vec![false; n]; items.into_iter().filter(|i| !std::mem::replace(&mut seen[*i], true)).collect() };
    let mut textfile = head.to_string();
    let mut listed = Vec::new();
    for (q, it) in items.iter().enumerate() {
        let symbolic = q == (order * 3) % items.len() || q + 1 == items.len();
        let (v, mu) = if symbolic { (real(&format!("v{}", q)), real(&format!("m{}", q))) } else { ([1.5, -2., 0., 1e-7, 123456.75][q % 5] + *it as f64, [0., 2.25, -3.5, 1e15, -0.0078125][(q + it) % 5]) };
        textfile.push_str(&if symbolic { sol_line(0, *it, nx, v, mu).0 } else { let (c, i) = if *it < nx { ("x", *it) } else { ("c", *it - nx) }; format!("{:7} {}_{}  {:15}  {:15}", i, c, i, v, mu) });
        textfile.push('\n');
        listed.push((*it, v, mu));
    }
    fs::write(&path, &textfile).unwrap();
    note(&format!("cbc {} items {:?}", cbc, items));
    let r = SolverCbcCmd::read_sol_file(path.to_str().unwrap(), &prob, cbc);
    fs::remove_dir_all(&dir).ok();
    judge(r.map_err(|_| ()), Some(says), Line::Good, nx, na, &listed);
}

/// C17: reading solution files.
pub fn c17(p: &[usize]) {
    let (nx, na, lines, bad) = (p[0], p[1], p[2], p[3]);
    let m = plain_milp(nx, na);
    let prob = m.milp();
    let cbc = flag("cbc");
    let dir = scratch();
    let path = dir.join("out.sol");
    let h = choose("header", 12);
    let mut listed: Vec<(usize, f64, f64)> = Vec::new();
    let mut quality = Line::Good;
    let says;
    if h == 11 { says = None; note("no file"); } else {
        let (head, s) = if cbc { CBC[h] } else { CLP[h] };
        let mut textfile = head.to_string();
        says = Some(s);
        let k = choose("lines", lines + 1);
        let mut free: Vec<usize> = (0..nx + na).collect();
        for q in 0..k {
            if free.is_empty() { break; }
            let it = free.remove(choose("item", free.len()));
            // at most one line is out of shape
            let shape = if quality == Line::Good && bad > 1 { choose("shape", bad) } else { 0 };
            let (value, mul) = (real(&format!("v{}", q)), real(&format!("m{}", q)));
            let (l, w) = sol_line(shape, it, nx, value, mul);
            if w == Line::Bad { quality = Line::Bad; } else if w == Line::Either && quality == Line::Good { quality = Line::Either; }
            if shape != 13 { listed.push((it, value, mul)); }
            textfile.push_str(&l);
            textfile.push('\n');
        }
        if flag("cut the last line end") { textfile.pop(); }
        note(&format!("cbc {} {:?}", cbc, textfile.replace('@', "")));
        fs::write(&path, bytes_of(&textfile)).unwrap();
    }
    let r = SolverCbcCmd::read_sol_file(path.to_str().unwrap(), &prob, cbc);
    fs::remove_dir_all(&dir).ok();
    judge(r.map_err(|_| ()), says, quality, nx, na, &listed);
}

fn judge(r: Result<(SolverStatus, ProblemSol), ()>, says: Option<Says>, quality: Line, nx: usize, na: usize, listed: &[(usize, f64, f64)]) {
    let solved = matches!(r, Ok((SolverStatus::Solved, _)));
    let infeasible = matches!(r, Ok((SolverStatus::Infeasible, _)));
    match says {
        Some(Says::Optimal) => {
            check("not infeasible", !infeasible);
            match quality {
                Line::Bad => { check("a malformed file is not a solution", !solved); reached("malformed"); }
                _ => {
                    if quality == Line::Good { check("optimal is solved", solved); }
                    if let Ok((SolverStatus::Solved, sol)) = &r { same_sol(sol, nx, na, listed); reached("solved"); }
                }
            }
        }
        Some(Says::Infeasible) => { check("infeasible", infeasible); reached("infeasible"); }
        Some(Says::Other) | None => { check("no claim without a solution", !solved && !infeasible); reached("other"); }
    }
}

// ---------------------------------------------------------------- command-line solvers

/// What the stand-in solver does in one run.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act { Good, GoodThenFail, Silent, SilentFail, Partial, Garbage, Infeasible, Killed, HeaderOnly, Missing, NotExecutable, Directory, Binary, Tidy, Empty, Unbounded }
const ACTS: [Act; 16] = [Act::Good, Act::Silent, Act::SilentFail, Act::Partial, Act::Garbage, Act::Infeasible, Act::Killed, Act::HeaderOnly, Act::Missing, Act::NotExecutable, Act::Directory, Act::GoodThenFail, Act::Binary, Act::Tidy, Act::Empty, Act::Unbounded];

pub fn entries(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}

enum Either { Cbc(SolverCbcCmd), Clp(SolverClpCmd) }
impl Either {
    fn solver(&mut self) -> &mut dyn Solver { match self { Either::Cbc(s) => s, Either::Clp(s) => s } }
}

/// C18: command-line solvers.
pub fn c18(p: &[usize]) {
    let (runs, acts) = (p[0], p[1]);
    let dir = scratch();
    let (bin, work, logd, tmp) = (dir.join("bin"), dir.join("work"), dir.join("log"), dir.join("tmp"));
    for d in [&bin, &work, &logd, &tmp] { fs::create_dir(d).unwrap(); }
    std::env::set_var("PATH", &bin);
    std::env::set_var("TMPDIR", &tmp);
    std::env::set_current_dir(&work).unwrap();
    fs::write(work.join("keep.txt"), "keep").unwrap();
    let cbc = flag("cbc");
    let exe = bin.join(if cbc { "cbc" } else { "clp" });
    let mut s = if cbc { Either::Cbc(SolverCbcCmd::new()) } else { Either::Clp(SolverClpCmd::new()) };
    let level = match if runs > 1 { 1 } else { choose("log level", 3) } {
        0 => None,
        1 => Some(0),
        _ => Some(-3),
    };
    if let Some(v) = level { check("log level set", s.solver().set_param("logLevel", SolverParam::IntParam(v)).is_ok()); }
    let nx = 2;
    let na = 1;
    let kind = choose("problem", 4);
    let mut m = plain_milp(nx, na);
    m.a.vals[0] = real("a");
    m.p = vec![kind == 1, false];
    let mut prob = match kind {
        0 => Problem::Lp(m.lp()),
        1 => Problem::Milp(m.milp()),
        2 => Problem::Nlp(ProblemNlp::new(CooMat::from_nnz((nx, nx), 0), m.a.coo(), m.b.clone(), CooMat::from_nnz((0, nx), 0), vec![], m.l.clone(), m.u.clone(), None, Box::new(|_, _, _, _, _, _, _| ()))),
        _ => Problem::Minlp(ProblemMinlp::new(CooMat::from_nnz((nx, nx), 0), m.a.coo(), m.b.clone(), CooMat::from_nnz((0, nx), 0), vec![], m.l.clone(), m.u.clone(), m.p.clone(), None, Box::new(|_, _, _, _, _, _, _| ()))),
    };
    let supported = kind == 0 || (cbc && kind == 1);
    // environment: 0 ordinary, 1 no directory for temporary files, 2 the working directory is gone
    let envs = if p[2] == 1 { choose("environment", 3) } else { 0 };
    if envs == 1 { fs::remove_dir(&tmp).unwrap(); }
    if envs == 2 { fs::remove_dir_all(&work).unwrap(); }
    let mut story = Vec::new();
    // a solution that some earlier run left where this solver was last told to write
    let mut stale: Option<PathBuf> = None;
    for t in 0..runs {
        let mut kept = vec!["keep.txt".to_string()];
        if let (Some(f), 0) = (&stale, envs) {
            if let (Some(d), Some(n)) = (f.parent(), f.file_name()) {
                let in_work = d == Path::new("") || d.canonicalize().ok() == work.canonicalize().ok();
                if (in_work || d.starts_with(&tmp)) && fs::write(work.join(f), format!("{}      0 c_0   1   1\n      0 x_0   1   0\n      1 x_1   1   0\n", (if cbc { CBC } else { CLP })[0].0)).is_ok() && in_work {
                    kept.push(n.to_string_lossy().to_string());
                    kept.sort();
                }
            }
        }
        let act = ACTS[choose("act", acts)];
        let oldf = if act == Act::Good && !cbc && flag("old clp format") { 2 } else { 0 };
        story.push(format!("{:?}", act));
        let mut listed = Vec::new();
        let mut good = (if cbc { CBC } else { CLP })[oldf].0.to_string();
        for it in [nx, 0, 1] {
            let (v, mu) = (real(&format!("v{}_{}", t, it)), real(&format!("m{}_{}", t, it)));
            good.push_str(&sol_line(0, it, nx, v, mu).0);
            good.push('\n');
            listed.push((it, v, mu));
        }
        let head = (if cbc { CBC } else { CLP })[0].0;
        let out = match act {
            Act::Good | Act::GoodThenFail | Act::Tidy => Some(good.into_bytes()),
            Act::Binary => Some([head.as_bytes(), b"      0 c_0      1.5      2\n      0 x_0 \xff\xfe\x80 1\n"].concat()),
            Act::Empty => Some(vec![]),
            Act::Unbounded => Some(format!("{}      0 c_0      1.5      2\n      0 x_0   12   0\n      1 x_1   12   0\n", (if cbc { CBC[3] } else { CLP[4] }).0).into_bytes()),
            Act::Partial => Some(format!("{}      0 c_0      1.5      2\n      0 x_0   1.", head).into_bytes()),
            Act::Killed => Some(format!("{}      0 c_0      1.5      2\n", head).into_bytes()),
            Act::HeaderOnly => Some(head.as_bytes().to_vec()),
            Act::Garbage => Some(b"\x01\x02garbage\nOptimal\n0 x_0 1 2\n".to_vec()),
            Act::Infeasible => Some(format!("{}      0 c_0      1.5      2\n**       0 x_0   12   0\n", (if cbc { CBC } else { CLP })[1].0).into_bytes()),
            _ => None,
        };
        fs::remove_file(&exe).ok();
        fs::remove_dir(&exe).ok();
        let (sol, args, inp) = (logd.join(format!("sol{}", t)), logd.join(format!("args{}", t)), logd.join(format!("in{}", t)));
        if let Some(o) = &out { fs::write(&sol, o).unwrap(); }
        let mut script = String::from("#!/bin/sh\n");
        script.push_str(&format!("printf '%s\\n' \"$@\" > {}\n/bin/cp \"$1\" {}\n", args.display(), inp.display()));
        script.push_str("for last; do :; done\n");
        if out.is_some() { script.push_str(&format!("/bin/cp {} \"$last\"\n", sol.display())); }
        if act == Act::Tidy { script.push_str("/bin/rm -f \"$1\"\n"); }
        match act {
            Act::SilentFail | Act::Partial | Act::HeaderOnly | Act::GoodThenFail => script.push_str("exit 3\n"),
            Act::Killed => script.push_str("kill -9 $$\n"),
            _ => script.push_str("exit 0\n"),
        }
        match act {
            Act::Missing => (),
            Act::Directory => fs::create_dir(&exe).unwrap(),
            _ => {
                fs::write(&exe, &script).unwrap();
                let mode = if act == Act::NotExecutable { 0o644 } else { 0o755 };
                fs::set_permissions(&exe, fs::Permissions::from_mode(mode)).unwrap();
            }
        }
        let r = s.solver().solve(&mut prob);
        if envs != 2 {
            let left = entries(&work);
            // a run may replace and remove the file an earlier one left
            check("no file is left behind", left == kept || left == ["keep.txt"]);
            for f in left { if f != "keep.txt" { fs::remove_file(work.join(f)).ok(); } }
            check("other files are kept", fs::read_to_string(work.join("keep.txt")).map_or(false, |s| s == "keep"));
        }
        let solved = matches!(r, Ok((SolverStatus::Solved, _)));
        let infeasible = matches!(r, Ok((SolverStatus::Infeasible, _)));
        if !supported {
            check("unsupported problem is refused", r.is_err());
            check("unsupported problem is not run", !args.exists());
            reached("unsupported");
            continue;
        }
        if envs == 2 || (envs == 1 && r.is_err()) {
            check("no claim without a run", !solved && !infeasible);
            reached("environment");
            continue;
        }
        match act {
            Act::Good | Act::GoodThenFail | Act::Tidy => {
                check("not infeasible", !infeasible);
                if act != Act::GoodThenFail { check("solved", solved); }
                if let Ok((SolverStatus::Solved, sol)) = &r { same_sol(sol, nx, na, &listed); }
                reached("solved");
            }
            Act::Infeasible => { check("infeasible", infeasible); reached("infeasible"); }
            Act::Missing | Act::NotExecutable | Act::Directory => { check("a solver that does not start is an error", r.is_err()); reached("not started"); continue; }
            _ => { check("no claim without a solution", !solved && !infeasible); reached("fault"); }
        }
        // what the solver was given
        let a: Vec<String> = fs::read_to_string(&args).expect("arguments").lines().map(|l| l.to_string()).collect();
        stale = a.last().map(PathBuf::from);
        let want = format!("{}", level.unwrap_or(5));
        check("log level is passed", a.windows(2).any(|w| (w[0] == "logLevel" || w[0] == "-logLevel") && w[1] == want));
        same_lp(&fs::read_to_string(&inp).expect("input file"), &m);
    }
    note(&format!("cbc {} problem {} environment {} level {:?}: {}", cbc, kind, envs, level, story.join(", ")));
    std::env::set_current_dir("/").ok();
    fs::remove_dir_all(&dir).ok();
}
