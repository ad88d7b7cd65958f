//! C19, C20: the Ipopt interface, against a stand-in for the native library.

use crate::mat::*;
use crate::prob::{lower, nlp_of, empty, scale, reals, Data};
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::ipopt::SolverIpopt;
use simple_error::SimpleError;
use libc::{c_char, c_double, c_int, c_void};
use std::ffi::CStr;
use std::ptr;
use symrt::*;

type EvalF = extern "C" fn(c_int, *const c_double, c_int, *mut c_double, *mut c_void) -> c_int;
type EvalGradF = extern "C" fn(c_int, *const c_double, c_int, *mut c_double, *mut c_void) -> c_int;
type EvalG = extern "C" fn(c_int, *const c_double, c_int, c_int, *mut c_double, *mut c_void) -> c_int;
type EvalJacG = extern "C" fn(c_int, *const c_double, c_int, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;
type EvalH = extern "C" fn(c_int, *const c_double, c_int, c_double, c_int, *const c_double, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;

/// What the stand-in library was given, and what it is to do.
#[derive(Default)]
struct Lib {
    create_fails: bool,
    int_fails: bool,
    str_fails: bool,
    code: c_int,
    /// Solves in progress around this one.
    depth: usize,
    created: usize,
    freed: usize,
    solved: usize,
    ints: Vec<(String, i32)>,
    strs: Vec<(String, String)>,
    n: usize, m: usize, nele_jac: c_int, nele_hess: c_int, index_style: c_int,
    l: Vec<f64>, u: Vec<f64>, gl: Vec<f64>, gu: Vec<f64>,
    start: Vec<f64>,
    x: Vec<f64>, mult_g: Vec<f64>, mult_l: Vec<f64>, mult_u: Vec<f64>,
    fns: Option<(EvalF, EvalG, EvalGradF, EvalJacG, EvalH)>,
    during: Option<Box<dyn FnOnce(&Calls)>>,
}
static mut LIB: Option<Lib> = None;
#[allow(static_mut_refs)]
fn lib() -> &'static mut Lib { unsafe { LIB.get_or_insert_with(Lib::default) } }
unsafe fn vec_at(p: *const f64, n: usize) -> Vec<f64> { (0..n).map(|i| *p.add(i)).collect() }

#[no_mangle]
pub unsafe extern "C" fn CreateIpoptProblem(n: c_int, l: *const c_double, u: *const c_double, m: c_int, gl: *const c_double, gu: *const c_double, nele_jac: c_int, nele_hess: c_int,
    index_style: c_int, f: EvalF, g: EvalG, gf: EvalGradF, j: EvalJacG, h: EvalH) -> *mut c_void {
    let b = lib();
    if b.create_fails { return ptr::null_mut(); }
    check("one native problem at a time", b.created == b.freed);
    b.created += 1;
    check("native dimensions", n >= 0 && m >= 0);
    b.n = n as usize;
    b.m = m as usize;
    b.l = vec_at(l, b.n);
    b.u = vec_at(u, b.n);
    b.gl = vec_at(gl, b.m);
    b.gu = vec_at(gu, b.m);
    b.nele_jac = nele_jac;
    b.nele_hess = nele_hess;
    b.index_style = index_style;
    b.fns = Some((f, g, gf, j, h));
    handle()
}
fn handle() -> *mut c_void { (0x5150 + 64 * lib().depth) as *mut c_void }
fn live(p: *mut c_void) { check("the native problem is alive", p == handle() && lib().created == lib().freed + 1); }
#[no_mangle]
pub unsafe extern "C" fn FreeIpoptProblem(p: *mut c_void) { live(p); lib().freed += 1; }
#[no_mangle]
pub unsafe extern "C" fn AddIpoptIntOption(p: *mut c_void, key: *const c_char, val: c_int) -> c_int {
    live(p);
    lib().ints.push((CStr::from_ptr(key).to_string_lossy().to_string(), val));
    if lib().int_fails { 0 } else { 1 }
}
#[no_mangle]
pub unsafe extern "C" fn AddIpoptStrOption(p: *mut c_void, key: *const c_char, val: *const c_char) -> c_int {
    live(p);
    lib().strs.push((CStr::from_ptr(key).to_string_lossy().to_string(), CStr::from_ptr(val).to_string_lossy().to_string()));
    if lib().str_fails { 0 } else { 1 }
}
#[no_mangle]
pub unsafe extern "C" fn AddIpoptNumOption(p: *mut c_void, _key: *const c_char, _val: c_double) -> c_int { live(p); 1 }
#[no_mangle]
pub unsafe extern "C" fn IpoptSolve(p: *mut c_void, x: *mut c_double, g: *mut c_double, obj: *mut c_double, mult_g: *mut c_double, mult_l: *mut c_double, mult_u: *mut c_double, user: *mut c_void) -> c_int {
    live(p);
    let b = lib();
    b.solved += 1;
    b.start = vec_at(x, b.n);
    if let Some(f) = b.during.take() {
        let (f0, g0, gf, j, h) = b.fns.unwrap();
        f(&Calls { n: b.n, m: b.m, nj: b.nele_jac, nh: b.nele_hess, f: f0, g: g0, gf, j, h, user });
    }
    let b = lib();
    for i in 0..b.n {
        if let Some(v) = b.x.get(i) { *x.add(i) = *v; }
        if let (Some(v), false) = (b.mult_l.get(i), mult_l.is_null()) { *mult_l.add(i) = *v; }
        if let (Some(v), false) = (b.mult_u.get(i), mult_u.is_null()) { *mult_u.add(i) = *v; }
    }
    for i in 0..b.m {
        if let (Some(v), false) = (b.mult_g.get(i), mult_g.is_null()) { *mult_g.add(i) = *v; }
        if !g.is_null() { *g.add(i) = 0.; }
    }
    if !obj.is_null() { *obj = 0.; }
    b.code
}

struct Calls { n: usize, m: usize, nj: c_int, nh: c_int, f: EvalF, g: EvalG, gf: EvalGradF, j: EvalJacG, h: EvalH, user: *mut c_void }

// ---------------------------------------------------------------- the problem

/// Problem data: LP (c, a, b) or NLP.
enum Kind { Nlp(Data), Lp { c: Vec<f64>, a: Pat, b: Vec<f64>, l: Vec<f64>, u: Vec<f64>, x0: Option<Vec<f64>> } }
impl Kind {
    fn a(&self) -> (&Pat, &[f64]) { match self { Kind::Nlp(d) => (&d.a, &d.b), Kind::Lp { a, b, .. } => (a, b) } }
    fn nf(&self) -> usize { match self { Kind::Nlp(d) => d.f.len(), _ => 0 } }
    fn limits(&self) -> (&[f64], &[f64], &Option<Vec<f64>>) { match self { Kind::Nlp(d) => (&d.l, &d.u, &d.x0), Kind::Lp { l, u, x0, .. } => (l, u, x0) } }
    fn phi(&self, x: &[f64]) -> f64 { match self { Kind::Nlp(d) => d.phi * scale(x), Kind::Lp { c, .. } => c.iter().zip(x.iter()).fold(0., |s, (c, x)| s + *c * *x) } }
    fn gphi(&self, x: &[f64]) -> Vec<f64> { match self { Kind::Nlp(d) => d.g.iter().map(|v| *v * scale(x)).collect(), Kind::Lp { c, .. } => c.clone() } }
    fn g(&self, x: &[f64]) -> Vec<f64> {
        let (a, b) = self.a();
        let mut r: Vec<f64> = (0..b.len()).map(|i| { let mut s = 0. - b[i]; for k in 0..a.nnz() { if a.rows[k] == i { s = s + a.vals[k] * x[a.cols[k]]; } } s }).collect();
        if let Kind::Nlp(d) = self { for v in d.f.iter() { r.push(*v * scale(x)); } }
        r
    }
    fn jac(&self, x: &[f64], r: usize, c: usize) -> f64 {
        let (a, b) = self.a();
        if r < b.len() { return a.at(r, c); }
        match self { Kind::Nlp(d) => d.j.at(r - b.len(), c) * scale(x), _ => 0. }
    }
    fn hess(&self, x: &[f64], of: f64, lam: &[f64], r: usize, c: usize) -> f64 {
        match self {
            Kind::Nlp(d) => {
                let mut s = of * (d.hphi.at(r, c) * scale(x));
                for (k, h) in d.h.iter().enumerate() { s = s + lam[d.b.len() + k] * (h.at(r, c) * scale(x)); }
                s
            }
            _ => 0.,
        }
    }
    fn problem(&self) -> Problem {
        match self {
            Kind::Nlp(d) => Problem::Nlp(nlp_of(d)),
            Kind::Lp { c, a, b, l, u, x0 } => Problem::Lp(ProblemLp::new(c.clone(), a.coo(), b.clone(), l.clone(), u.clone(), x0.clone())),
        }
    }
}

/// Any problem within the bounds; `shapes` 0: one fixed sparsity.
fn any_problem(nx: usize, shapes: usize) -> Kind {
    let fixed = |name: &str, shape: (usize, usize), pos: &[(usize, usize)]| -> Pat {
        Pat { shape, rows: pos.iter().map(|p| p.0).collect(), cols: pos.iter().map(|p| p.1).collect(), vals: reals(name, pos.len()) }
    };
    let lp = flag("lp");
    if shapes > 90 {
        // larger, drawn from a fixed seed
        let seed = choose("pattern", shapes - 90);
        let (na, nf) = (3, if lp { 0 } else { 4 });
        let a = drawn("a", seed, na, nx, 9, false);
        let (b, l, u) = (reals("b", na), reals("l", nx), reals("u", nx));
        let x0 = if seed % 2 == 0 { Some(reals("x0", nx)) } else { None };
        if lp { return Kind::Lp { c: reals("c", nx), a, b, l, u, x0 }; }
        return Kind::Nlp(Data { a, b, l, u, x0, j: drawn("j", seed + 7, nf, nx, 6 + seed, false),
            h: (0..nf).map(|i| drawn(&format!("h{}_", i), seed + i, nx, nx, [3, 0, 6, 1][(i + seed) % 4], true)).collect(), hphi: drawn("p", seed + 9, nx, nx, 3 * (seed % 3), true), f: reals("f", nf), g: reals("g", nx), phi: real("phi") });
    }
    let (na, nf) = if shapes == 0 { (1, if lp { 0 } else { 2 }) } else { (choose("na", 2), if lp { 0 } else { choose("nf", 3) }) };
    let a = if shapes == 0 { fixed("a", (1, nx), &[(0, nx - 1), (0, 0)]) } else { pattern_of("a", na, nx, shapes) };
    let (b, l, u) = (reals("b", na), reals("l", nx), reals("u", nx));
    let x0 = if shapes > 0 && flag("initial point") { Some(reals("x0", nx)) } else { None };
    if lp { return Kind::Lp { c: reals("c", nx), a, b, l, u, x0 }; }
    let (j, h, hphi) = if shapes == 0 {
        (fixed("j", (2, nx), &[(1, 0), (0, nx - 1)]), vec![fixed("h0", (nx, nx), &[(nx - 1, 0)]), fixed("h1", (nx, nx), &[(0, 0), (nx - 1, 0)])], fixed("p", (nx, nx), &[(nx - 1, nx - 1), (0, 0)]))
    } else {
        (pattern_of("j", nf, nx, shapes), (0..nf).map(|i| lower(&format!("h{}_", i), nx, 1)).collect(), lower("p", nx, shapes))
    };
    let _ = empty;
    Kind::Nlp(Data { a, b, l, u, x0, j, h, hphi, f: reals("f", nf), g: reals("g", nx), phi: real("phi") })
}

// ---------------------------------------------------------------- C19

const CANARY: f64 = 777.25;
struct Out { v: Vec<f64>, n: usize }
impl Out {
    fn new(n: usize) -> Out { Out { v: vec![CANARY; n + 3], n } }
    fn p(&mut self) -> *mut f64 { self.v.as_mut_ptr() }
    fn untouched(&self) -> bool { self.v.iter().all(|v| canary(*v)) }
    fn inside(&self) { check("nothing is written outside", self.v[self.n..].iter().all(|v| canary(*v))); }
}
fn canary(v: f64) -> bool { sym_id(v).is_none() && v == CANARY }
const ICANARY: c_int = 12345;

fn structure(c: &Calls, hess: bool, new_x: c_int) -> Vec<(usize, usize)> {
    let k = (if hess { c.nh } else { c.nj }) as usize;
    let (mut r, mut q) = (vec![ICANARY; k + 3], vec![ICANARY; k + 3]);
    let ok = if hess { (c.h)(c.n as c_int, ptr::null(), new_x, 1., c.m as c_int, ptr::null(), 0, c.nh, r.as_mut_ptr(), q.as_mut_ptr(), ptr::null_mut(), c.user) }
        else { (c.j)(c.n as c_int, ptr::null(), new_x, c.m as c_int, c.nj, r.as_mut_ptr(), q.as_mut_ptr(), ptr::null_mut(), c.user) };
    check("structure is given", ok == 1);
    check("nothing is written outside", r[k..].iter().chain(q[k..].iter()).all(|v| *v == ICANARY));
    let rows = if hess { c.n } else { c.m };
    check("structure in range", r[..k].iter().all(|v| *v >= 0 && (*v as usize) < rows) && q[..k].iter().all(|v| *v >= 0 && (*v as usize) < c.n));
    r[..k].iter().zip(q[..k].iter()).map(|(a, b)| (*a as usize, *b as usize)).collect()
}

fn same_matrix(label: &str, pos: &[(usize, usize)], vals: &[f64], rows: usize, cols: usize, sym: bool, want: &dyn Fn(usize, usize) -> f64) {
    for r in 0..rows {
        for c in 0..cols {
            if sym && c > r { continue; }
            let mut s = 0.;
            for (p, v) in pos.iter().zip(vals.iter()) { if *p == (r, c) || (sym && *p == (c, r)) { s = s + *v; } }
            prove(label, &eq(s, want(r, c)));
        }
    }
}

/// The callbacks under every history Ipopt may produce.
fn history(k: &Kind, c: &Calls, steps: usize, redundant: bool, bad: bool) { go_on(&mut Past::default(), k, c, steps, redundant, bad) }

/// What the native solver of one problem knows from the calls so far.
#[derive(Default)]
struct Past { x: Option<Vec<f64>>, lam: Option<Vec<f64>>, np: usize, nl: usize, sj: Option<Vec<(usize, usize)>>, sh: Option<Vec<(usize, usize)>>, values: bool }

/// Continues a history.
fn go_on(past: &mut Past, k: &Kind, c: &Calls, steps: usize, redundant: bool, bad: bool) {
    let nx = c.n;
    let past_values = past.values;
    let Past { x, lam, np, nl, sj, sh, .. } = past;
    let mut story = Vec::new();
    for s in 0..steps {
        let q = choose("query", if past_values { 5 } else { 7 + bad as usize });
        if q == 7 { refused(k, c, x); story.push("refused".into()); break; }
        if q >= 5 {
            let t = structure(c, q == 6, 0);
            let old: &mut Option<Vec<(usize, usize)>> = if q == 6 { &mut *sh } else { &mut *sj };
            if let Some(o) = old { check("structure does not change", *o == t); }
            *old = Some(t);
            story.push(format!("structure{}", q));
            continue;
        }
        let (nxv, newx) = match &*x {
            None => (true, 1),
            Some(_) => match choose("point", 2 + redundant as usize) { 0 => (true, 1), 1 => (false, 0), _ => (false, 1) },
        };
        if nxv { *x = Some(reals(&format!("x{}_", np), nx)); *np += 1; }
        let xv = x.clone().unwrap();
        let mut ok = 1;
        match q {
            0 => {
                let mut o = Out::new(1);
                ok = (c.f)(nx as c_int, xv.as_ptr(), newx, o.p(), c.user);
                o.inside();
                prove("objective", &eq(o.v[0], k.phi(&xv)));
            }
            1 => {
                let mut o = Out::new(nx);
                ok = (c.gf)(nx as c_int, xv.as_ptr(), newx, o.p(), c.user);
                o.inside();
                for (v, w) in o.v.iter().zip(k.gphi(&xv).iter()) { prove("gradient", &eq(*v, *w)); }
            }
            2 => {
                let mut o = Out::new(c.m);
                ok = (c.g)(nx as c_int, xv.as_ptr(), newx, c.m as c_int, o.p(), c.user);
                o.inside();
                for (v, w) in o.v.iter().zip(k.g(&xv).iter()) { prove("constraints", &eq(*v, *w)); }
            }
            3 => {
                let mut o = Out::new(c.nj as usize);
                ok = (c.j)(nx as c_int, xv.as_ptr(), newx, c.m as c_int, c.nj, ptr::null_mut(), ptr::null_mut(), o.p(), c.user);
                o.inside();
                let pos = structure(c, false, 0);
                same_matrix("jacobian", &pos, &o.v[..c.nj as usize], c.m, nx, false, &|r, q| k.jac(&xv, r, q));
            }
            _ => {
                let (nlv, newl) = match &*lam {
                    None => (true, 1),
                    Some(_) => match choose("multipliers", 2 + redundant as usize) { 0 => (true, 1), 1 => (false, 0), _ => (false, 1) },
                };
                if nlv { *lam = Some(reals(&format!("lam{}_", nl), c.m)); *nl += 1; }
                let lv = lam.clone().unwrap();
                let of = real(&format!("of{}", s));
                let mut o = Out::new(c.nh as usize);
                // a pointer that is not null also when there are no constraints
                let lp = if lv.is_empty() { &CANARY as *const f64 } else { lv.as_ptr() };
                ok = (c.h)(nx as c_int, xv.as_ptr(), newx, of, c.m as c_int, lp, newl, c.nh, ptr::null_mut(), ptr::null_mut(), o.p(), c.user);
                o.inside();
                let pos = structure(c, true, 0);
                same_matrix("hessian", &pos, &o.v[..c.nh as usize], nx, nx, true, &|r, q| k.hess(&xv, of, &lv, r, q));
                story.push(format!("l{}", newl));
                reached("hessian");
            }
        }
        story.push(format!("{}x{}", q, newx));
        check("an answer is given", ok == 1);
        for (a, b) in xv.iter().zip(x.as_ref().unwrap().iter()) { prove_same("the point is not changed", *a, *b); }
    }
    note(&format!("{} {}", if matches!(k, Kind::Lp { .. }) { "lp" } else { "nlp" }, story.join(" ")));
    reached("history");
}

/// One call with a null pointer or a wrong dimension.
fn refused(k: &Kind, c: &Calls, cur: &Option<Vec<f64>>) {
    let _ = k;
    let xv = cur.clone().unwrap_or_else(|| reals("xr", c.n));
    let lv = reals("lamr", c.m.max(1));
    let newx = 1;
    let q = choose("refused query", 7);
    let (mut n, mut m) = (c.n as c_int, c.m as c_int);
    let (mut x, mut lam, mut user) = (xv.as_ptr(), lv.as_ptr(), c.user);
    let mut nele = if q == 3 || q == 5 { c.nj } else { c.nh };
    let mut o = Out::new(match q { 0 => 1, 1 => c.n, 2 => c.m, _ => nele as usize } + 8);
    let (mut ir, mut jc) = (vec![ICANARY; nele as usize + 8], vec![ICANARY; nele as usize + 8]);
    let mut op = o.p();
    let (mut ip, mut jp) = (ir.as_mut_ptr(), jc.as_mut_ptr());
    let st = q >= 5;
    if st { op = ptr::null_mut(); x = ptr::null(); lam = ptr::null(); } else if q >= 3 { ip = ptr::null_mut(); jp = ptr::null_mut(); }
    // the defect
    let d = choose("defect", 12);
    match d {
        0 => n += 1,
        1 => n -= 1,
        2 => n = -1,
        3 => user = ptr::null_mut(),
        4 if q <= 4 => x = ptr::null(),
        5 if q <= 2 => op = ptr::null_mut(),
        5 if st => ip = ptr::null_mut(),
        6 if q >= 2 => m += 1,
        6 if st => jp = ptr::null_mut(),
        7 if q >= 2 => m = -1,
        8 if q >= 3 => nele += 1,
        9 if q >= 3 => nele = -1,
        10 if q == 4 => lam = ptr::null(),
        10 if st => jp = ptr::null_mut(),
        11 if q >= 3 && nele > 0 => nele -= 1,
        _ => discard("no such defect"),
    }
    let r = match q {
        0 => (c.f)(n, x, newx, op, user),
        1 => (c.gf)(n, x, newx, op, user),
        2 => (c.g)(n, x, newx, m, op, user),
        3 | 5 => (c.j)(n, x, newx * (!st) as c_int, m, nele, ip, jp, op, user),
        _ => (c.h)(n, x, newx * (!st) as c_int, 1., m, lam, (!st) as c_int, nele, ip, jp, op, user),
    };
    check("a bad call is refused", r == 0);
    check("a bad call writes nothing", o.untouched() && ir.iter().chain(jc.iter()).all(|v| *v == ICANARY));
    let _ = (&mut ir, &mut jc, &mut o);
    reached("refused");
}

pub fn c19(p: &[usize]) {
    let (nx, shapes, steps, redundant, bad) = (p[0], p[1], p[2], p[3] == 1, p[4] == 1);
    let k = std::rc::Rc::new(any_problem(nx, shapes));
    let mut prob = k.problem();
    let k2 = k.clone();
    lib().during = Some(Box::new(move |c: &Calls| history(&k2, c, steps, redundant, bad)));
    let r = SolverIpopt::new().solve(&mut prob);
    check("solved", r.is_ok() && lib().solved == 1);
}

// ---------------------------------------------------------------- C20

const CODES: [c_int; 30] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 256, 257, 258, -1, -2, -3, -4, -5, -10, -11, -12, -13, -100, -101, -102, -103, -199, -256, 65538, c_int::MIN, c_int::MAX];

pub fn c20(p: &[usize]) {
    let (nx, shapes, solves, faults) = (p[0], p[1], p[2], p[3] == 1);
    let mut s = SolverIpopt::new();
    let mut options = (5, "no".to_string());
    let kind = if faults { choose("problem type", 4) } else { 0 };
    let k = any_problem(nx, shapes);
    let mut prob = match kind { 0 | 1 => k.problem(), 2 => Problem::Milp(ProblemMilp::new(vec![1.; nx], k.a().0.coo(), k.a().1.to_vec(), vec![0.; nx], vec![1.; nx], vec![true; nx], None)),
        _ => Problem::Minlp(ProblemMinlp::new(numopt::matrix::coo::CooMat::from_nnz((nx, nx), 0), k.a().0.coo(), k.a().1.to_vec(), numopt::matrix::coo::CooMat::from_nnz((0, nx), 0), vec![], vec![0.; nx], vec![1.; nx], vec![true; nx], None, Box::new(|_, _, _, _, _, _, _| ()))) };
    let (na, nf) = (k.a().1.len(), k.nf());
    let mut story = Vec::new();
    for t in 0..solves {
        *lib() = Lib { depth: lib().depth, created: lib().created, freed: lib().freed, solved: lib().solved, ..Lib::default() };
        let b = lib();
        let before = (b.created, b.solved);
        let fault = if faults && kind < 2 { choose("fault", 14) } else { 0 };
        b.create_fails = fault == 1;
        b.int_fails = fault == 2;
        b.str_fails = fault == 3;
        b.code = if fault == 0 { CODES[choose("code", match p[3] { 0 => 30, 1 => 5, _ => 1 })] } else { 0 };
        b.x = reals(&format!("rx{}_", t), nx);
        b.mult_l = reals(&format!("rl{}_", t), nx);
        b.mult_u = reals(&format!("ru{}_", t), nx);
        b.mult_g = reals(&format!("rg{}_", t), na + nf);
        let saved = s.get_params().clone();
        match fault {
            4 => { s.get_params_mut().remove("print_level"); }
            5 => { s.get_params_mut().remove("sb"); }
            6 => { s.get_params_mut().insert("print_level".into(), SolverParam::FloatParam(1.)); }
            7 => { s.get_params_mut().insert("sb".into(), SolverParam::IntParam(1)); }
            8 => { s.set_param("sb", SolverParam::StrParam("y\0s".into())).unwrap(); }
            9 => { s.set_param("print_level", SolverParam::IntParam(0)).unwrap(); options.0 = 0; }
            10 => { s.set_param("sb", SolverParam::StrParam("yes".into())).unwrap(); options.1 = "yes".into(); }
            11 => { s.set_param("print_level", SolverParam::IntParam(13)).unwrap(); options.0 = 13; }
            12 => { s.set_param("print_level", SolverParam::IntParam(i32::MIN)).unwrap(); options.0 = i32::MIN; s.set_param("sb", SolverParam::StrParam("".into())).unwrap(); options.1 = "".into(); }
            13 => { s.set_param("print_level", SolverParam::IntParam(i32::MAX)).unwrap(); options.0 = i32::MAX; s.set_param("sb", SolverParam::StrParam(" no ".into())).unwrap(); options.1 = " no ".into(); }
            _ => (),
        }
        story.push(format!("fault {} code {}", fault, b.code));
        let r = catch(|| s.solve(&mut prob));
        check("a solve returns", r.is_ok());
        let r = r.unwrap();
        let b = lib();
        check("the native problem is released", b.created == b.freed);
        if kind >= 2 {
            check("unsupported problem is refused", r.is_err() && b.created == before.0);
            reached("unsupported");
            continue;
        }
        if fault >= 1 && fault <= 8 {
            check("a failure is an error", r.is_err());
            check("nothing is solved after a failure", b.solved == before.1);
            for (k, v) in saved { s.get_params_mut().insert(k, v); }
            reached("failure");
            continue;
        }
        check("solved once", b.created == before.0 + 1 && b.solved == before.1 + 1);
        check("options", b.ints == vec![("print_level".to_string(), options.0)] && b.strs == vec![("sb".to_string(), options.1.clone())]);
        check("dimensions", b.n == nx && b.m == na + nf && b.index_style == 0);
        let (l, u, x0) = k.limits();
        for i in 0..nx {
            prove_same("lower limits", b.l[i], l[i]);
            prove_same("upper limits", b.u[i], u[i]);
            prove_same("initial point", b.start[i], x0.as_ref().map_or(0., |v| v[i]));
        }
        for i in 0..na + nf { prove("constraint sides are zero", &and(&eq(b.gl[i], 0.), &eq(b.gu[i], 0.))); }
        check("structure counts", b.nele_jac as usize == k.a().0.nnz() + match &k { Kind::Nlp(d) => d.j.nnz(), _ => 0 } && b.nele_hess as usize == match &k { Kind::Nlp(d) => d.hphi.nnz() + d.h.iter().map(|h| h.nnz()).sum::<usize>(), _ => 0 });
        check("a result", r.is_ok());
        let (status, sol): (SolverStatus, ProblemSol) = r.unwrap();
        check("status", status == match b.code { 0 | 1 => SolverStatus::Solved, 2 => SolverStatus::Infeasible, _ => SolverStatus::Error });
        check("solution dimensions", sol.x.len() == nx && sol.lam.len() == na && sol.nu.len() == nf && sol.pi.len() == nx && sol.mu.len() == nx);
        for i in 0..nx {
            prove_same("solution", sol.x[i], b.x[i]);
            prove_same("lower-limit multiplier", sol.pi[i], b.mult_l[i]);
            prove_same("upper-limit multiplier", sol.mu[i], b.mult_u[i]);
        }
        for i in 0..na { prove("linear multiplier", &eq(sol.lam[i], 0. - b.mult_g[i])); }
        for i in 0..nf { prove("nonlinear multiplier", &eq(sol.nu[i], 0. - b.mult_g[na + i])); }
        reached("result");
    }
    note(&format!("type {} nx {} na {} nf {}: {}", kind, nx, na, nf, story.join("; ")));
}

// ---------------------------------------------------------------- C25

/// The results a native solver gives for a problem with `n` variables and `m` rows.
fn results(tag: &str, n: usize, m: usize) {
    let b = lib();
    b.x = reals(&format!("rx{}_", tag), n);
    b.mult_l = reals(&format!("rl{}_", tag), n);
    b.mult_u = reals(&format!("ru{}_", tag), n);
    b.mult_g = reals(&format!("rg{}_", tag), m);
}
fn solved(k: &Kind, r: &Result<(SolverStatus, ProblemSol), SimpleError>, b: &Lib) {
    let (l, u, x0) = k.limits();
    let (na, nf) = (k.a().1.len(), k.nf());
    check("solved", matches!(r, Ok((SolverStatus::Solved, _))) && b.solved == 1 && b.created == 1 && b.freed == 1);
    let sol = &r.as_ref().unwrap().1;
    check("solution dimensions", b.n == l.len() && b.m == na + nf && sol.x.len() == b.n && sol.lam.len() == na && sol.nu.len() == nf);
    for i in 0..b.n {
        prove_same("lower limits", b.l[i], l[i]);
        prove_same("upper limits", b.u[i], u[i]);
        prove_same("initial point", b.start[i], x0.as_ref().map_or(0., |v| v[i]));
        prove_same("solution", sol.x[i], b.x[i]);
        prove_same("lower-limit multiplier", sol.pi[i], b.mult_l[i]);
        prove_same("upper-limit multiplier", sol.mu[i], b.mult_u[i]);
    }
    for i in 0..na { prove("linear multiplier", &eq(sol.lam[i], 0. - b.mult_g[i])); }
    for i in 0..nf { prove("nonlinear multiplier", &eq(sol.nu[i], 0. - b.mult_g[na + i])); }
}

/// C25: while one problem is being solved, another one is, from within a callback.
pub fn c25_nested(p: &[usize]) {
    let (nx, steps, inner_steps) = (p[0], p[1], p[2]);
    // the outer and the inner problem: the same or different sparsity, number of variables and kind
    let k1 = std::rc::Rc::new(any_problem(nx, 0));
    let k2 = std::rc::Rc::new(any_problem(if flag("one variable more") { nx + 1 } else { nx }, 0));
    let mut prob = k1.problem();
    let s = std::rc::Rc::new(SolverIpopt::new());
    let (k, s2) = (k1.clone(), s.clone());
    *lib() = Lib::default();
    results("a", nx, k1.a().1.len() + k1.nf());
    lib().during = Some(Box::new(move |c1: &Calls| {
        let mut past = Past { values: true, ..Past::default() };
        go_on(&mut past, &k, c1, steps, false, false);
        let between = flag("outer calls while the inner solve runs");
        let outer = std::mem::take(lib());
        lib().depth = outer.depth + 1;
        results("b", k2.limits().0.len(), k2.a().1.len() + k2.nf());
        let calls = Calls { n: c1.n, m: c1.m, nj: c1.nj, nh: c1.nh, f: c1.f, g: c1.g, gf: c1.gf, j: c1.j, h: c1.h, user: c1.user };
        let shared = std::rc::Rc::new(std::cell::RefCell::new(past));
        let (ka, kb, sh) = (k.clone(), k2.clone(), shared.clone());
        lib().during = Some(Box::new(move |c2: &Calls| {
            let mut inner = Past { values: true, ..Past::default() };
            go_on(&mut inner, &kb, c2, inner_steps, false, false);
            if between {
                go_on(&mut sh.borrow_mut(), &ka, &calls, 1, false, false);
                go_on(&mut inner, &kb, c2, 1, false, false);
            }
        }));
        let mut other = k2.problem();
        let r = s2.solve(&mut other);
        solved(&k2, &r, lib());
        *lib() = outer;
        if !between { go_on(&mut shared.borrow_mut(), &k, c1, 1, false, false); }
        note(&format!("between {}", between));
        reached("nested");
    }));
    let r = s.solve(&mut prob);
    solved(&k1, &r, lib());
}

// ---------------------------------------------------------------- for C24

/// The native solver's view of the problem while it solves.
pub struct View<'a>(&'a Calls);
impl<'a> View<'a> {
    pub fn nx(&self) -> usize { self.0.n }
    pub fn rows(&self) -> usize { self.0.m }
    pub fn limits(&self, j: usize) -> (f64, f64) { (lib().l[j], lib().u[j]) }
    pub fn g(&self, x: &[f64]) -> Vec<f64> {
        let mut o = vec![0.; self.0.m];
        check("constraints are evaluated", (self.0.g)(self.0.n as c_int, x.as_ptr(), 1, self.0.m as c_int, o.as_mut_ptr(), self.0.user) == 1);
        o.iter().zip(lib().gl.iter()).map(|(v, s)| *v - *s).collect()
    }
    pub fn gradient(&self, x: &[f64]) -> Vec<f64> {
        let mut o = vec![0.; self.0.n];
        check("the gradient is evaluated", (self.0.gf)(self.0.n as c_int, x.as_ptr(), 1, o.as_mut_ptr(), self.0.user) == 1);
        o
    }
    pub fn jacobian(&self, x: &[f64]) -> Vec<(usize, usize, f64)> {
        let k = self.0.nj as usize;
        let (mut r, mut c, mut v) = (vec![0 as c_int; k], vec![0 as c_int; k], vec![0.; k]);
        let (n, m) = (self.0.n as c_int, self.0.m as c_int);
        check("the Jacobian's structure is given", (self.0.j)(n, ptr::null(), 0, m, k as c_int, r.as_mut_ptr(), c.as_mut_ptr(), ptr::null_mut(), self.0.user) == 1);
        check("the Jacobian is evaluated", (self.0.j)(n, x.as_ptr(), 1, m, k as c_int, ptr::null_mut(), ptr::null_mut(), v.as_mut_ptr(), self.0.user) == 1);
        check("the Jacobian is in range", r.iter().all(|i| (0..m).contains(i)) && c.iter().all(|i| (0..n).contains(i)));
        (0..k).map(|i| (r[i] as usize, c[i] as usize, v[i])).collect()
    }
}
/// The native solver finds what `f` gives: point, multipliers of the rows, of the lower and upper limits.
pub fn during_solve(f: impl Fn(&View) -> (Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>) + 'static) {
    *lib() = Lib { depth: lib().depth, created: lib().created, freed: lib().freed, solved: lib().solved, ..Lib::default() };
    lib().during = Some(Box::new(move |c: &Calls| {
        let (x, g, l, u) = f(&View(c));
        let b = lib();
        b.x = x;
        b.mult_g = g;
        b.mult_l = l;
        b.mult_u = u;
    }));
}
