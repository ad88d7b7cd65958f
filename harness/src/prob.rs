//! C13, C23: problem containers.

use crate::mat::*;
use numopt::matrix::coo::CooMat;
use numopt::problem::{lp::ProblemLp, milp::ProblemMilp, minlp::ProblemMinlp, nlp::ProblemNlp};
use symrt::*;

pub fn reals(name: &str, n: usize) -> Vec<f64> { (0..n).map(|i| real(&format!("{}{}", name, i))).collect() }

/// A symmetric matrix pattern, stored as lower-triangular positions (duplicates allowed).
pub fn lower(name: &str, n: usize, maxk: usize) -> Pat {
    let pos: Vec<(usize, usize)> = (0..n).flat_map(|r| (0..=r).map(move |c| (r, c))).collect();
    let k = choose("nnz", maxk + 1);
    let (mut rows, mut cols, mut vals) = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..k {
        let p = pos[choose("position", pos.len())];
        rows.push(p.0);
        cols.push(p.1);
        vals.push(real(&format!("{}{}", name, i)));
    }
    Pat { shape: (n, n), rows, cols, vals }
}

/// Nonlinear data that depend on the point: entry = coefficient * (1 + x0 + 2 x1 ...).
pub fn scale(x: &[f64]) -> f64 {
    let mut s = 1.;
    for (i, v) in x.iter().enumerate() { s = s + (i as f64 + 1.) * *v; }
    s
}
pub struct Data { pub a: Pat, pub b: Vec<f64>, pub l: Vec<f64>, pub u: Vec<f64>, pub x0: Option<Vec<f64>>, pub j: Pat, pub h: Vec<Pat>, pub hphi: Pat, pub f: Vec<f64>, pub g: Vec<f64>, pub phi: f64 }

fn eval_fn(d: &Data) -> numopt::problem::base::ProblemEval {
    let (phi0, g0, hphi0, f0, j0) = (d.phi, d.g.clone(), d.hphi.vals.clone(), d.f.clone(), d.j.vals.clone());
    let h0: Vec<Vec<f64>> = d.h.iter().map(|p| p.vals.clone()).collect();
    Box::new(move |phi: &mut f64, gphi: &mut Vec<f64>, hphi: &mut CooMat<f64>, f: &mut Vec<f64>, j: &mut CooMat<f64>, h: &mut Vec<CooMat<f64>>, x: &[f64]| {
        let s = scale(x);
        *phi = phi0 * s;
        for (d, v) in gphi.iter_mut().zip(g0.iter()) { *d = *v * s; }
        for (d, v) in hphi.data_mut().iter_mut().zip(hphi0.iter()) { *d = *v * s; }
        for (d, v) in f.iter_mut().zip(f0.iter()) { *d = *v * s; }
        for (d, v) in j.data_mut().iter_mut().zip(j0.iter()) { *d = *v * s; }
        for (d, v) in h.iter_mut().zip(h0.iter()) { for (d, v) in d.data_mut().iter_mut().zip(v.iter()) { *d = *v * s; } }
    })
}
fn zeroed(p: &Pat) -> CooMat<f64> { CooMat::new(p.shape, p.rows.clone(), p.cols.clone(), vec![0.; p.nnz()]) }
pub fn nlp_of(d: &Data) -> ProblemNlp {
    ProblemNlp::new(zeroed(&d.hphi), d.a.coo(), d.b.clone(), zeroed(&d.j), d.h.iter().map(zeroed).collect(), d.l.clone(), d.u.clone(), d.x0.clone(), eval_fn(d))
}
pub fn empty(r: usize, c: usize) -> Pat { Pat { shape: (r, c), rows: vec![], cols: vec![], vals: vec![] } }

/// C13: combined Hessian.
pub fn c13(p: &[usize]) {
    let (nx, maxf, maxk, steps) = (p[0], p[1], p[2], p[3]);
    let large = maxk == 99;
    let seed = if large { choose("pattern", p[4]) } else { 0 };
    let nf = if large { maxf } else { choose("constraints", maxf + 1) };
    let h: Vec<Pat> = if large { (0..nf).map(|i| drawn(&format!("h{}_", i), seed * 31 + i, nx, nx, [5, 0, 1, 9, 0, 3, 30][(i + seed) % 7], true)).collect() } else { (0..nf).map(|i| lower(&format!("h{}_", i), nx, maxk)).collect() };
    note(&format!("{:?}", h.iter().map(|p| (p.rows.clone(), p.cols.clone())).collect::<Vec<_>>()));
    let d = Data { a: empty(0, nx), b: vec![], l: vec![-1.; nx], u: vec![1.; nx], x0: None, j: empty(nf, nx), h, hphi: empty(nx, nx), f: vec![0.; nf], g: vec![0.; nx], phi: 0. };
    let minlp = flag("as minlp");
    let mut nlp;
    let mut direct;
    let prob: &mut ProblemMinlp = if minlp {
        direct = ProblemMinlp::new(zeroed(&d.hphi), d.a.coo(), vec![], zeroed(&d.j), d.h.iter().map(zeroed).collect(), d.l.clone(), d.u.clone(), vec![false; nx], None, eval_fn(&d));
        &mut direct
    } else {
        nlp = nlp_of(&d);
        nlp.as_mut_minlp()
    };
    let total: usize = d.h.iter().map(|p| p.nnz()).sum();
    check("combined pattern size", prob.hcomb().nnz() == total && prob.hcomb().rows() == nx && prob.hcomb().cols() == nx);
    let pattern = (prob.hcomb().row_inds().to_vec(), prob.hcomb().col_inds().to_vec());
    let mut x: Option<Vec<f64>> = None;
    for s in 0..steps {
        if s == 0 || (s + 1 < steps && flag("evaluate")) {
            let v = reals(&format!("x{}_", s), nx);
            prob.evaluate(&v);
            x = Some(v);
        } else {
            let nu = reals(&format!("nu{}_", s), nf);
            prob.combine_h(&nu);
            let hc = prob.hcomb();
            check("combined pattern is constant", hc.row_inds() == &pattern.0[..] && hc.col_inds() == &pattern.1[..]);
            let sc = scale(x.as_ref().unwrap());
            for r in 0..nx { for c in 0..nx {
                let mut want = 0.;
                for (p, n) in d.h.iter().zip(nu.iter()) { want = want + *n * (p.at(r, c) * sc); }
                let mut got = 0.;
                for (i, k, v) in hc.iter() { if *i == r && *k == c { got = got + *v; } }
                prove_same("combined entry", got, want);
            } }
            reached("combined");
        }
    }
    if d.h.iter().any(|p| p.nnz() == 0) && total > 0 { reached("empty block"); }
}

struct Views<'a> { d: &'a Data, c: &'a [f64], p: &'a [bool] }
fn same_all(label: &str, a: &[f64], b: &[f64]) {
    check(&format!("{} length", label), a.len() == b.len());
    for (x, y) in a.iter().zip(b.iter()) { prove_same(label, *x, *y); }
}
fn same_mat(label: &str, m: &CooMat<f64>, p: &Pat) {
    check(&format!("{} pattern", label), m.rows() == p.shape.0 && m.cols() == p.shape.1 && m.row_inds() == &p.rows[..] && m.col_inds() == &p.cols[..]);
    same_all(label, m.data(), &p.vals);
}
fn same_x0(a: Option<&[f64]>, b: &Option<Vec<f64>>) {
    check("x0 present", a.is_some() == b.is_some());
    if let (Some(a), Some(b)) = (a, b) { same_all("x0", a, b); }
}
fn see_milp(m: &ProblemMilp, v: &Views) {
    same_mat("a", m.a(), &v.d.a);
    same_all("b", m.b(), &v.d.b);
    same_all("c", m.c(), v.c);
    same_all("l", m.l(), &v.d.l);
    same_all("u", m.u(), &v.d.u);
    same_x0(m.x0(), &v.d.x0);
    check("p", m.p() == v.p);
    check("dims", m.nx() == v.p.len() && m.na() == v.d.b.len());
}
fn see_minlp(m: &ProblemMinlp, v: &Views) {
    same_mat("a", m.a(), &v.d.a);
    same_all("b", m.b(), &v.d.b);
    same_all("l", m.l(), &v.d.l);
    same_all("u", m.u(), &v.d.u);
    same_x0(m.x0(), &v.d.x0);
    check("p", m.p() == v.p);
    check("dims", m.nx() == v.p.len() && m.na() == v.d.b.len() && m.nf() == v.d.f.len());
    check("j shape", m.j().rows() == v.d.f.len() && m.j().cols() == v.p.len() && m.j().nnz() == v.d.j.nnz());
    check("hessian shapes", m.hphi().rows() == v.p.len() && m.hphi().cols() == v.p.len() && m.h().len() == v.d.f.len() && m.hphi().nnz() == v.d.hphi.nnz());
}
fn see_nlp(m: &ProblemNlp, v: &Views) {
    same_mat("a", m.a(), &v.d.a);
    same_all("b", m.b(), &v.d.b);
    same_all("l", m.l(), &v.d.l);
    same_all("u", m.u(), &v.d.u);
    same_x0(m.x0(), &v.d.x0);
    check("dims", m.nx() == v.p.len() && m.na() == v.d.b.len() && m.nf() == v.d.f.len());
    check("j shape", m.j().rows() == v.d.f.len() && m.j().cols() == v.p.len());
    check("hessian shapes", m.hphi().rows() == v.p.len() && m.h().len() == v.d.f.len());
}
fn dot(c: &[f64], x: &[f64]) -> f64 { let mut s = 0.; for (a, b) in c.iter().zip(x.iter()) { s = s + *a * *b; } s }

/// C23: views of linear problems, and of nonlinear ones.
pub fn c23(p: &[usize]) {
    let (maxx, maxa, maxk, steps) = (p[0], p[1], p[2], p[3]);
    let kind = choose("kind", 3);
    let large = maxk == 99;
    let seed = if large { choose("pattern", p[4]) } else { 0 };
    let nx = if large { maxx } else { 1 + choose("nx", maxx) };
    let na = if large { maxa } else if kind == 2 { 1 } else { choose("na", maxa + 1) };
    let maxk = if kind == 2 { 1 } else { maxk };
    let a = if large { drawn("a", seed, na, nx, 3 * na, false) } else { pattern_of("a", na, nx, maxk) };
    let c = reals("c", nx);
    let mut d = Data { a, b: reals("b", na), l: reals("l", nx), u: reals("u", nx), x0: if kind == 2 || flag("x0") { Some(reals("s", nx)) } else { None },
        j: empty(0, nx), h: vec![], hphi: empty(nx, nx), f: vec![], g: vec![], phi: 0. };
    note(&format!("kind {} nx {} na {} nnz {}", kind, nx, na, d.a.nnz()));
    match kind {
        0 => {
            let pint = vec![false; nx];
            let v = Views { d: &d, c: &c, p: &pint };
            let mut lp = ProblemLp::new(c.clone(), d.a.coo(), d.b.clone(), d.l.clone(), d.u.clone(), d.x0.clone());
            same_mat("a", lp.a(), &d.a);
            same_all("b", lp.b(), &d.b);
            same_all("c", lp.c(), &c);
            same_all("l", lp.l(), &d.l);
            same_all("u", lp.u(), &d.u);
            same_x0(lp.x0(), &d.x0);
            check("dims", lp.nx() == nx && lp.na() == na);
            for s in 0..steps {
                let x = reals(&format!("x{}_", s), nx);
                match choose("view", 3) {
                    0 => { let m = lp.as_mut_nlp(); m.evaluate(&x); see_nlp(m, &v); prove_same("phi", m.phi(), dot(&c, &x)); same_all("gphi", m.gphi(), &c); }
                    1 => { let m = lp.as_mut_minlp(); m.evaluate(&x); see_minlp(m, &v); prove_same("phi", m.phi(), dot(&c, &x)); same_all("gphi", m.gphi(), &c); }
                    _ => {
                        let m = lp.as_mut_milp();
                        see_milp(m, &v);
                        let m = m.as_mut_minlp();
                        m.evaluate(&x);
                        see_minlp(m, &v);
                        prove_same("phi", m.phi(), dot(&c, &x));
                        same_all("gphi", m.gphi(), &c);
                    }
                }
            }
            see_milp(lp.as_mut_milp(), &v);
            reached("lp");
        }
        1 => {
            let pint: Vec<bool> = (0..nx).map(|i| if large { i * i % 3 == seed % 2 } else { flag("integer") }).collect();
            let v = Views { d: &d, c: &c, p: &pint };
            let mut m = ProblemMilp::new(c.clone(), d.a.coo(), d.b.clone(), d.l.clone(), d.u.clone(), pint.clone(), d.x0.clone());
            see_milp(&m, &v);
            for s in 0..steps {
                let x = reals(&format!("x{}_", s), nx);
                let w = m.as_mut_minlp();
                w.evaluate(&x);
                see_minlp(w, &v);
                prove_same("phi", w.phi(), dot(&c, &x));
                same_all("gphi", w.gphi(), &c);
            }
            see_milp(&m, &v);
            reached("milp");
        }
        _ => {
            let nf = if large { 4 } else { choose("nf", 3) };
            d.j = if large { drawn("j", seed + 50, nf, nx, 7, false) } else { pattern_of("j", nf, nx, 1) };
            d.h = (0..nf).map(|i| if large { drawn(&format!("h{}_", i), seed + i, nx, nx, [4, 0, 7, 1][(i + seed) % 4], true) } else { lower(&format!("h{}_", i), nx, 1) }).collect();
            d.hphi = if large { drawn("hphi", seed + 60, nx, nx, 6, true) } else { lower("hphi", nx, 1) };
            d.f = reals("f", nf);
            d.g = reals("g", nx);
            d.phi = real("phi");
            let pint = vec![false; nx];
            let v = Views { d: &d, c: &c, p: &pint };
            let mut m = nlp_of(&d);
            for s in 0..steps {
                let x = reals(&format!("x{}_", s), nx);
                let k = scale(&x);
                let by = |v: &[f64]| -> Vec<f64> { v.iter().map(|t| *t * k).collect() };
                let through = flag("through minlp");
                let other = s + 1 < steps || flag("read through minlp");
                if through { m.as_mut_minlp().evaluate(&x); } else { m.evaluate(&x); }
                if other {
                    let w = m.as_mut_minlp();
                    see_minlp(w, &v);
                    prove_same("phi", w.phi(), d.phi * k);
                    same_all("gphi", w.gphi(), &by(&d.g));
                    same_all("f", w.f(), &by(&d.f));
                    same_all("j", w.j().data(), &by(&d.j.vals));
                    same_all("hphi", w.hphi().data(), &by(&d.hphi.vals));
                    for (a, b) in w.h().iter().zip(d.h.iter()) { same_all("h", a.data(), &by(&b.vals)); }
                } else {
                    see_nlp(&m, &v);
                    prove_same("phi", m.phi(), d.phi * k);
                    same_all("gphi", m.gphi(), &by(&d.g));
                    same_all("f", m.f(), &by(&d.f));
                    same_all("j", m.j().data(), &by(&d.j.vals));
                    same_all("hphi", m.hphi().data(), &by(&d.hphi.vals));
                    for (a, b) in m.h().iter().zip(d.h.iter()) { same_all("h", a.data(), &by(&b.vals)); }
                }
            }
            reached("nlp");
        }
    }
}
