//! C09, C10, C11, C12: models, their standard problem and their solution.

use crate::gen::*;
use numopt::model::*;
use numopt::model::model::Objective;
use numopt::model::model_std::ModelStd;
use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::minlp::ProblemMinlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use simple_error::SimpleError;
use std::cell::RefCell;
use std::collections::HashMap;
use symrt::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Rel { Eq, Le, Ge }

/// A constraint of the harness: sides are program items.
#[derive(Clone)]
pub struct Con { pub l: usize, pub r: usize, pub rel: Rel, pub node: Constraint, pub nonlinear: bool, pub text: &'static str }

/// A model under construction, with its independent description.
pub struct M { pub pr: Prog, pub int: Vec<bool>, pub cons: Vec<Con>, pub obj: Option<(usize, bool)>, pub obj_nonlinear: bool }

pub fn new_model(naming: usize, int: [bool; 2]) -> M {
    let names = match naming { 0 => ["x", "y"], 1 => ["y", "x"], 2 => ["v", "v"], _ => ["_s_a0_", "_s_j0_"] };
    model_of(&names, &int)
}
pub fn model_of(names: &[&str], int: &[bool]) -> M {
    let mut pr = Prog { items: Vec::new(), vars: Vec::new() };
    for i in 0..names.len() {
        let v = if int[i] { VariableScalar::new_integer(names[i]) } else { VariableScalar::new_continuous(names[i]) };
        pr.items.push(Item { op: Var(i), node: Some(v.clone()), val: 0. });
        pr.vars.push(v);
    }
    M { pr, int: int.to_vec(), cons: Vec::new(), obj: None, obj_nonlinear: false }
}
impl M {
    pub fn cst(&mut self, name: &str) -> usize {
        let c = real(name);
        self.pr.items.push(Item { op: Cst, node: Some(ConstantScalar::new(c)), val: c });
        self.pr.last()
    }
    pub fn go(&mut self, op: Op) -> usize { step(&mut self.pr, op, Build::Operators); self.pr.last() }
    pub fn node(&self, i: usize) -> Node { self.pr.items[i].node.clone().unwrap() }
    pub fn con(&mut self, l: usize, rel: Rel, r: usize, nonlinear: bool, text: &'static str) {
        let (a, b) = (self.node(l), self.node(r));
        // labels that several constraints share
        let node = match (rel, self.cons.len() % 4 == 2) {
            (Rel::Eq, true) => a.equal(&b), (Rel::Le, true) => a.leq(&b), (Rel::Ge, true) => a.geq(&b),
            (Rel::Eq, _) => a.equal_and_tag(&b, "t"), (Rel::Le, _) => a.leq_and_tag(&b, "t"), (Rel::Ge, _) => a.geq_and_tag(&b, "t"),
        };
        self.cons.push(Con { l, r, rel, node, nonlinear, text });
    }
    /// Adds a constraint of template `t`.
    pub fn template(&mut self, t: usize) {
        let i = self.cons.len();
        let k = |n: &str| format!("{}{}", n, i);
        let (x, y) = (0, 1);
        match t {
            0 => { let s = self.cst(&k("s")); self.con(x, Rel::Le, s, false, "x <= s") }
            1 => { let s = self.cst(&k("s")); self.con(x, Rel::Ge, s, false, "x >= s") }
            2 => { let s = self.cst(&k("s")); self.con(s, Rel::Ge, y, false, "s >= y") }
            3 => { let (c, s) = (self.cst(&k("c")), self.cst(&k("s"))); let e = self.go(Add(x, c)); self.con(e, Rel::Le, s, false, "x + c <= s") }
            4 => { let (c, s) = (self.cst(&k("c")), self.cst(&k("s"))); let e = self.go(Mul(c, x)); let e = self.go(Add(e, y)); self.con(e, Rel::Eq, s, false, "c*x + y == s") }
            5 => {
                let (c, d, s) = (self.cst(&k("c")), self.cst(&k("d")), self.cst(&k("s")));
                let e = self.go(Mul(c, x));
                let f = self.go(Mul(d, y));
                let e = self.go(Add(e, f));
                self.con(e, Rel::Le, s, false, "c*x + d*y <= s")
            }
            6 => { let s = self.cst(&k("s")); let e = self.go(Mul(x, y)); self.con(e, Rel::Ge, s, true, "x*y >= s") }
            7 => { let (c, s) = (self.cst(&k("c")), self.cst(&k("s"))); let e = self.go(Mul(c, x)); self.con(e, Rel::Ge, s, false, "c*x >= s") }
            8 => { let e = self.go(Sin(x)); self.con(e, Rel::Eq, y, true, "sin(x) == y") }
            9 => { let s = self.cst(&k("s")); let e = self.go(Add(x, y)); let f = self.go(Add(y, s)); self.con(e, Rel::Le, f, false, "x + y <= y + s") }
            10 => { let (c, s) = (self.cst(&k("c")), self.cst(&k("s"))); self.con(c, Rel::Le, s, false, "c <= s") }
            11 => { let s = self.cst(&k("s")); self.con(x, Rel::Eq, s, false, "x == s") }
            12 => { let e = self.go(Mul(x, x)); self.con(e, Rel::Le, y, true, "x*x <= y") }
            13 => { let e = self.go(Neg(x)); let s = self.cst(&k("s")); self.con(e, Rel::Le, s, false, "-x <= s") }
            15 => { let s = self.cst(&k("s")); let e = self.go(Mul(x, y)); self.con(s, Rel::Eq, e, true, "s == x*y") }
            16 => { let (c, s) = (self.cst(&k("c")), self.cst(&k("s"))); let e = self.go(Mul(c, x)); let e = self.go(Add(e, y)); self.con(s, Rel::Eq, e, false, "s == c*x + y") }
            17 => { let (c, s) = (self.cst(&k("c")), self.cst(&k("s"))); let e = self.go(Mul(c, y)); let f = self.go(Sub(s, x)); self.con(f, Rel::Le, e, false, "s - x <= c*y") }
            18 => { let s = self.cst(&k("s")); let e = self.go(Sin(x)); let e = self.go(Mul(e, y)); self.con(s, Rel::Ge, e, true, "s >= sin(x)*y") }
            _ => { self.con(x, Rel::Le, y, false, "x <= y") }
        }
    }
    /// A larger model: `k` constraints over all variables, drawn from a fixed seed. Coefficients are
    /// numbers; `limits` limits and as many right-hand sides of rows are any real number, others given.
    pub fn large(&mut self, seed: usize, k: usize, limits: usize) {
        if seed % 2 == 1 { past(); }
        let n = self.pr.vars.len();
        let mut r = (seed as u64 + 77).wrapping_mul(0x9e3779b97f4a7c15);
        let mut pick = |n: usize| { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((r >> 33) % n as u64) as usize };
        let coef = [2., -1., 0.5, -4., 1., 8., -0.25];
        let (mut free, mut rows) = (limits, limits);
        let linear = seed % 3 == 0;
        for i in 0..k {
            let rel = [Rel::Eq, Rel::Le, Rel::Ge][pick(3)];
            let (a, b) = (pick(n), pick(n));
            let kind = pick(if linear { 4 } else { 7 });
            let limit = kind < 2 && rel != Rel::Eq;
            let s = if limit {
                if free > 0 { free -= 1; self.cst(&format!("s{}", i)) } else { self.num([3., -2.5, 100., 0., -7.][pick(5)]) }
            } else if rows > 0 { rows -= 1; self.cst(&format!("s{}", i)) } else { self.num([3.5, -2., 64., 0., -7.][pick(5)]) };
            match kind {
                0 | 1 => self.con(a, rel, s, false, "limit"),
                2 | 3 => {
                    let mut e = self.num(coef[pick(7)]);
                    e = self.go(Mul(e, a));
                    for _ in 0..1 + pick(3) {
                        let c = self.num(coef[pick(7)]);
                        let t = self.go(Mul(c, pick(n)));
                        e = self.go(if pick(4) == 0 { Sub(e, t) } else { Add(e, t) });
                    }
                    self.con(e, rel, s, false, "linear")
                }
                4 => { let e = self.go(Mul(a, b)); let c = self.num(coef[pick(7)]); let t = self.go(Mul(c, pick(n))); let e = self.go(Add(e, t)); self.con(e, rel, s, true, "a*b + c*d") }
                5 => { let e = self.go(Sin(a)); let e = self.go(Mul(e, b)); self.con(e, rel, s, true, "sin(a)*b") }
                _ => { let c = self.num(coef[pick(7)]); let e = self.go(Mul(a, a)); let e = self.go(Mul(c, e)); let f = self.go(Cos(b)); let e = self.go(Sub(e, f)); let d = pick(n); let t = self.go(Add(d, s)); self.con(e, rel, t, true, "c*a*a - cos(b) ~ d + s") }
            }
        }
        let mut e = pick(n);
        for _ in 0..3 {
            let c = self.num(coef[pick(7)]);
            let t = self.go(Mul(c, pick(n)));
            e = self.go(Add(e, t));
        }
        self.obj_nonlinear = !linear && pick(2) == 0;
        if self.obj_nonlinear { let (a, b) = (pick(n), pick(n)); let t = self.go(Mul(a, b)); e = self.go(Sub(e, t)); let u = self.go(Sin(pick(n))); e = self.go(Add(e, u)); }
        self.obj = Some((e, pick(2) == 0));
    }
    pub fn num(&mut self, v: f64) -> usize {
        self.pr.items.push(Item { op: Cst, node: Some(ConstantScalar::new(v)), val: v });
        self.pr.last()
    }
    pub fn objective(&mut self, o: usize, max: bool) {
        let (x, y) = (0, 1);
        let e = match o {
            0 => { self.obj = None; return }
            1 => { let c = self.cst("oc"); let e = self.go(Mul(c, x)); self.go(Add(e, y)) }
            2 => { self.obj_nonlinear = true; let d = self.cst("od"); let e = self.go(Mul(x, x)); let f = self.go(Mul(d, y)); self.go(Add(e, f)) }
            3 => self.cst("oc"),
            4 => { self.obj_nonlinear = true; self.go(Mul(x, y)) }
            5 => { self.obj_nonlinear = true; self.go(Cos(y)) }
            6 => { let c = self.cst("oc"); let e = self.go(Mul(c, x)); let d = self.cst("od"); self.go(Sub(d, e)) }
            _ => { self.obj_nonlinear = false; x }
        };
        self.obj = Some((e, max));
    }
    pub fn build(&self) -> Model {
        let mut m = Model::new();
        self.put_objective(&mut m);
        for c in self.cons.iter() { m.add_constraint(&c.node); }
        m
    }
    pub fn put_objective(&self, m: &mut Model) {
        match self.obj {
            None => m.set_objective(Objective::empty()),
            Some((e, false)) => m.set_objective(Objective::minimize(&self.node(e))),
            Some((e, true)) => m.set_objective(Objective::maximize(&self.node(e))),
        }
    }
    pub fn describe(&self) -> String {
        let o = match self.obj { None => "empty".to_string(), Some((e, max)) => format!("{} {}", if max { "max" } else { "min" }, self.pr.describe(e)) };
        format!("{}; {}", o, self.cons.iter().map(|c| c.text).collect::<Vec<_>>().join("; "))
    }
    pub fn sat(&self, js: &[f64]) -> Vec<B> {
        self.cons.iter().map(|c| match c.rel {
            Rel::Eq => eq(js[c.l], js[c.r]),
            Rel::Le => le(js[c.l], js[c.r]),
            Rel::Ge => le(js[c.r], js[c.l]),
        }).collect()
    }
    /// Does variable `v` occur in the written model, with what the path knows about its coefficients?
    pub fn occurs(&self, v: usize) -> bool {
        self.obj.map_or(false, |o| used(&self.pr, o.0, v)) || self.cons.iter().any(|c| used(&self.pr, c.l, v) || used(&self.pr, c.r, v))
    }
}

/// The minlp view of a standard problem, and its class.
pub fn minlp_of(p: &mut Problem) -> (usize, &mut ProblemMinlp) {
    match p {
        Problem::Lp(p) => (0, p.as_mut_minlp()),
        Problem::Milp(p) => (1, p.as_mut_minlp()),
        Problem::Nlp(p) => (2, p.as_mut_minlp()),
        Problem::Minlp(p) => (3, p),
    }
}
const BIG: f64 = 1e8;

/// C09: the standard problem represents the model.
pub fn c09(p: &[usize]) {
    let (m, tset, oset, vary) = (p[0], p[1], p[2], p[3]);
    let (mut naming, mut int, mut x0s) = (0, [false, true], 0);
    if vary == 1 {
        hash_seed(choose("hash seed", 2) as u64 + 7);
        naming = choose("naming", 4);
        int = [flag("x integer"), flag("y integer")];
        x0s = choose("initial", 6);
    }
    if tset == LARGE {
        let seed = choose("model", m) + oset;
        let names: Vec<String> = (0..vary).map(|i| format!("x{}", i)).collect();
        let mut md = model_of(&names.iter().map(|n| &n[..]).collect::<Vec<_>>(), &(0..vary).map(|i| i % 3 == 1 && seed % 4 != 0).collect::<Vec<_>>());
        md.large(seed, p[4], 2);
        return c09_of(md, 3);
    }
    let mut md = new_model(naming, int);
    let sets: [&[usize]; 4] = [&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], &[5, 6], &[1, 4, 6, 8, 9], &[0, 5, 8, 10, 12]];
    let objs: [&[usize]; 3] = [&[0, 1, 2], &[0, 1, 2, 3, 4, 5, 6], &[1, 4]];
    let o = objs[oset][choose("objective", objs[oset].len())];
    let max = o > 0 && flag("maximize");
    md.objective(o, max);
    let n = choose("constraints", m + 1);
    for _ in 0..n {
        let t = sets[tset][choose("template", sets[tset].len())];
        md.template(t);
    }
    note(&format!("naming {}", naming));
    c09_of(md, x0s)
}
/// In place of the set of templates: larger models.
const LARGE: usize = 9;
fn c09_of(md: M, x0s: usize) {
    let nv = md.pr.vars.len();
    let int = &md.int;
    note(&format!("{}; int {:?} x0 {}", md.describe(), int, x0s));
    // constants within the modelled range
    for it in md.pr.items.iter() { if it.op == Cst { assume(&and(&le(-1e7, it.val), &le(it.val, 1e7))); } }

    let mut model = md.build();
    let other = VariableScalar::new_continuous("other");
    let init: Vec<Option<f64>> = (0..nv).map(|i| if (x0s > 2 && x0s < 5) || x0s == i + 1 || (x0s == 5 && i == 1) { Some(real(&format!("i{}", i))) } else { None }).collect();
    if x0s > 0 {
        let mut h: HashMap<&Node, f64> = HashMap::new();
        if x0s > 3 {
            // an earlier call is replaced as a whole
            h.insert(&md.pr.vars[0], real("old"));
            h.insert(&other, real("stray"));
            model.set_init_primals(&h);
            h.clear();
        }
        for i in 0..nv { if let Some(v) = init[i] { h.insert(&md.pr.vars[i], v); } }
        if x0s == 3 { h.insert(&other, real("stray")); }
        model.set_init_primals(&h);
    }
    let mut sp = model.std_problem();
    let var2index = sp.var2index;
    let nx = var2index.len();
    // columns
    let mut col: Vec<Option<Node>> = vec![None; nx];
    for (v, i) in var2index.iter() {
        check("column in range", *i < nx);
        check("column of one variable", col[*i].is_none());
        col[*i] = Some(v.clone());
    }
    let orig: Vec<Option<usize>> = (0..nx).map(|i| md.pr.vars.iter().position(|v| col[i].as_ref() == Some(v))).collect();
    let (class, pb) = minlp_of(&mut sp.prob);
    check("dimensions", pb.nx() == nx && pb.l().len() == nx && pb.u().len() == nx && pb.p().len() == nx && pb.a().cols() == nx
        && pb.a().rows() == pb.b().len() && pb.gphi().len() == nx && pb.j().cols() == nx && pb.j().rows() == pb.f().len() && pb.h().len() == pb.f().len());
    for v in 0..nv {
        let has = orig.iter().any(|o| *o == Some(v));
        if !md.occurs(v) { check("no column for a variable that does not occur", !has); }
        else if !has {
            // its coefficients vanish: no value of the model may depend on it
            let a: Vec<f64> = (0..nv).map(|i| real(&format!("d{}", i))).collect();
            let mut b = a.clone();
            b[v] = real("other");
            let (ja, jb) = (md.pr.vals(&a), md.pr.vals(&b));
            if let Some((e, _)) = md.obj { prove_same("variable without column in the objective", ja[e], jb[e]); }
            for c in md.cons.iter() { prove_same("variable without column in a constraint", ja[c.l] - ja[c.r], jb[c.l] - jb[c.r]); }
            reached("vanished");
        }
    }
    // integrality
    for i in 0..nx {
        check("integer columns", pb.p()[i] == match orig[i] { Some(v) => int[v], None => false });
    }
    // initial point
    let x0 = pb.x0().map(|v| v.to_vec());
    check("initial point present", x0.as_ref().map_or(false, |v| v.len() == nx));
    for (i, v) in x0.unwrap().iter().enumerate() {
        match orig[i] {
            Some(k) => prove("initial value", &same(*v, init[k].unwrap_or(0.))),
            None => prove("initial value of an auxiliary variable", &same(*v, 0.)),
        }
    }
    // class
    let nonlinear = md.cons.iter().any(|c| c.nonlinear) || (md.obj.is_some() && md.obj_nonlinear);
    let integer = (0..nx).any(|i| pb.p()[i]);
    check("class", class == match (nonlinear, integer) { (false, false) => 0, (false, true) => 1, (true, false) => 2, (true, true) => 3 });
    reached(["lp", "milp", "nlp", "minlp"][class]);

    // objective, up to a constant
    let xs: Vec<f64> = (0..nv).map(|i| real(&format!("v{}", i))).collect();
    let ys: Vec<f64> = (0..nv).map(|i| real(&format!("w{}", i))).collect();
    let js = md.pr.vals(&xs);
    let jy = md.pr.vals(&ys);
    let full = |z: &[f64], aux: f64| -> Vec<f64> { (0..nx).map(|i| orig[i].map_or(aux, |v| z[v])).collect() };
    let at = |pb: &mut ProblemMinlp, z: &[f64], aux: f64| -> f64 { pb.evaluate(&full(z, aux)); pb.phi() };
    let (pa, pc) = (at(pb, &xs, 0.), at(pb, &ys, real("aux")));
    let want = match md.obj { None => 0., Some((e, false)) => js[e] - jy[e], Some((e, true)) => jy[e] - js[e] };
    prove_same("objective", pa - pc, want);

    // feasible points: every row determines its auxiliary variable
    pb.evaluate(&full(&xs, 0.));
    let mut aux: Vec<Option<f64>> = vec![None; nx];
    let mut conds: Vec<B> = Vec::new();
    let mut boxed: Vec<B> = xs.iter().map(|v| and(&le(-BIG, *v), &le(*v, BIG))).collect();
    for r in 0..pb.b().len() {
        let mut sum = 0. - pb.b()[r];
        let mut ks: Vec<(usize, f64)> = Vec::new();
        for (row, c, v) in pb.a().iter() {
            check("entry in range", *row < pb.b().len() && *c < nx);
            if *row == r { match orig[*c] { Some(k) => sum = sum + *v * xs[k], None => ks.push((*c, *v)) } }
        }
        match ks.len() {
            0 => conds.push(eq(sum, 0.)),
            _ => {
                check("one auxiliary variable per row", ks.len() == 1 && aux[ks[0].0].is_none());
                prove("auxiliary coefficient is not zero", &ne(ks[0].1, 0.));
                aux[ks[0].0] = Some((0. - sum) / ks[0].1);
            }
        }
        reached("linear row");
    }
    let f0 = pb.f().to_vec();
    for r in 0..f0.len() {
        let ks: Vec<(usize, f64)> = pb.j().iter().filter(|t| *t.0 == r && orig[*t.1].is_none()).map(|t| (*t.1, *t.2)).collect();
        if ks.len() > 0 {
            check("one auxiliary variable per row", ks.len() == 1 && aux[ks[0].0].is_none());
            prove("auxiliary coefficient is not zero", &ne(ks[0].1, 0.));
            aux[ks[0].0] = Some((0. - f0[r]) / ks[0].1);
        }
        reached("nonlinear row");
    }
    for i in 0..nx { if orig[i].is_none() {
        check("auxiliary variable occurs in a row", aux[i].is_some());
        boxed.push(and(&le(-BIG, aux[i].unwrap()), &le(aux[i].unwrap(), BIG)));
    } }
    let z: Vec<f64> = (0..nx).map(|i| orig[i].map_or_else(|| aux[i].unwrap(), |v| xs[v])).collect();
    pb.evaluate(&z);
    for f in pb.f().iter() { conds.push(eq(*f, 0.)); }
    for i in 0..nx { conds.push(le(pb.l()[i], z[i])); conds.push(le(z[i], pb.u()[i])); }
    let sat = md.sat(&js);
    prove("feasible points", &implies(&all(&boxed), &iff(&all(&sat), &all(&conds))));
}

/// C10 (bit-precise): limits and their constraints.
pub fn c10(p: &[usize]) {
    let m = p[0];
    let forms = p[1];
    let x = VariableScalar::new_continuous("x");
    let y = VariableScalar::new_continuous("y");
    let w = VariableScalar::new_integer("w");
    let many = p.get(4).copied().unwrap_or(0);
    let seed = if many > 0 { choose("model", many) } else { 0 };
    let all_vars = [&x, &y, &w];
    let vars = &all_vars[..if many > 0 { 3 } else { 2 }];
    let mut model = Model::new();
    if many > 0 { model.set_objective(Objective::maximize(&(&x + &y + &w))); } else { model.set_objective(Objective::minimize(&(&x + &y))); }
    // (variable, upper?, value, constraint) of every bound constraint
    let mut bounds: Vec<(usize, bool, f64, Constraint)> = Vec::new();
    let mut text = Vec::new();
    for i in 0..m {
        let f = if many > 0 { (i * [3, 5, 1][seed % 3] + i * i / 3 + seed) % forms } else { choose("form", forms) };
        let v = if many > 0 { (i * (1 + seed % 2) + seed / 3) % 3 } else if f < 4 && p[2] == 1 { choose("variable", 2) } else { 0 };
        let s = any(&format!("s{}", i));
        assume(&not(&isnan(s)));
        let w = vars[v];
        let c = match f {
            0 => w.leq_and_tag(s, "t"),
            1 => s.leq_and_tag(w, "t"),
            2 => w.geq_and_tag(s, "t"),
            3 => s.geq(w),
            4 => w.equal_and_tag(s, "t"),
            5 => (w + &y).leq_and_tag(s, "t"),
            _ => (w * &y).geq(s),
        };
        if f < 4 { bounds.push((v, f == 0 || f == 3, s, c.clone())); }
        text.push(["v<=s", "s<=v", "v>=s", "s>=v", "v==s", "v+y<=s", "v*y>=s"][f].replace('v', ["x", "y", "w"][v]));
        model.add_constraint(&c);
        if p[3] == 1 && i == 0 && flag("twice") { model.add_constraint(&c); }
    }
    note(&text.join("; "));
    let mut sp = model.std_problem();
    let (u2c, l2c, v2i) = (&sp.uindex2constr, &sp.lindex2constr, &sp.var2index);
    // a constraint written with the number on the left may be translated to a row instead of a limit
    let row = |c: &Constraint| sp.aindex2constr.values().any(|k| k == c);
    bounds.retain(|b| {
        let left = b.3.lhs() == vars[b.0];
        check("a limit with the variable on the left is not a row", !left || !row(&b.3));
        left || !row(&b.3)
    });
    let (_, pb) = minlp_of(&mut sp.prob);
    for (v, w) in vars.iter().enumerate() {
        check("has a column", v2i.contains_key(*w));
        let i = v2i[*w];
        for up in [true, false] {
            let lim = if up { pb.u()[i] } else { pb.l()[i] };
            observe("limit", lim);
            let rec = if up { u2c.get(&i) } else { l2c.get(&i) };
            let big = if up { 1e8 } else { -1e8 };
            let tighter = |a: f64, b: f64| if up { le(a, b) } else { le(b, a) };
            let here: Vec<&(usize, bool, f64, Constraint)> = bounds.iter().filter(|b| b.0 == v && b.1 == up).collect();
            // the tightest one: one of the stated values (or the default), not looser than any
            let mut vals: Vec<f64> = here.iter().map(|b| b.2).collect();
            vals.push(big);
            prove("limit is a stated one", &any_of(&vals.iter().map(|s| eq(lim, *s)).collect::<Vec<_>>()));
            for s in vals.iter() { prove("limit is the tightest", &tighter(lim, *s)); }
            match rec {
                Some(c) => {
                    let k = here.iter().find(|b| b.3 == *c);
                    check("recorded constraint is a bound of this variable", k.is_some());
                    prove("recorded constraint states the limit", &eq(k.unwrap().2, lim));
                    reached("recorded");
                }
                None => {
                    prove("a stated limit has its constraint", &eq(lim, big));
                    for b in here.iter() { prove("a limit stated at the default has its constraint", &not(&eq(b.2, big))); }
                    reached("no limit");
                }
            }
        }
    }
    for (i, c) in u2c.iter().chain(l2c.iter()) {
        check("recorded index", *i < pb.nx());
        check("recorded constraint is the model's", model.constraints().contains(c));
    }
}

// ---------------------------------------------------------------- C11

struct Stub { out: RefCell<Vec<Option<SolverStatus>>>, params: HashMap<String, SolverParam>, log: RefCell<Vec<Shot>> }
/// What the stub solver saw and returned.
pub struct Shot { class: usize, x0: Vec<f64>, b: Vec<f64>, a: Vec<(usize, usize, f64)>, l: Vec<f64>, u: Vec<f64>, gphi: Vec<f64>, phi: f64, f: Vec<f64>, j: Vec<(usize, usize, f64)>, sol: ProblemSol, point: Vec<f64> }

impl Solver for Stub {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.params }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.params }
    fn solve(&self, problem: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let t = self.log.borrow().len();
        let status = self.out.borrow_mut().remove(0);
        let (class, pb) = minlp_of(problem);
        let (nx, na, nf) = (pb.nx(), pb.na(), pb.nf());
        // a point that tells the columns of the model's variables (by their initial values) apart
        let x0 = pb.x0().unwrap().to_vec();
        let point: Vec<f64> = x0.iter().map(|v| *v).collect();
        pb.evaluate(&point);
        let mut sol = ProblemSol::new(nx, na, nf);
        let fresh = |n: &str, k: usize| -> Vec<f64> { (0..k).map(|i| real(&format!("{}{}_{}", n, t, i))).collect() };
        sol.x = fresh("x", nx);
        sol.lam = fresh("lam", na);
        sol.nu = fresh("nu", nf);
        sol.mu = fresh("mu", nx);
        sol.pi = fresh("pi", nx);
        let copy = ProblemSol { x: sol.x.clone(), lam: sol.lam.clone(), nu: sol.nu.clone(), mu: sol.mu.clone(), pi: sol.pi.clone() };
        self.log.borrow_mut().push(Shot {
            class, x0, b: pb.b().to_vec(), a: pb.a().iter().map(|t| (*t.0, *t.1, *t.2)).collect(), l: pb.l().to_vec(), u: pb.u().to_vec(),
            gphi: pb.gphi().to_vec(), phi: pb.phi(), f: pb.f().to_vec(), j: pb.j().iter().map(|t| (*t.0, *t.1, *t.2)).collect(), sol: copy, point,
        });
        match status { Some(s) => Ok((s, sol)), None => Err(SimpleError::new("stub failure")) }
    }
}

/// A constraint that can be found in the standard problem by its numbers.
struct Known { con: Constraint, kind: usize, rhs: f64, tag: f64 }

fn status_of(i: usize) -> Option<SolverStatus> {
    match i { 0 => Some(SolverStatus::Solved), 1 => Some(SolverStatus::Infeasible), 2 => Some(SolverStatus::Error), 3 => Some(SolverStatus::Unknown), _ => None }
}

/// C11: solving publishes the solver's result.
pub fn c11(p: &[usize]) {
    let (m, solves, kinds) = (p[0], p[1], p[2]);
    let x = VariableScalar::new_continuous("x");
    let y = VariableScalar::new_continuous("y");
    let mut model = Model::new();
    let (px, py) = (101., 102.);
    let mut h: HashMap<&Node, f64> = HashMap::new();
    h.insert(&x, px);
    h.insert(&y, py);
    model.set_init_primals(&h);
    let mut known: Vec<Known> = Vec::new();
    // a larger model, all constraints given
    let many = p.get(3).copied().unwrap_or(0);
    let seed = if many > 0 { choose("model", many) } else { 0 };
    let add = |model: &mut Model, known: &mut Vec<Known>| {
        let i = known.len();
        // distinct right-hand sides name the constraints
        let rhs = 3. + i as f64;
        let k = if many > 0 { (i * [3, 7, 1, 9][seed % 4] + i * i / 5 + seed) % kinds } else { choose("constraint", kinds) };
        // labels are shared between constraints
        let tag = if i % 4 == 2 { "" } else { "t" };
        let con = match k {
            0 => x.leq_and_tag(rhs, tag),
            1 => x.geq_and_tag(rhs, tag),
            2 => (2. * &x + &y).equal_and_tag(rhs, tag),
            3 => (2. * &x + &y).leq_and_tag(rhs, tag),
            4 => (&x + 2. * &y).geq_and_tag(rhs, tag),
            5 => (&x * &y).equal_and_tag(rhs, tag),
            6 => (&x * &y).leq_and_tag(rhs, tag),
            7 => (&x * &y).geq_and_tag(rhs, tag),
            8 => y.leq_and_tag(rhs, tag),
            _ => y.geq_and_tag(rhs, tag),
        };
        model.add_constraint(&con);
        // value of lhs - rhs at the probe point, for nonlinear rows
        known.push(Known { con, kind: k, rhs, tag: px * py - rhs });
    };
    let k0 = if many > 0 { m } else { choose("constraints", m + 1) };
    for _ in 0..k0 { add(&mut model, &mut known); }
    let mut objective = choose("objective", 3);
    let put = |model: &mut Model, o: usize| match o {
        0 => model.set_objective(Objective::minimize(&(7. * &x + 9. * &y))),
        1 => model.set_objective(Objective::maximize(&(7. * &x + 9. * &y))),
        _ => model.set_objective(Objective::minimize(&(&x * &x + 9. * &y))),
    };
    put(&mut model, objective);
    let mut stub = Stub { out: RefCell::new(Vec::new()), params: HashMap::new(), log: RefCell::new(Vec::new()) };
    check("nothing before the first solve", model.solver_status().is_none() && model.final_primals().is_empty() && model.final_duals().is_empty());
    note(&format!("constraints {:?}", known.iter().map(|k| k.kind).collect::<Vec<_>>()));
    let (mut cx, mut cy) = (px, py);
    for t in 0..solves {
        if t > 0 {
            match choose("edit", 5) {
                1 => add(&mut model, &mut known),
                2 => { objective = (objective + 1) % 3; put(&mut model, objective); }
                e @ 3..=4 => {
                    // both variables, or only one: the other one's value goes back to zero
                    cx = 203. + t as f64 * 10.;
                    cy = if e == 3 { 305. + t as f64 * 10. } else { 0. };
                    let mut h: HashMap<&Node, f64> = HashMap::new();
                    h.insert(&x, cx);
                    if e == 3 { h.insert(&y, cy); }
                    model.set_init_primals(&h);
                }
                _ => (),
            }
            for k in known.iter_mut() { k.tag = cx * cy - k.rhs; }
        }
        let out = choose("outcome", 5);
        *stub.out.get_mut() = vec![status_of(out)];
        let r = model.solve(&stub);
        check("one call per solve", stub.log.borrow().len() == t + 1);
        let log = stub.log.borrow();
        let s = &log[t];
        // the problem passed is the current model's
        let xi: Vec<usize> = (0..s.x0.len()).filter(|i| s.x0[*i] == cx).collect();
        // the only other variable of the objective
        let yi: Vec<usize> = (0..s.x0.len()).filter(|i| s.x0[*i] == cy && (cy != 0. || s.gphi[*i].abs() == 9.)).collect();
        check("current initial values", xi.len() == 1 && yi.len() == 1 && s.x0.iter().all(|v| *v == 0. || *v == cx || *v == cy));
        let (xi, yi) = (xi[0], yi[0]);
        let g = match objective { 0 => (7., 9.), 1 => (-7., -9.), _ => (2. * cx, 9.) };
        check("current objective", s.gphi[xi] == g.0 && s.gphi[yi] == g.1 && s.phi == match objective { 0 => 7. * cx + 9. * cy, 1 => -7. * cx - 9. * cy, _ => cx * cx + 9. * cy });
        let rows = known.iter().filter(|k| (2..=4).contains(&k.kind)).count();
        let frows = known.iter().filter(|k| (5..=7).contains(&k.kind)).count();
        check("current constraints", s.b.len() == rows && s.f.len() == frows);
        check("class", s.class == if frows > 0 || objective == 2 { 2 } else { 0 });
        match status_of(out) {
            None => {
                check("failure is reported", r.is_err());
                check("nothing remains after a failure", model.solver_status().is_none() && model.final_primals().is_empty() && model.final_duals().is_empty());
                reached("failed");
                continue;
            }
            Some(st) => {
                check("success is reported", r.is_ok());
                check("status", model.solver_status() == Some(&st));
            }
        }
        let prim = model.final_primals();
        check("every variable has a value", prim.contains_key(&x) && prim.contains_key(&y) && prim.len() == s.x0.len());
        prove_same("value of x", prim[&x], s.sol.x[xi]);
        prove_same("value of y", prim[&y], s.sol.x[yi]);
        let duals = model.final_duals();
        check("duals of the model's constraints only", duals.keys().all(|c| known.iter().any(|k| k.con == **c)));
        for k in known.iter() {
            let d = duals.get(&k.con).copied();
            let aux = |row: usize, lin: bool| -> usize {
                let e: Vec<usize> = (if lin { &s.a } else { &s.j }).iter().filter(|t| t.0 == row && t.1 != xi && t.1 != yi).map(|t| t.1).collect();
                check("one auxiliary variable", e.len() == 1);
                e[0]
            };
            let find = |v: &[f64], w: f64| -> usize {
                let e: Vec<usize> = (0..v.len()).filter(|i| v[*i] == w).collect();
                check("row of the constraint", e.len() == 1);
                e[0]
            };
            let want = match k.kind {
                0 | 8 => { let c = if k.kind == 0 { xi } else { yi }; if s.u[c] == k.rhs { Some(s.sol.mu[c]) } else { None } }
                1 | 9 => { let c = if k.kind == 1 { xi } else { yi }; if s.l[c] == k.rhs { Some(s.sol.pi[c]) } else { None } }
                2 => Some(s.sol.lam[find(&s.b, k.rhs)]),
                3 => Some(s.sol.mu[aux(find(&s.b, k.rhs), true)]),
                4 => Some(s.sol.pi[aux(find(&s.b, k.rhs), true)]),
                5 => Some(s.sol.nu[find(&s.f, k.tag)]),
                6 => Some(s.sol.mu[aux(find(&s.f, k.tag), false)]),
                _ => Some(s.sol.pi[aux(find(&s.f, k.tag), false)]),
            };
            match want {
                Some(w) => { check("dual present", d.is_some()); prove_same("dual", d.unwrap(), w); reached("dual"); }
                None => prove_same("dual of a limit that is not in force", d.unwrap_or(0.), 0.),
            }
        }
        reached("published");
    }
}

/// C12: evaluation of a nonlinear standard problem at a sequence of points.
pub fn c12(p: &[usize]) {
    let steps = p[3];
    if p[0] == SHAPES {
        let (count, first, nv, k) = (p[1], p[2], p[4], p[5]);
        let seed = first + choose("model", count);
        // names in reverse order of creation for half of the models
        let names: Vec<String> = (0..nv).map(|i| format!("x{}", if seed % 2 == 0 { i } else { nv - i })).collect();
        let mut md = model_of(&names.iter().map(|n| &n[..]).collect::<Vec<_>>(), &(0..nv).map(|i| i % 3 == 1 && seed % 4 != 0).collect::<Vec<_>>());
        hash_seed(seed as u64 + 5);
        md.large(3 * (seed / 2) + 1 + seed % 2, k, 1);
        return c12_of(md, steps);
    }
    let g = Gen { nv: 2, nc: p[0], ns: 0, k: p[1], ops: p[2] as u32, build: Build::Operators, int: false };
    let naming = choose("reversed names", 2);
    let mut md = new_model(naming, [false, flag("integer")]);
    for i in 0..g.nc { md.cst(&format!("C{}", i)); }
    let mut pr = std::mem::replace(&mut md.pr, Prog { items: vec![], vars: vec![] });
    pr = grow(pr, &g);
    md.pr = pr;
    let e = md.pr.last();
    // the expression is the objective or a constraint; a second nonlinear one accompanies it
    let place = choose("place", 3);
    match place {
        0 => { md.obj = Some((e, flag("maximize"))); md.template(12); }
        1 => { let s = md.cst("s"); md.con(e, [Rel::Eq, Rel::Le, Rel::Ge][choose("relation", 3)], s, false, "expr ~ s"); md.objective(4, false); }
        _ => { md.template(6); let s = md.cst("s"); md.con(e, Rel::Le, s, false, "expr <= s"); md.template(8); md.objective(1, true); }
    }
    note(&format!("naming {}", naming));
    c12_of(md, steps)
}
fn c12_of(md: M, steps: usize) {
    let nv = md.pr.vars.len();
    note(&md.describe());
    let model = md.build();
    let mut sp = model.std_problem();
    let j2c: HashMap<usize, Constraint> = sp.jindex2constr;
    let var2index = sp.var2index;
    let nx = var2index.len();
    let mut orig: Vec<Option<usize>> = vec![None; nx];
    for (v, i) in var2index.iter() { orig[*i] = md.pr.vars.iter().position(|w| w == v); }
    let (class, pb) = minlp_of(&mut sp.prob);
    if class < 2 { discard("linear"); }
    for m in std::iter::once(pb.hphi()).chain(pb.h().iter()) {
        check("Hessians are lower triangular", m.iter().all(|t| *t.1 <= *t.0 && *t.0 < nx));
    }
    check("Jacobian in range", pb.j().iter().all(|t| *t.0 < pb.f().len() && *t.1 < nx));
    for t in 0..steps {
        let xs: Vec<f64> = (0..nv).map(|i| real(&format!("v{}_{}", t, i))).collect();
        let aux: Vec<f64> = (0..nx).map(|i| if orig[i].is_none() { real(&format!("a{}_{}", t, i)) } else { 0. }).collect();
        let z: Vec<f64> = (0..nx).map(|i| orig[i].map_or(aux[i], |v| xs[v])).collect();
        let js = md.pr.jets(&xs);
        pb.evaluate(&z);
        if t + 1 < steps && t > 0 && flag("skip") { continue; }
        let zero = Jet::cst(0., nv);
        let phi = match md.obj { None => zero.clone(), Some((e, false)) => js[e].clone(), Some((e, true)) => js[e].neg() };
        prove_same("objective value", pb.phi(), phi.v);
        check("gradient length", pb.gphi().len() == nx);
        for i in 0..nx { prove_same("objective gradient", pb.gphi()[i], orig[i].map_or(0., |v| phi.g[v])); }
        let hess = |m: &CooMat<f64>, want: &Jet, label: &str| {
            for r in 0..nx { for c in 0..=r {
                let mut got = 0.;
                for (i, k, v) in m.iter() { if *i == r && *k == c { got = got + *v; } }
                prove_same(label, got, match (orig[r], orig[c]) { (Some(a), Some(b)) => want.h[a][b], _ => 0. });
            } }
        };
        hess(pb.hphi(), &phi, "objective Hessian");
        for r in 0..pb.f().len() {
            let c = md.cons.iter().find(|c| Some(&c.node) == j2c.get(&r));
            check("row of a constraint", c.is_some());
            let c = c.unwrap();
            let d = js[c.l].sub(&js[c.r]);
            let mut grad = vec![0.; nx];
            for (i, k, v) in pb.j().iter() { if *i == r { grad[*k] = grad[*k] + *v; } }
            let mut want = d.v;
            for i in 0..nx {
                match orig[i] {
                    Some(v) => prove_same("Jacobian", grad[i], d.g[v]),
                    None => want = want + grad[i] * aux[i],
                }
            }
            prove_same("constraint value", pb.f()[r], want);
            hess(&pb.h()[r], &d, "constraint Hessian");
            reached("constraint");
        }
        if t > 0 { reached("again"); }
    }
}
