//! Expression programs and their independent interpretation.
//!
//! A program is a list of operations over a growing pool of operands; which operations and
//! operands are used is a nondeterministic choice of the exploration, the constants are symbolic.
//! `jet` interprets the *written* program (never the library's expression) and its first and
//! second derivatives by forward differentiation.

use numopt::model::*;
use numopt::model::{constraint_std::ConstraintStd, model_std::ModelStd, node_std::NodeStd};
use numopt::model::function::{add::FunctionAdd, mul::FunctionMul, div::FunctionDiv, sin::FunctionSin, cos::FunctionCos};
use std::collections::HashMap;
use symrt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Var(usize), Cst, Scalar, Sum(&'static [usize]), Add(usize, usize), Sub(usize, usize), Mul(usize, usize), Div(usize, usize), Neg(usize), Sin(usize), Cos(usize) }
pub use Op::*;

pub struct Item { pub op: Op, pub node: Option<Node>, pub val: f64 }

pub struct Prog { pub items: Vec<Item>, pub vars: Vec<Node> }

/// Value, gradient and Hessian.
#[derive(Clone)]
pub struct Jet { pub v: f64, pub g: Vec<f64>, pub h: Vec<Vec<f64>> }

impl Jet {
    pub fn cst(v: f64, n: usize) -> Jet { Jet { v, g: vec![0.; n], h: vec![vec![0.; n]; n] } }
    pub fn var(i: usize, v: f64, n: usize) -> Jet { let mut j = Jet::cst(v, n); j.g[i] = 1.; j }
    fn map2(&self, o: &Jet, v: f64, da: f64, db: f64, daa: f64, dab: f64, dbb: f64) -> Jet {
        let n = self.g.len();
        let mut r = Jet::cst(v, n);
        for i in 0..n {
            r.g[i] = da * self.g[i] + db * o.g[i];
            for k in 0..n {
                r.h[i][k] = da * self.h[i][k] + db * o.h[i][k]
                    + daa * self.g[i] * self.g[k] + dbb * o.g[i] * o.g[k]
                    + dab * (self.g[i] * o.g[k] + self.g[k] * o.g[i]);
            }
        }
        r
    }
    pub fn add(&self, o: &Jet) -> Jet { self.map2(o, self.v + o.v, 1., 1., 0., 0., 0.) }
    pub fn sub(&self, o: &Jet) -> Jet { self.map2(o, self.v - o.v, 1., -1., 0., 0., 0.) }
    pub fn mul(&self, o: &Jet) -> Jet { self.map2(o, self.v * o.v, o.v, self.v, 0., 1., 0.) }
    pub fn inv(&self) -> Jet {
        let i = 1. / self.v;
        let z = Jet::cst(0., self.g.len());
        self.map2(&z, i, -i * i, 0., 2. * i * i * i, 0., 0.)
    }
    pub fn neg(&self) -> Jet { Jet::cst(0., self.g.len()).sub(self) }
    pub fn sin(&self) -> Jet {
        let (s, c) = (self.v.sin(), self.v.cos());
        let z = Jet::cst(0., self.g.len());
        self.map2(&z, s, c, 0., -s, 0., 0.)
    }
    pub fn cos(&self) -> Jet {
        let (s, c) = (self.v.sin(), self.v.cos());
        let z = Jet::cst(0., self.g.len());
        self.map2(&z, c, -s, 0., -c, 0., 0.)
    }
}

impl Prog {
    /// Interprets item `i` at `xs`; denominators are assumed to be nonzero.
    pub fn jets(&self, xs: &[f64]) -> Vec<Jet> {
        let n = self.vars.len();
        let mut js: Vec<Jet> = Vec::new();
        for it in self.items.iter() {
            let j = match it.op {
                Var(i) => Jet::var(i, xs[i], n),
                Cst | Scalar => Jet::cst(it.val, n),
                Add(a, b) => js[a].add(&js[b]),
                Sum(l) => l.iter().fold(Jet::cst(0., n), |s, a| s.add(&js[*a])),
                Sub(a, b) => js[a].sub(&js[b]),
                Mul(a, b) => js[a].mul(&js[b]),
                Div(a, b) => {
                    assume(&nonzero(js[b].v));
                    let i = js[b].inv();
                    js[a].mul(&i)
                }
                Neg(a) => js[a].neg(),
                Sin(a) => js[a].sin(),
                Cos(a) => js[a].cos(),
            };
            js.push(j);
        }
        js
    }
    pub fn vals(&self, xs: &[f64]) -> Vec<f64> {
        let mut js: Vec<f64> = Vec::new();
        for it in self.items.iter() {
            let j = match it.op {
                Var(i) => xs[i],
                Cst | Scalar => it.val,
                Add(a, b) => js[a] + js[b],
                Sum(l) => l.iter().fold(0., |s, a| s + js[*a]),
                Sub(a, b) => js[a] - js[b],
                Mul(a, b) => js[a] * js[b],
                Div(a, b) => {
                    assume(&nonzero(js[b]));
                    js[a] / js[b]
                }
                Neg(a) => 0. - js[a],
                Sin(a) => js[a].sin(),
                Cos(a) => js[a].cos(),
            };
            js.push(j);
        }
        js
    }
    pub fn root(&self) -> &Node { self.items.last().unwrap().node.as_ref().unwrap() }
    pub fn last(&self) -> usize { self.items.len() - 1 }
    /// Structurally constant: built without variables.
    pub fn constant(&self, i: usize) -> bool {
        match self.items[i].op {
            Var(_) => false,
            Cst | Scalar => true,
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) => self.constant(a) && self.constant(b),
            Sum(l) => l.iter().all(|a| self.constant(*a)),
            Neg(a) | Sin(a) | Cos(a) => self.constant(a),
        }
    }
    /// Built by linear operations only.
    pub fn linear(&self, i: usize) -> bool {
        match self.items[i].op {
            Var(_) | Cst | Scalar => true,
            Add(a, b) | Sub(a, b) => self.linear(a) && self.linear(b),
            Mul(a, b) => self.linear(a) && self.linear(b) && (self.constant(a) || self.constant(b)),
            Div(a, b) => self.linear(a) && self.constant(b) && self.linear(b),
            Sum(l) => l.iter().all(|a| self.linear(*a)),
            Neg(a) => self.linear(a),
            Sin(_) | Cos(_) => false,
        }
    }
    pub fn describe(&self, i: usize) -> String {
        let d = |a: usize| self.describe(a);
        match self.items[i].op {
            Var(k) => if k < NAMES.len() { NAMES[k].to_string() } else { format!("v{}", k) },
            Cst => format!("C{}", i),
            Scalar => format!("s{}", i),
            Add(a, b) => format!("({} + {})", d(a), d(b)),
            Sum(l) => format!("({})", l.iter().map(|a| d(*a)).collect::<Vec<_>>().join(" + ")),
            Sub(a, b) => format!("({} - {})", d(a), d(b)),
            Mul(a, b) => format!("({} * {})", d(a), d(b)),
            Div(a, b) => format!("({} / {})", d(a), d(b)),
            Neg(a) => format!("-{}", d(a)),
            Sin(a) => format!("sin{}", d(a)),
            Cos(a) => format!("cos{}", d(a)),
        }
    }
    pub fn point<'a>(&'a self, xs: &[f64]) -> HashMap<&'a Node, f64> {
        self.vars.iter().zip(xs.iter()).map(|(v, x)| (v, *x)).collect()
    }
}

/// How operations are performed.
#[derive(Clone, Copy, PartialEq)]
pub enum Build { Operators, Constructors }

pub fn apply(pr: &Prog, op: Op, b: Build) -> Node {
    let nd = |i: usize| pr.items[i].node.as_ref().unwrap();
    let sc = |i: usize| pr.items[i].op == Scalar;
    let v = |i: usize| pr.items[i].val;
    if let Sum(l) = op {
        // the constructor, or the operators from the left
        return if b == Build::Constructors { FunctionAdd::new(l.iter().map(|i| nd(*i).clone()).collect()) }
            else { l[1..].iter().fold(nd(l[0]).clone(), |s, i| s + nd(*i)) };
    }
    if b == Build::Constructors {
        let n = |i: usize| nd(i).clone();
        return match op {
            Add(a, b) => FunctionAdd::new(vec![n(a), n(b)]),
            Mul(a, b) => FunctionMul::new(n(a), n(b)),
            Div(a, b) => FunctionDiv::new(n(a), n(b)),
            Sin(a) => FunctionSin::new(n(a)),
            Cos(a) => FunctionCos::new(n(a)),
            Sub(a, b) => nd(a) - nd(b),
            Neg(a) => -nd(a),
            _ => unreachable!(),
        };
    }
    match op {
        Add(a, b) => if sc(a) { v(a) + nd(b) } else if sc(b) { nd(a) + v(b) } else { nd(a) + nd(b) },
        Sub(a, b) => if sc(a) { v(a) - nd(b) } else if sc(b) { nd(a) - v(b) } else { nd(a) - nd(b) },
        Mul(a, b) => if sc(a) { v(a) * nd(b) } else if sc(b) { nd(a) * v(b) } else { nd(a) * nd(b) },
        Div(a, b) => if sc(a) { v(a) / nd(b) } else if sc(b) { nd(a) / v(b) } else { nd(a) / nd(b) },
        Neg(a) => -nd(a),
        Sin(a) => nd(a).sin(),
        Cos(a) => nd(a).cos(),
        _ => unreachable!(),
    }
}

/// Operations allowed by the generator.
pub const ARITH: u32 = 1;      // + - * / and negation
pub const TRIG: u32 = 2;       // sin cos
pub const NODIV: u32 = 4;
pub const NOSUB: u32 = 8;      // no - and negation

/// Names of the variables: different, all the same, in reverse order.
static mut NAMING: usize = 0;
pub fn naming(n: usize) { unsafe { NAMING = n } }
pub const NAMES: [&str; 6] = ["x", "y", "z", "u", "v", "w"];
fn name_of(i: usize, n: usize) -> &'static str {
    match unsafe { NAMING } { 1 => "x", 2 => NAMES[(n - 1 - i) % 6], _ => NAMES[i % 6] }
}

pub struct Gen { pub nv: usize, pub nc: usize, pub ns: usize, pub k: usize, pub ops: u32, pub build: Build, pub int: bool }

/// Builds a program of `k` operations.  Every operation uses the previous result, so all
/// intermediate results are used; `x` is the first variable used (renaming symmetry).
pub fn program(g: &Gen) -> Prog {
    if g.nv == SHAPES { return shape(choose("shape", g.nc) + g.ns, g.build); }
    grow(base(g), g)
}

/// In place of the number of variables: one of the fixed larger shapes below.
pub const SHAPES: usize = 99;

struct Big { pr: Prog, b: Build, c: usize }
impl Big {
    fn go(&mut self, op: Op) -> usize { step(&mut self.pr, op, self.b); self.pr.last() }
    fn add(&mut self, a: usize, b: usize) -> usize { self.go(Add(a, b)) }
    fn sub(&mut self, a: usize, b: usize) -> usize { self.go(Sub(a, b)) }
    fn mul(&mut self, a: usize, b: usize) -> usize { self.go(Mul(a, b)) }
    fn div(&mut self, a: usize, b: usize) -> usize { self.go(Div(a, b)) }
    fn sin(&mut self, a: usize) -> usize { self.go(Sin(a)) }
    fn cos(&mut self, a: usize) -> usize { self.go(Cos(a)) }
    fn neg(&mut self, a: usize) -> usize { self.go(Neg(a)) }
    fn sum(&mut self, l: &[usize]) -> usize { let l: &'static [usize] = Box::leak(l.to_vec().into_boxed_slice()); self.go(Sum(l)) }
    /// A constant node with any value.
    fn any(&mut self) -> usize {
        self.c += 1;
        let v = real(&format!("C{}", self.c));
        self.num(v)
    }
    /// A constant node.
    fn num(&mut self, v: f64) -> usize {
        self.pr.items.push(Item { op: Cst, node: Some(ConstantScalar::new(v)), val: v });
        self.pr.last()
    }
}

/// Number of hand-written shapes; the shapes after them are generated.
pub const HAND: usize = 54;

/// What the code under test did before: other expressions of the same kinds, used in every way and
/// dropped, so that the nodes made next may lie where those were.
pub fn past() {
    for r in 0..2 {
        let (x, y, z) = (VariableScalar::new_continuous("x"), VariableScalar::new_integer("y"), VariableScalar::new_continuous("z"));
        let h: HashMap<&Node, f64> = [(&x, 1.5), (&y, -2.), (&z, 0.25 + r as f64)].into_iter().collect();
        for e in [(&x * &y + z.sin() - 3.) * (&x - &z) / (&y + 4. * &z), 2. * &x - &y / 4. + &z + 1., (&x / &y).cos() * &z * &z - (&x + 7.).sin(), &x + &y + &z + &x * 2. + 5., &x * (&y * (&z * 3.))] {
            let f = &e - &z;
            e.evaluate(&h);
            f.evaluate(&h);
            e.derivatives(&[&x, &y, &z]);
            f.derivative(&x);
            e.std_properties();
            e.std_components();
            let c = e.leq_and_tag(&f, "past");
            c.violation(&h);
            c.std_components(&mut 0, &mut 0);
            f.geq(1.5).std_components(&mut 1, &mut 2);
            let _text = format!("{} {}", e, c);
            let mut m = model::Model::new();
            m.set_objective(model::Objective::minimize(&f));
            m.add_constraint(&c);
            m.add_constraint(&x.geq(r as f64));
            m.set_init_primals(&h);
            m.std_problem();
        }
    }
}

/// A larger expression over x, y, z; constants and the point stay symbolic.
pub fn shape(k: usize, build: Build) -> Prog {
    if k % 2 == 0 { past(); }
    if unsafe { NAMING } > 0 { naming(k % 3); }
    let nv = if (48..HAND).contains(&k) { 6 } else if k > HAND && k % 5 == 2 { 5 } else { 3 };
    let pr = base(&Gen { nv, nc: 0, ns: 0, k: 0, ops: 0, build, int: false });
    let mut g = Big { pr, b: build, c: 0 };
    let (x, y, z) = (0, 1, 2);
    match k {
        // wide sums
        0 => { let a = g.mul(x, y); let b = g.mul(y, z); let c = g.mul(z, x); let d = g.mul(x, x); let e = g.any(); let s = g.sin(x); let f = g.mul(e, y); g.sum(&[a, b, c, d, e, s, f, z]); }
        1 => { let c = g.any(); let a = g.add(x, y); let b = g.add(z, c); let s = g.add(a, b); let d = g.sub(x, y); let e = g.num(1.5); let f = g.sub(z, e); let t = g.add(d, f); g.add(s, t); }
        2 => { g.sum(&[x, x, y, x, z, y, x, x]); }
        3 => { let a = g.sum(&[x, y, z]); let b = g.sum(&[a, x, a, y]); let m = g.mul(x, y); let c = g.sum(&[b, a, m]); g.mul(c, z); }
        4 => { let c = g.any(); let d = g.neg(c); let n = g.num(-2.); let m = g.num(2.); g.sum(&[x, c, y, n, d, z, m]); }
        5 => { let c = g.any(); let a = g.num(0.); let b = g.num(1.); g.sum(&[a, c, x, b, a, y]); }
        // products
        6 => { let a = g.mul(x, y); let b = g.mul(a, z); let c = g.mul(b, x); g.mul(c, y); }
        7 => { let a = g.mul(x, y); let b = g.mul(z, x); let c = g.mul(a, b); let d = g.mul(c, c); g.add(d, x); }
        8 => { let c = g.any(); let a = g.add(x, y); let b = g.mul(c, a); let n = g.num(3.); let d = g.mul(b, n); let m = g.num(0.5); let e = g.mul(m, d); g.mul(e, z); }
        9 => { let a = g.sum(&[x, y, z]); let b = g.sub(x, z); let c = g.mul(a, b); let d = g.mul(b, a); g.sub(c, d); }
        10 => { let c = g.any(); let a = g.mul(c, x); let b = g.mul(a, c); let n = g.num(-1.); let d = g.mul(b, n); let e = g.add(d, y); let m = g.num(1.); let f = g.mul(m, e); g.mul(f, f); }
        // quotients
        11 => { let a = g.div(x, y); let b = g.div(z, x); g.div(a, b); }
        12 => { let a = g.div(z, x); let b = g.div(y, a); g.div(x, b); }
        13 => { let a = g.div(x, y); let b = g.div(a, z); g.div(b, y); }
        14 => { let n = g.num(1.); let a = g.div(n, x); let b = g.div(n, y); let c = g.mul(a, b); g.add(c, z); }
        15 => { let a = g.mul(x, y); let b = g.add(a, z); let c = g.div(x, b); g.mul(c, z); }
        16 => { let a = g.add(x, y); let b = g.mul(a, a); let c = g.add(x, z); let d = g.div(b, c); g.sub(d, a); }
        17 => { let c = g.any(); let n = g.num(4.); let a = g.mul(x, c); let b = g.div(a, n); let d = g.add(b, y); let m = g.num(-0.5); g.div(d, m); }
        18 => { let c = g.num(2.); let a = g.div(c, x); let b = g.div(y, a); let d = g.add(b, z); let e = g.div(d, c); g.div(e, z); }
        // differences and signs
        19 => { let a = g.sub(x, y); let b = g.sub(z, a); let c = g.sub(y, b); g.sub(x, c); }
        20 => { let a = g.mul(x, y); let b = g.neg(a); let c = g.neg(b); let d = g.neg(z); let e = g.sub(c, d); let f = g.neg(e); g.mul(f, x); }
        21 => { let c = g.any(); let a = g.sub(c, x); let b = g.sub(a, y); let n = g.num(2.); let d = g.mul(n, b); let e = g.sub(z, d); g.neg(e); }
        22 => { let a = g.sub(x, y); let b = g.sub(x, y); let c = g.mul(a, b); let d = g.neg(c); g.div(d, z); }
        // trigonometric
        23 => { let a = g.mul(x, y); let b = g.sin(a); let c = g.cos(b); let d = g.sin(c); g.mul(d, z); }
        24 => { let a = g.cos(x); let b = g.cos(x); let c = g.mul(a, b); let d = g.sin(x); let e = g.mul(d, d); g.add(c, e); }
        25 => { let a = g.sin(x); let b = g.cos(y); let c = g.div(a, b); let d = g.add(c, z); g.sin(d); }
        26 => { let c = g.any(); let a = g.mul(c, x); let b = g.sum(&[a, y, z]); let d = g.cos(b); let e = g.sin(b); let f = g.mul(d, e); g.div(f, c); }
        27 => { let n = g.num(0.5); let a = g.sin(n); let b = g.cos(n); let c = g.mul(a, x); let d = g.mul(b, y); let e = g.add(c, d); g.mul(e, z); }
        28 => { let a = g.neg(x); let b = g.sin(a); let c = g.cos(a); let d = g.div(b, y); g.sum(&[d, c, z]); }
        // shared parts
        29 => { let a = g.mul(x, y); let b = g.add(a, a); let c = g.mul(b, a); let d = g.sub(c, b); g.add(d, z); }
        30 => { let a = g.add(x, y); let b = g.mul(a, a); let c = g.mul(b, b); g.add(c, b); }
        31 => { let a = g.sin(x); let b = g.mul(a, y); let c = g.add(b, a); let d = g.div(c, b); g.add(d, a); }
        32 => { let a = g.div(x, y); let b = g.add(a, z); let c = g.mul(b, a); let d = g.sub(b, c); g.add(d, d); }
        33 => { let a = g.mul(z, y); let b = g.mul(y, x); let c = g.mul(z, z); let d = g.mul(x, z); let e = g.sub(a, b); let f = g.sub(c, d); let s = g.add(e, f); let t = g.cos(s); g.add(s, t); }
        // linear, with nontrivial coefficients
        34 => { let c = g.any(); let d = g.any(); let a = g.mul(c, x); let b = g.mul(d, y); let e = g.sub(a, b); let n = g.num(-3.); let f = g.mul(n, e); let h = g.add(f, z); let i = g.add(h, x); let m = g.num(0.25); g.mul(m, i); }
        35 => { let c = g.any(); let a = g.sub(x, c); let n = g.num(2.); let b = g.div(a, n); let d = g.sum(&[b, y, b, z, a]); g.sub(d, z); }
        36 => { let n = g.num(2.); let m = g.num(4.); let p = g.num(-5.); let q = g.sum(&[n, m, p]); let a = g.add(q, x); let b = g.mul(n, m); let c = g.mul(b, a); let d = g.div(c, m); let e = g.neg(d); g.add(e, y); }
        // constants that vanish or become one
        37 => { let n = g.num(3.); let a = g.sub(n, n); let b = g.mul(a, x); let c = g.div(n, n); let d = g.mul(c, y); let e = g.add(b, d); let f = g.mul(x, z); g.add(e, f); }
        38 => { let c = g.any(); let a = g.mul(c, x); let b = g.mul(a, y); let d = g.div(b, z); let e = g.mul(d, c); g.sum(&[e, x, c]); }
        39 => { let n = g.num(0.); let a = g.div(n, x); let b = g.mul(n, y); let c = g.add(a, b); let d = g.add(c, z); let e = g.mul(d, x); let f = g.neg(n); g.sub(e, f); }
        // long sums, long products, deep nesting, many paths to one variable
        40 => {
            let (c, n, m, a, b) = (g.any(), g.num(2.), g.num(-0.5), g.mul(x, y), g.mul(y, z));
            let (d, e, f, h) = (g.mul(c, x), g.mul(n, y), g.mul(m, z), g.mul(a, z));
            let s = g.sin(x);
            g.sum(&[x, a, c, y, b, d, n, e, z, f, h, x, s, m, y, a, z, d, c, b, x, e, f, h]);
        }
        41 => {
            let (c, n, m) = (g.any(), g.num(3.), g.num(0.25));
            let mut s = g.mul(c, x);
            for i in 0..110 {
                let t = match i % 6 { 0 => g.mul(n, y), 1 => z, 2 => g.mul(m, x), 3 => y, 4 => g.mul(c, z), _ => n };
                s = if i % 4 == 3 { g.sub(s, t) } else { g.add(s, t) };
            }
        }
        42 => { let mut s = x; let n = g.num(2.); for i in 0..13 { let t = [y, z, x, n][i % 4]; s = if i % 3 == 0 { g.mul(t, s) } else { g.mul(s, t) }; } }
        43 => { let c = g.any(); let mut s = x; for i in 0..14 { let t = [y, z, x, c][i % 4]; s = if i % 3 == 2 { g.mul(s, t) } else { g.add(t, s) }; } }
        44 => { let mut s = z; for i in 0..5 { let t = [y, x, z][i % 3]; let d = g.div(t, s); s = g.add(d, [x, z, y][i % 3]); } }
        45 => {
            let t = [g.mul(x, y), g.mul(y, z), g.mul(z, x), g.mul(x, x), g.mul(y, y), g.mul(z, z)];
            let mut l = vec![x];
            for i in 0..6 { for j in 0..3 { l.push(g.mul(t[i], [x, y, z][j])); } }
            l.push(t[2]);
            l.push(t[5]);
            g.sum(&l);
        }
        46 => { let a = g.add(x, y); let b = g.add(a, a); let c = g.mul(b, b); let d = g.add(c, b); let e = g.mul(d, a); let f = g.sub(e, d); g.add(f, f); }
        47 => { let mut s = x; for i in 0..15 { let t = [y, z, x][i % 3]; s = if i % 5 == 4 { g.neg(s) } else { g.sub(t, s) }; } let u = g.sin(s); g.mul(u, s); }
        // six variables
        48 => { let a = g.mul(0, 5); let b = g.mul(1, 4); let c = g.mul(2, 3); let d = g.mul(5, 4); let e = g.sum(&[a, b, c, d, 3]); let f = g.mul(3, 0); g.sub(f, e); }
        49 => { let c = g.any(); let a = g.sum(&[5, 4, 3, 2, 1, 0]); let b = g.mul(a, a); let d = g.mul(c, 3); g.sub(b, d); }
        50 => { let mut s = 5; for i in [3, 1, 4, 0, 2] { s = g.mul(s, i); } let a = g.add(3, 4); g.add(s, a); }
        51 => { let c = g.any(); let mut s = c; for i in 0..6 { let n = g.num([2., -1., 0.5, 3., 1., -4.][i]); let t = g.mul(n, [4, 2, 5, 0, 3, 1][i]); s = if i % 2 == 0 { g.add(s, t) } else { g.sub(s, t) }; } g.div(s, c); }
        52 => { let a = g.div(3, 0); let b = g.sin(a); let d = g.mul(4, 1); let e = g.cos(d); let f = g.mul(b, e); let h = g.mul(5, 2); g.sum(&[f, h, a]); }
        53 => { let a = g.mul(0, 1); let b = g.mul(2, 3); let c = g.mul(4, 5); let d = g.add(a, b); let e = g.add(d, c); let f = g.mul(d, e); g.sub(f, 4); }
        // generated
        _ => {
            let mut r = (k as u64).wrapping_mul(0x9e3779b97f4a7c15);
            let mut pick = |n: usize| { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((r >> 33) % n as u64) as usize };
            let (mut divs, mut trigs) = (0, 0);
            let c = g.any();
            let n = [2., -1., 0.5, -4.][pick(4)];
            g.num(n);
            let mut loose: Vec<usize> = (0..nv).collect();
            loose.push(c);
            for _ in 0..(6 + pick(3)) {
                let len = g.pr.items.len();
                let a = if pick(3) > 0 && len > nv + 2 { len - 1 } else { pick(len) };
                let b = if !loose.is_empty() && pick(2) == 0 { loose[pick(loose.len())] } else { pick(len) };
                let (a, b) = if pick(2) == 0 { (a, b) } else { (b, a) };
                loose.retain(|i| *i != a && *i != b);
                let op = match pick(12) {
                    0 | 1 | 2 => Add(a, b),
                    3 | 4 => Sub(a, b),
                    5 | 6 | 7 => Mul(a, b),
                    8 | 9 if divs < 2 && !(g.pr.constant(b) && b > nv + 1) => { divs += 1; Div(a, b) }
                    10 if trigs < 2 => { trigs += 1; if pick(2) == 0 { Sin(a) } else { Cos(a) } }
                    11 => Neg(a),
                    _ => Sum(Box::leak(vec![a, b, pick(nv)].into_boxed_slice())),
                };
                g.go(op);
            }
        }
    }
    note(&format!("shape {}: {}", k, g.pr.describe(g.pr.last())));
    g.pr
}

/// Variables, constants and scalars.
pub fn base(g: &Gen) -> Prog {
    let mut pr = Prog { items: Vec::new(), vars: Vec::new() };
    for i in 0..g.nv {
        let name = name_of(i, g.nv);
        let v = if g.int && i == g.nv - 1 { VariableScalar::new_integer(name) } else { VariableScalar::new_continuous(name) };
        pr.items.push(Item { op: Var(i), node: Some(v.clone()), val: 0. });
        pr.vars.push(v);
    }
    for i in 0..g.nc {
        let c = real(&format!("C{}", i));
        pr.items.push(Item { op: Cst, node: Some(ConstantScalar::new(c)), val: c });
    }
    for i in 0..g.ns {
        let c = real(&format!("s{}", i));
        pr.items.push(Item { op: Scalar, node: None, val: c });
    }
    pr
}

pub fn used(pr: &Prog, i: usize, v: usize) -> bool {
    match pr.items[i].op {
        Var(k) => k == v,
        Cst | Scalar => false,
        Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) => used(pr, a, v) || used(pr, b, v),
        Sum(l) => l.iter().any(|a| used(pr, *a, v)),
        Neg(a) | Sin(a) | Cos(a) => used(pr, a, v),
    }
}

pub fn options(pr: &Prog, g: &Gen, first: bool) -> Vec<Op> {
    let n = pr.items.len();
    let last = n - 1;
    let mut v = Vec::new();
    let scalar = |i: usize| pr.items[i].op == Scalar;
    // the variables appear in order
    let fresh = |a: usize, b: Option<usize>| -> bool {
        let mut seen = vec![false; pr.vars.len()];
        if !first { for (i, s) in seen.iter_mut().enumerate() { *s = used(pr, last, i); } }
        for i in [Some(a), b].iter().flatten() {
            if let Var(k) = pr.items[*i].op {
                if k > 0 && !seen[k - 1] { return false; }
                seen[k] = true;
            }
        }
        true
    };
    for a in 0..n {
        if scalar(a) { continue; }
        if (first || a == last) && fresh(a, None) {
            if g.ops & NOSUB == 0 && g.ops & ARITH != 0 { v.push(Neg(a)); }
            if g.ops & TRIG != 0 { v.push(Sin(a)); v.push(Cos(a)); }
        }
    }
    if g.ops & ARITH != 0 {
        for a in 0..n {
            for b in 0..n {
                if scalar(a) && scalar(b) { continue; }
                if !first && a != last && b != last { continue; }
                if !fresh(a, Some(b)) { continue; }
                v.push(Add(a, b));
                if g.ops & NOSUB == 0 { v.push(Sub(a, b)); }
                v.push(Mul(a, b));
                if g.ops & NODIV == 0 { v.push(Div(a, b)); }
            }
        }
    }
    v
}

pub fn grow(mut pr: Prog, g: &Gen) -> Prog {
    for s in 0..g.k {
        let opts = options(&pr, g, s == 0);
        let op = opts[choose("op", opts.len())];
        step(&mut pr, op, g.build);
    }
    note(&pr.describe(pr.last()));
    pr
}

/// Performs one operation; a constant denominator is assumed to be nonzero beforehand.
pub fn step(pr: &mut Prog, op: Op, b: Build) {
    if let Div(_, d) = op {
        if pr.items[d].op == Scalar { assume(&nonzero(pr.items[d].val)); }
        else if let Some(Node::ConstantScalar(c)) = &pr.items[d].node { assume(&nonzero(c.value())); }
    }
    let node = apply(pr, op, b);
    pr.items.push(Item { op, node: Some(node), val: 0. });
}
