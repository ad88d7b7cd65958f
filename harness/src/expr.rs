//! C01, C02, C04, C05, C06, C22: expressions.

use crate::gen::*;
use numopt::model::*;
use numopt::model::node_std::NodeStd;
use std::collections::HashMap;
use symrt::*;

fn gen_of(p: &[usize]) -> Gen {
    Gen {
        nv: p[0], nc: p[1], ns: p[2], k: p[3], ops: p[4] as u32,
        build: if p.get(5) == Some(&1) { Build::Constructors } else { Build::Operators },
        int: false,
    }
}
fn points(n: usize, tag: &str) -> Vec<f64> { (0..n).map(|i| real(&format!("{}{}", tag, i))).collect() }

/// C01: evaluation of an operator program.
pub fn c01_prog(p: &[usize]) {
    let pr = program(&gen_of(p));
    let xs = points(pr.vars.len(), "v");
    let want = pr.vals(&xs);
    let h = pr.point(&xs);
    // the result, and every operand after it has been used
    for (i, it) in pr.items.iter().enumerate().rev() {
        if let Some(n) = &it.node {
            if matches!(it.op, Var(_) | Cst) { continue; }
            prove_same(if i == pr.last() { "value" } else { "operand" }, n.evaluate(&h), want[i]);
        }
    }
    // and at another point
    let ys = points(pr.vars.len(), "w");
    prove_same("value at another point", pr.root().evaluate(&pr.point(&ys)), pr.vals(&ys)[pr.last()]);
    reached("evaluated");
}

/// One operand of a given shape, as a program fragment. Returns its item.
fn shape(pr: &mut Prog, s: usize, side: usize) -> usize {
    let (x, y) = (0, 1);
    let c = |pr: &mut Prog, n: &str| -> usize {
        let v = real(&format!("{}{}", n, side));
        pr.items.push(Item { op: Cst, node: Some(ConstantScalar::new(v)), val: v });
        pr.last()
    };
    let mut go = |pr: &mut Prog, op: Op| { step(pr, op, Build::Operators); pr.last() };
    match s {
        0 => c(pr, "c"),
        1 => x,
        2 => { let a = c(pr, "c"); go(pr, Add(x, a)) }
        3 => { let a = c(pr, "c"); go(pr, Mul(a, y)) }
        4 => go(pr, Add(x, y)),
        5 => go(pr, Mul(x, y)),
        6 => { let a = c(pr, "c"); let t = go(pr, Add(x, y)); go(pr, Add(t, a)) }
        7 => go(pr, Div(x, y)),
        8 => go(pr, Sin(x)),
        9 => go(pr, Cos(y)),
        10 => { let a = c(pr, "c"); go(pr, Div(y, a)) }
        11 => { let a = c(pr, "c"); let b = c(pr, "d"); let t = go(pr, Mul(a, x)); go(pr, Add(b, t)) }
        _ => unreachable!(),
    }
}

/// C01: one operation on operands of every shape, in every operand form.
pub fn c01_forms(_p: &[usize]) {
    let mut pr = base(&Gen { nv: 2, nc: 0, ns: 0, k: 0, ops: 0, build: Build::Operators, int: false });
    let op = choose("op", 5);
    let form = choose("form", if op == 4 { 2 } else { 8 });
    let a = { let s = choose("left", 12); shape(&mut pr, s, 0) };
    let na = pr.items[a].node.clone().unwrap();
    let xs = points(2, "v");
    let s = real("s");
    let (got, want);
    if op == 4 {
        got = if form == 0 { -&na } else { -na.clone() };
        want = 0. - pr.vals(&xs)[a];
    } else if form < 4 {
        let b = { let s = choose("right", 12); shape(&mut pr, s, 1) };
        let nb = pr.items[b].node.clone().unwrap();
        if op == 3 { if let Node::ConstantScalar(c) = &nb { assume(&nonzero(c.value())); } }
        let (l, r) = (na.clone(), nb.clone());
        got = match (op, form) {
            (0, 0) => &l + &r, (0, 1) => &l + r, (0, 2) => l + &r, (0, _) => l + r,
            (1, 0) => &l - &r, (1, 1) => &l - r, (1, 2) => l - &r, (1, _) => l - r,
            (2, 0) => &l * &r, (2, 1) => &l * r, (2, 2) => l * &r, (2, _) => l * r,
            (3, 0) => &l / &r, (3, 1) => &l / r, (3, 2) => l / &r, (_, _) => l / r,
        };
        let v = pr.vals(&xs);
        if op == 3 { assume(&nonzero(v[b])); }
        want = match op { 0 => v[a] + v[b], 1 => v[a] - v[b], 2 => v[a] * v[b], _ => v[a] / v[b] };
        prove_same("right operand", nb.evaluate(&pr.point(&xs)), v[b]);
    } else {
        let l = na.clone();
        if op == 3 {
            if form < 6 { assume(&nonzero(s)); }
            else if let Node::ConstantScalar(c) = &l { assume(&nonzero(c.value())); }
        }
        got = match (op, form) {
            (0, 4) => &l + s, (0, 5) => l + s, (0, 6) => s + &l, (0, _) => s + l,
            (1, 4) => &l - s, (1, 5) => l - s, (1, 6) => s - &l, (1, _) => s - l,
            (2, 4) => &l * s, (2, 5) => l * s, (2, 6) => s * &l, (2, _) => s * l,
            (3, 4) => &l / s, (3, 5) => l / s, (3, 6) => s / &l, (_, _) => s / l,
        };
        let v = pr.vals(&xs);
        if op == 3 && form >= 6 { assume(&nonzero(v[a])); }
        want = match (op, form < 6) {
            (0, _) => v[a] + s, (1, true) => v[a] - s, (1, false) => s - v[a],
            (2, _) => v[a] * s, (_, true) => v[a] / s, (_, false) => s / v[a],
        };
    }
    note(&format!("op {} form {} on {}", op, form, pr.describe(a)));
    let h = pr.point(&xs);
    prove_same("value", got.evaluate(&h), want);
    prove_same("left operand", na.evaluate(&h), pr.vals(&xs)[a]);
    reached("evaluated");
}

/// C02: evaluation with partial maps and same-named variables.
pub fn c02(p: &[usize]) {
    let g = Gen { nv: 0, nc: p[1], ns: 0, k: p[2], ops: ARITH | TRIG, build: Build::Constructors, int: false };
    let mut pr = Prog { items: Vec::new(), vars: Vec::new() };
    for i in 0..p[0] {
        // all variables share one name; the last one is an integer variable
        let v = if i + 1 == p[0] && i > 0 { VariableScalar::new_integer("x") } else { VariableScalar::new_continuous("x") };
        pr.items.push(Item { op: Var(i), node: Some(v.clone()), val: 0. });
        pr.vars.push(v);
    }
    for i in 0..g.nc {
        let c = real(&format!("C{}", i));
        pr.items.push(Item { op: Cst, node: Some(ConstantScalar::new(c)), val: c });
    }
    let g2 = Gen { ops: g.ops | NOSUB, ..g };
    let pr = grow(pr, &g2);
    let n = pr.vars.len();
    let xs = points(n, "v");
    let extra = VariableScalar::new_continuous("x");
    let clone = pr.vars[0].clone();
    let present = choose("present", 1 << n);
    let mut h: HashMap<&Node, f64> = HashMap::new();
    let with_extra = flag("extra");
    if with_extra { h.insert(&extra, real("e")); }
    for i in (0..n).rev() {
        if present >> i & 1 == 1 {
            // the key may be another handle of the variable
            h.insert(if i == 0 { &clone } else { &pr.vars[i] }, xs[i]);
        }
    }
    let missing = (0..n).any(|i| used(&pr, pr.last(), i) && present >> i & 1 == 0);
    let want = pr.vals(&xs);
    let full: HashMap<&Node, f64> = pr.vars.iter().enumerate().map(|(i, v)| (v, 3.25 + i as f64)).collect();
    // whatever was evaluated before
    let before = flag("evaluated before");
    if before { pr.root().evaluate(&full); }
    let got = pr.root().evaluate(&h);
    if before { pr.root().evaluate(&full); }
    let again = pr.root().evaluate(&h);
    if missing {
        check("missing gives NaN", isnan_now(got) && isnan_now(again));
        reached("missing");
    } else {
        prove_same("value", got, want[pr.last()]);
        prove("same again", &same(got, again));
        reached("complete");
    }
    check("map unchanged", h.len() == present.count_ones() as usize + with_extra as usize);
    check("variable by clone", pr.vars[0].evaluate(&h).to_bits_eq(h.get(&pr.vars[0]).copied()));
}
fn isnan_now(x: f64) -> bool { sym_id(x).is_none() && x.is_nan() }
trait BitsEq { fn to_bits_eq(&self, o: Option<f64>) -> bool; }
impl BitsEq for f64 {
    fn to_bits_eq(&self, o: Option<f64>) -> bool {
        match o {
            None => isnan_now(*self),
            Some(v) => match (sym_id(*self), sym_id(v)) { (Some(a), Some(b)) => a == b, (None, None) => *self == v, _ => false },
        }
    }
}

/// C04: first derivatives.
pub fn c04(p: &[usize]) {
    naming(if p.get(5) == Some(&1) { 2 } else { 1 });
    let pr = program(&gen_of(p));
    let n = pr.vars.len();
    let xs = points(n, "v");
    let want = pr.jets(&xs);
    let want = &want[pr.last()];
    let other = VariableScalar::new_continuous("x");
    let z = pr.root();
    let h = pr.point(&xs);
    let one = p.get(6) == Some(&1);
    if one {
        for i in 0..n {
            prove_same(&format!("d{}", i), z.derivative(&pr.vars[i]).evaluate(&h), want.g[i]);
        }
        prove_same("absent", z.derivative(&other).evaluate(&h), 0.);
        prove_same("d0 again", z.derivative(&pr.vars[0]).evaluate(&h), want.g[0]);
    } else {
        let mut vs: Vec<&Node> = vec![&other];
        vs.extend(pr.vars.iter());
        vs.push(&pr.vars[0]);
        let ds = z.derivatives(&vs);
        check("one entry per variable", ds.len() == n + 1);
        for i in 0..n {
            prove_same(&format!("d{}", i), ds[&pr.vars[i]].evaluate(&h), want.g[i]);
        }
        prove_same("absent", ds[&other].evaluate(&h), 0.);
    }
    reached("differentiated");
}

/// C05: gradient and Hessian components.
pub fn c05(p: &[usize]) {
    hash_seed(choose("hash seed", p.get(6).copied().unwrap_or(1)) as u64 + 11);
    naming(if p.get(5) == Some(&1) { 2 } else { 1 });
    let pr = program(&gen_of(p));
    let n = pr.vars.len();
    let xs = points(n, "v");
    let want = pr.jets(&xs);
    let want = &want[pr.last()];
    let h = pr.point(&xs);
    let first = pr.root().std_components();
    let comp = pr.root().std_components();
    check("same number of entries again", first.gphi.len() == comp.gphi.len() && first.hphi.len() == comp.hphi.len());
    let idx = |v: &Node| pr.vars.iter().position(|w| w == v);
    prove_same("phi", comp.phi.evaluate(&h), want.v);
    let mut g: Vec<Option<f64>> = vec![None; n];
    for (v, e) in comp.gphi.iter() {
        match idx(v) {
            None => check("gradient entry of a variable of the expression", false),
            Some(i) => {
                check("one gradient entry per variable", g[i].is_none());
                g[i] = Some(e.evaluate(&h));
            }
        }
    }
    for i in 0..n { prove_same(&format!("g{}", i), g[i].unwrap_or(0.), want.g[i]); }
    let mut hh: Vec<Vec<Option<f64>>> = vec![vec![None; n]; n];
    for (v, w, e) in comp.hphi.iter() {
        match (idx(v), idx(w)) {
            (Some(i), Some(j)) => {
                let (i, j) = (i.min(j), i.max(j));
                check("one Hessian entry per pair", hh[i][j].is_none());
                hh[i][j] = Some(e.evaluate(&h));
            }
            _ => check("Hessian entry of variables of the expression", false),
        }
    }
    for i in 0..n { for j in i..n {
        prove_same(&format!("h{}{}", i, j), hh[i][j].unwrap_or(0.), want.h[i][j]);
    } }
    if !comp.hphi.is_empty() { reached("hessian"); }
    if comp.gphi.len() == n { reached("gradient"); }
}

/// C06: affine detection.
pub fn c06(p: &[usize]) {
    naming(if p.get(5) == Some(&1) { 2 } else { 1 });
    let pr = program(&gen_of(p));
    let n = pr.vars.len();
    let xs = points(n, "v");
    let r = pr.last();
    let prop = pr.root().std_properties();
    let want = pr.vals(&xs)[r];
    for k in prop.a.keys() { check("reported variables are variables of the expression", pr.vars.contains(k)); }
    if prop.affine {
        let mut s = prop.b;
        for (k, v) in prop.a.iter() {
            if let Some(i) = pr.vars.iter().position(|w| w == k) { s = s + *v * xs[i]; }
        }
        prove_same("affine value", s, want);
        reached("affine");
    } else {
        reached("not affine");
        if p.get(5) != Some(&1) {
            // constants in linear expressions built by the operators may be assumed nonzero
            check("linear expression is affine", !pr.linear(r));
        }
    }
    for i in 0..n {
        if !prop.a.contains_key(&pr.vars[i]) {
            // the value does not depend on an unreported variable
            let mut ys = xs.clone();
            ys[i] = real("other");
            prove("unreported variable has no effect", &same(want, pr.vals(&ys)[r]));
            reached("unreported");
        }
    }
}
