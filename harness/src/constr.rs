//! C03, C07, C08: identity, violation and standard form of constraints.

use crate::gen::*;
use numopt::model::*;
use numopt::model::constraint::ConstraintKind;
use numopt::model::constraint_std::ConstraintStd;
use numopt::model::function::{add::FunctionAdd, mul::FunctionMul, div::FunctionDiv, sin::FunctionSin, cos::FunctionCos};
use std::collections::{HashMap, HashSet};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use symrt::*;

fn hash_of<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

const KINDS: usize = 8;
fn make(k: usize, i: usize, x: &Node, y: &Node) -> Node {
    match k {
        0 => VariableScalar::new_continuous("n"),
        1 => VariableScalar::new_integer("n"),
        2 => ConstantScalar::new(real(&format!("c{}", i))),
        3 => FunctionAdd::new(vec![x.clone(), y.clone()]),
        4 => FunctionMul::new(x.clone(), y.clone()),
        5 => FunctionDiv::new(x.clone(), y.clone()),
        6 => FunctionSin::new(x.clone()),
        _ => FunctionCos::new(x.clone()),
    }
}

/// C03: handles are equal exactly when they share their origin.
pub fn c03(p: &[usize]) {
    let n = p[0];
    let constraints = p[1] == 1;
    let x = VariableScalar::new_continuous("x");
    let y = VariableScalar::new_continuous("y");
    if constraints {
        let mut hs: Vec<(usize, Constraint)> = Vec::new();
        for i in 0..n {
            let how = choose("handle", 3 + i);
            let h = if how < 3 {
                let c = real(&format!("r{}", i));
                (i, match how { 0 => x.equal_and_tag(c, "t"), 1 => x.leq_and_tag(&y, "t"), _ => x.geq_and_tag(c, "t") })
            } else {
                let (o, h) = &hs[how - 3];
                (*o, if flag("indirect") { h.clone().clone() } else { h.clone() })
            };
            hs.push(h);
        }
        identity(&hs, &x, &y);
        reached("constraints");
    } else {
        let mut hs: Vec<(usize, Node)> = Vec::new();
        for i in 0..n {
            let how = choose("handle", KINDS + i);
            let h = if how < KINDS { (i, make(how, i, &x, &y)) } else {
                let (o, h) = &hs[how - KINDS];
                (*o, if flag("indirect") { h.clone().clone() } else { h.clone() })
            };
            hs.push(h);
        }
        identity(&hs, &x, &y);
        // a constraint holds the very nodes it was given
        let c = hs[0].1.leq(&hs[n - 1].1);
        check("constraint sides are the given nodes", *c.lhs() == hs[0].1 && *c.rhs() == hs[n - 1].1);
        reached("nodes");
    }
}

fn identity<T: Eq + Hash + Clone>(hs: &[(usize, T)], _x: &Node, _y: &Node) {
    let mut origins: Vec<usize> = hs.iter().map(|h| h.0).collect();
    origins.sort();
    origins.dedup();
    for (o, a) in hs.iter() {
        for (q, b) in hs.iter() {
            check("equal exactly when cloned", (a == b) == (o == q) && (a != b) == (o != q));
            if o == q { check("equal handles hash equally", hash_of(a) == hash_of(b) && hash_of(&a) == hash_of(&b)); }
        }
    }
    let mut m: HashMap<&T, f64> = HashMap::new();
    let mut own: HashSet<T> = HashSet::new();
    let mut want: HashMap<usize, f64> = HashMap::new();
    for (i, (o, a)) in hs.iter().enumerate() {
        let v = real(&format!("v{}", i));
        m.insert(a, v);
        own.insert(a.clone());
        want.insert(*o, v);
    }
    check("one map entry per distinct handle", m.len() == origins.len() && own.len() == origins.len());
    for (o, a) in hs.iter() {
        check("entry is found", m.contains_key(a) && own.contains(a));
        prove_same("map value", m[a], want[o]);
    }
    if origins.len() < hs.len() { reached("clones"); }
    if origins.len() > 1 { reached("distinct"); }
}

/// C07 (bit-precise): violation.
pub fn c07(_p: &[usize]) {
    let x = VariableScalar::new_continuous("x");
    let y = VariableScalar::new_continuous("y");
    let kind = choose("kind", 3);
    let tag = flag("tag");
    let form = choose("form", 9);
    let (vx, vy, s) = (any("vx"), any("vy"), any("s"));
    let sum = FunctionAdd::new(vec![x.clone(), y.clone()]);
    let vsum = sum.evaluate(&HashMap::from([(&x, vx), (&y, vy)])); // sums are C01's matter
    // form: left and right side
    macro_rules! cmp { ($l: expr, $r: expr) => {{
        let (l, r) = (&$l, $r);
        match (kind, tag) {
            (0, false) => l.equal(r), (0, true) => l.equal_and_tag(r, "t"),
            (1, false) => l.leq(r), (1, true) => l.leq_and_tag(r, "t"),
            (2, false) => l.geq(r), (_, _) => l.geq_and_tag(r, "t"),
        }
    }} }

    let (c, l, r, uses_x, uses_y) = match form {
        0 => (cmp!(x, s), vx, s, true, false),
        1 => (cmp!(x, &y), vx, vy, true, true),
        2 => (cmp!(x, y.clone()), vx, vy, true, true),
        3 => (cmp!(s, &x), s, vx, true, false),
        4 => (cmp!(s, x.clone()), s, vx, true, false),
        5 => (cmp!(sum, s), vsum, s, true, true),
        6 => (cmp!(s, &sum), s, vsum, true, true),
        7 => (cmp!(ConstantScalar::new(s), &ConstantScalar::new(vy)), s, vy, false, false),
        _ => (Constraint::new(x.clone(), match kind { 0 => ConstraintKind::Equal, 1 => ConstraintKind::LessEqual, _ => ConstraintKind::GreaterEqual }, y.clone(), if tag { "t" } else { "" }), vx, vy, true, true),
    };

    note(&format!("kind {} form {} tag {}", kind, form, tag));
    check("kind", *c.kind() == match kind { 0 => ConstraintKind::Equal, 1 => ConstraintKind::LessEqual, _ => ConstraintKind::GreaterEqual });
    check("label", c.label() == if tag { "t" } else { "" });
    let present = choose("present", 4);
    let mut h: HashMap<&Node, f64> = HashMap::new();
    if present & 1 == 1 { h.insert(&x, vx); }
    if present & 2 == 2 { h.insert(&y, vy); }
    let missing = (uses_x && present & 1 == 0) || (uses_y && present & 2 == 0);
    if flag("evaluated before") { c.violation(&HashMap::from([(&x, 1.5), (&y, -2.)])); }
    let v = c.violation(&h);
    observe("violation", v);
    if missing {
        prove("missing value is not reported as satisfied", &ne(v, 0.));
        reached("missing");
    } else {
        let sat = match kind { 0 => eq(l, r), 1 => le(l, r), _ => le(r, l) };
        prove("zero exactly when satisfied", &iff(&eq(v, 0.), &sat));
        let diff = match kind { 1 => l - r, 2 => r - l, _ => (l - r).abs() };
        prove("amount of the violation", &implies(&not(&sat), &same(v, diff)));
        prove("not negative", &or(&le(0., v), &isnan(v)));
        reached("complete");
    }
}

/// C08: standard form.
pub fn c08(p: &[usize]) {
    let g = Gen { nv: p[0], nc: p[1], ns: p[2], k: p[3], ops: p[4] as u32, build: if p[5] == 1 { Build::Constructors } else { Build::Operators }, int: false };
    let hs = choose("hash seed", p[6]);
    hash_seed(hs as u64 + 3);
    naming(1 + hs % 2);
    let mut pr = program(&g);
    let n = pr.vars.len();
    let left = pr.last();
    // right-hand side
    let kind = choose("kind", 3);
    let s = real("rhs");
    let rhs = choose("right side", 4);
    let swap = flag("swap");
    let nl = pr.items[left].node.clone().unwrap();
    let (rn, ri): (Node, usize) = match rhs {
        0 => { pr.items.push(Item { op: Cst, node: Some(ConstantScalar::new(s)), val: s }); (pr.items.last().unwrap().node.clone().unwrap(), pr.last()) }
        1 => (pr.vars[0].clone(), 0),
        2 => (pr.vars[n - 1].clone(), n - 1),
        _ => {
            pr.items.push(Item { op: Cst, node: Some(ConstantScalar::new(s)), val: s });
            let c = pr.last();
            step(&mut pr, Add(n - 1, c), Build::Operators);
            (pr.items.last().unwrap().node.clone().unwrap(), pr.last())
        }
    };
    let rel = |a: &Node, b: &Node| match kind { 0 => a.equal(b), 1 => a.leq(b), _ => a.geq(b) };
    let c = if swap { rel(&rn, &nl) } else { rel(&nl, &rn) };
    note(&format!("{} {} {} swap {}", pr.describe(left), ["==", "<=", ">="][kind], pr.describe(ri), swap));
    let xs: Vec<f64> = (0..n).map(|i| real(&format!("v{}", i))).collect();
    let js = pr.jets(&xs);
    let d = if swap { js[ri].sub(&js[left]) } else { js[left].sub(&js[ri]) };
    let (l, r) = if swap { (js[ri].v, js[left].v) } else { (js[left].v, js[ri].v) };
    let sat = match kind { 0 => eq(l, r), 1 => le(l, r), _ => le(r, l) };

    let (a0, j0) = if flag("offset") { (2usize, 5usize) } else { (0, 0) };
    let (mut ar, mut jr) = (a0, j0);
    let comp = c.std_components(&mut ar, &mut jr);

    check("linear rows allocated", ar == a0 + comp.b.len() && comp.ca.len() == comp.b.len());
    check("nonlinear rows allocated", jr == j0 + comp.f.len() && comp.cj.len() == comp.f.len() && comp.h.len() == comp.f.len());
    check("row constraints", comp.ca.iter().chain(comp.cj.iter()).all(|k| *k == c));
    check("limit constraints", comp.u.iter().chain(comp.l.iter()).all(|k| k.2 == c));
    check("linear row numbers", comp.a.iter().all(|t| t.0 >= a0 && t.0 < ar));
    check("nonlinear row numbers", comp.j.iter().all(|t| t.0 >= j0 && t.0 < jr));

    // auxiliary variables: everything that is not a variable of the constraint
    let idx = |v: &Node| pr.vars.iter().position(|w| w == v);
    let mut aux: Vec<Node> = Vec::new();
    let seen: Vec<Node> = comp.a.iter().map(|t| t.1.clone()).chain(comp.j.iter().map(|t| t.1.clone()))
        .chain(comp.u.iter().map(|t| t.0.clone())).chain(comp.l.iter().map(|t| t.0.clone())).collect();
    for v in seen { if idx(&v).is_none() && !aux.contains(&v) { aux.push(v); } }
    check("auxiliary variables are continuous", aux.iter().all(|v| matches!(v, Node::VariableScalar(w) if !w.is_integer())));
    let known: HashSet<&Node> = comp.prop.iter().flat_map(|q| q.a.keys()).collect();
    check("auxiliary variables are reported", aux.iter().all(|v| known.contains(v)));
    for v in comp.a.iter().map(|t| &t.1).chain(comp.j.iter().map(|t| &t.1)).chain(comp.u.iter().map(|t| &t.0)).chain(comp.l.iter().map(|t| &t.0)) {
        check("variables are reported", known.contains(v));
    }
    // each auxiliary variable is determined by the one row it occurs in
    let mut auxval: Vec<Option<f64>> = vec![None; aux.len()];
    let mut conds: Vec<B> = Vec::new();
    for i in 0..comp.b.len() {
        let mut sum = 0. - comp.b[i];
        let mut ks: Vec<(usize, f64)> = Vec::new();
        for (row, v, k) in comp.a.iter() {
            if *row != a0 + i { continue; }
            match idx(v) {
                Some(q) => sum = sum + *k * xs[q],
                None => ks.push((aux.iter().position(|w| w == v).unwrap(), *k)),
            }
        }
        match ks.len() {
            0 => conds.push(eq(sum, 0.)),
            1 => {
                check("auxiliary variable in one row", auxval[ks[0].0].is_none());
                prove("auxiliary coefficient is not zero", &ne(ks[0].1, 0.));
                auxval[ks[0].0] = Some((0. - sum) / ks[0].1);
            }
            _ => check("one auxiliary variable per row", false),
        }
        reached("linear row");
    }
    for i in 0..comp.f.len() {
        let eval = |a: f64| {
            let mut h = pr.point(&xs);
            for v in aux.iter() { h.insert(v, a); }
            comp.f[i].evaluate(&h)
        };
        let (f0, f1) = (eval(0.), eval(1.));
        let k = f1 - f0;
        let t = real("t");
        prove_same("row is linear in its auxiliary variable", eval(t), f0 + k * t);
        // derivatives of the row
        let mut grad: Vec<Option<f64>> = vec![None; n + aux.len()];
        let t2 = real("t2");
        let mut h = pr.point(&xs);
        for v in aux.iter() { h.insert(v, t2); }
        for (row, v, e) in comp.j.iter() {
            if *row != j0 + i { continue; }
            let q = idx(v).unwrap_or_else(|| n + aux.iter().position(|w| w == v).unwrap());
            check("one Jacobian entry per variable", grad[q].is_none());
            grad[q] = Some(e.evaluate(&h));
        }
        for q in 0..n { prove_same("Jacobian entry", grad[q].unwrap_or(0.), d.g[q]); }
        prove_same("row function", f0, d.v);
        let mut hh = vec![vec![None; n]; n];
        for (v, w, e) in comp.h[i].iter() {
            match (idx(v), idx(w)) {
                (Some(a), Some(b)) => {
                    let (a, b) = (a.min(b), a.max(b));
                    check("one Hessian entry per pair", hh[a][b].is_none());
                    hh[a][b] = Some(e.evaluate(&h));
                }
                _ => prove_same("Hessian entry of an auxiliary variable", e.evaluate(&h), 0.),
            }
        }
        for a in 0..n { for b in a..n { prove_same("Hessian entry", hh[a][b].unwrap_or(0.), d.h[a][b]); } }
        let here: Vec<usize> = (0..aux.len()).filter(|q| comp.j.iter().any(|t| t.0 == j0 + i && t.1 == aux[*q])).collect();
        match here.len() {
            0 => { prove_same("no auxiliary variable without Jacobian entry", f0, f1); conds.push(eq(f0, 0.)) }
            1 => {
                check("auxiliary variable in one row", auxval[here[0]].is_none());
                let k = grad[n + here[0]].unwrap();
                prove_same("Jacobian entry of the auxiliary variable", f0 + k, f1);
                prove("auxiliary coefficient is not zero", &ne(k, 0.));
                auxval[here[0]] = Some((0. - f0) / k);
            }
            _ => check("one auxiliary variable per row", false),
        }
        reached("nonlinear row");
    }
    check("auxiliary variables are determined", auxval.iter().all(|v| v.is_some()));
    let val = |v: &Node| match idx(v) { Some(q) => xs[q], None => auxval[aux.iter().position(|w| w == v).unwrap()].unwrap() };
    for (v, b, _) in comp.u.iter() { conds.push(le(val(v), *b)); observe("limit", *b); }
    for (v, b, _) in comp.l.iter() { conds.push(le(*b, val(v))); observe("limit", *b); }
    prove("equivalent to the constraint", &iff(&sat, &all(&conds)));
    if comp.b.is_empty() && comp.f.is_empty() { reached("limit only"); }
}
