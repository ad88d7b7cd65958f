//! C21, C22: solver parameters; printed expressions, constraints and models.

use crate::gen::*;
use numopt::model::*;
use numopt::model::model::Objective;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::cbc_cmd::SolverCbcCmd;
use numopt::solver::clp_cmd::SolverClpCmd;
use numopt::solver::ipopt::SolverIpopt;
use simple_error::SimpleError;
use std::collections::HashMap;
use symrt::*;

// ---------------------------------------------------------------- C21

/// A user's solver with a parameter of every type.
struct Own { parameters: HashMap<String, SolverParam> }
impl Solver for Own {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.parameters }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.parameters }
    fn solve(&self, _p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> { Err(SimpleError::new("none")) }
}

fn agree(s: &dyn Solver, want: &[(String, SolverParam)], names: &[&str]) {
    check("no parameter is created or removed", s.get_params().len() == want.len());
    for (n, w) in want {
        match (s.get_param(n), w) {
            (Some(SolverParam::IntParam(a)), SolverParam::IntParam(b)) => check("integer value", a == b),
            (Some(SolverParam::FloatParam(a)), SolverParam::FloatParam(b)) => prove_same("float value", *a, *b),
            (Some(SolverParam::StrParam(a)), SolverParam::StrParam(b)) => check("string value", a == b),
            _ => check("a parameter keeps its type", false),
        }
    }
    for n in names { if !want.iter().any(|w| w.0 == *n) { check("unknown parameter", s.get_param(n).is_none()); } }
}

pub fn c21(p: &[usize]) {
    let (sets, wide) = (p[0], p[1] == 1);
    let (mut cbc, mut clp, mut ipopt);
    let mut own;
    let mut want: Vec<(String, SolverParam)>;
    let names: Vec<&str>;
    let which = choose("solver", 4);
    let s: &mut dyn Solver = match which {
        0 => { cbc = SolverCbcCmd::new(); want = vec![("logLevel".into(), SolverParam::IntParam(5))]; names = vec!["logLevel", "loglevel", "print_level", "", "logLevel "]; &mut cbc }
        1 => { clp = SolverClpCmd::new(); want = vec![("logLevel".into(), SolverParam::IntParam(5))]; names = vec!["logLevel", "LogLevel", "sb", "", "log"]; &mut clp }
        2 => { ipopt = SolverIpopt::new(); want = vec![("print_level".into(), SolverParam::IntParam(5)), ("sb".into(), SolverParam::StrParam("no".into()))]; names = vec!["print_level", "sb", "SB", "logLevel", ""]; &mut ipopt }
        _ => {
            want = vec![("i".into(), SolverParam::IntParam(1)), ("f".into(), SolverParam::FloatParam(any("start"))), ("s".into(), SolverParam::StrParam("one".into())), ("f2".into(), SolverParam::FloatParam(2.))];
            own = Own { parameters: want.iter().cloned().collect() };
            names = vec!["i", "f", "s", "f2", "g"];
            &mut own
        }
    };
    agree(s, &want, &names);
    let mut story = Vec::new();
    for t in 0..sets {
        let n = names[choose("name", names.len())];
        let v = match choose("value", if wide { 12 } else { 5 }) {
            0 => SolverParam::IntParam(-7),
            1 => SolverParam::FloatParam(any(&format!("f{}", t))),
            2 => SolverParam::StrParam("yes".into()),
            3 => SolverParam::IntParam(5),
            4 => SolverParam::StrParam("5".into()),
            5 => SolverParam::IntParam(i32::MAX),
            6 => SolverParam::IntParam(0),
            7 => SolverParam::StrParam("".into()),
            8 => SolverParam::IntParam(i32::MIN),
            9 => SolverParam::IntParam(65536),
            10 => SolverParam::StrParam(" Yes \t".into()),
            _ => SolverParam::StrParam("no\0\u{e9}".into()),
        };
        let old = want.iter().position(|w| w.0 == n);
        let fits = old.map_or(false, |i| std::mem::discriminant(&want[i].1) == std::mem::discriminant(&v));
        let r = s.set_param(n, v.clone());
        story.push(format!("{:?}={}", n, match &v { SolverParam::IntParam(i) => format!("{}", i), SolverParam::FloatParam(_) => "float".into(), SolverParam::StrParam(x) => format!("{:?}", x) }));
        check("set succeeds exactly for a known name and its type", r.is_ok() == fits);
        if fits { want[old.unwrap()].1 = v; reached("set"); } else { reached("refused"); }
        agree(s, &want, &names);
    }
    note(&format!("solver {}: {}", which, story.join(" ")));
}

// ---------------------------------------------------------------- C22

/// Reads an expression: numbers, variables by name, + - * / (left associative), sin, cos, parentheses.
struct Reader<'a> { t: Vec<char>, i: usize, vars: &'a [(&'a str, f64)] }
impl<'a> Reader<'a> {
    fn ws(&mut self) { while self.i < self.t.len() && self.t[self.i].is_whitespace() { self.i += 1; } }
    fn peek(&mut self) -> char { self.ws(); if self.i < self.t.len() { self.t[self.i] } else { '\0' } }
    fn sum(&mut self) -> Option<f64> {
        let mut v = self.product()?;
        loop {
            match self.peek() {
                '+' => { self.i += 1; v = v + self.product()?; }
                '-' => { self.i += 1; v = v - self.product()?; }
                _ => return Some(v),
            }
        }
    }
    fn product(&mut self) -> Option<f64> {
        let mut v = self.factor()?;
        loop {
            match self.peek() {
                '*' => { self.i += 1; v = v * self.factor()?; }
                '/' => { self.i += 1; v = v / self.factor()?; }
                _ => return Some(v),
            }
        }
    }
    fn factor(&mut self) -> Option<f64> {
        match self.peek() {
            '-' => { self.i += 1; Some(0. - self.factor()?) }
            '+' => { self.i += 1; self.factor() }
            '(' => {
                self.i += 1;
                let v = self.sum()?;
                if self.peek() != ')' { return None; }
                self.i += 1;
                Some(v)
            }
            '@' => {
                let e = self.i + 1 + self.t[self.i + 1..].iter().position(|c| *c == '@')?;
                let s: String = self.t[self.i..=e].iter().collect();
                self.i = e + 1;
                parse_token(&s)
            }
            c if c.is_ascii_digit() || c == '.' => {
                let b = self.i;
                while self.i < self.t.len() {
                    let c = self.t[self.i];
                    let exp = (c == '-' || c == '+') && matches!(self.t[self.i - 1], 'e' | 'E');
                    if c.is_ascii_digit() || c == '.' || c == 'e' || c == 'E' || exp { self.i += 1; } else { break; }
                }
                let s: String = self.t[b..self.i].iter().collect();
                s.parse::<f64>().ok()
            }
            c if c.is_alphabetic() || c == '_' => {
                let b = self.i;
                while self.i < self.t.len() && (self.t[self.i].is_alphanumeric() || self.t[self.i] == '_') { self.i += 1; }
                let s: String = self.t[b..self.i].iter().collect();
                if (s == "sin" || s == "cos") && self.peek() == '(' {
                    self.i += 1;
                    let v = self.sum()?;
                    if self.peek() != ')' { return None; }
                    self.i += 1;
                    return Some(if s == "sin" { v.sin() } else { v.cos() });
                }
                self.vars.iter().find(|v| v.0 == s).map(|v| v.1)
            }
            _ => None,
        }
    }
}
fn read(text: &str, vars: &[(&str, f64)]) -> Option<f64> {
    let mut r = Reader { t: text.chars().collect(), i: 0, vars };
    let v = r.sum()?;
    if r.peek() == '\0' { Some(v) } else { None }
}

/// The text denotes what was written, or what the expression evaluates to.
fn denotes(label: &str, text: &str, vars: &[(&str, f64)], written: f64, node: &Node, at: &HashMap<&Node, f64>) {
    let v = read(text, vars);
    check("the text is an expression", v.is_some());
    prove(label, &or(&eq(v.unwrap(), written), &eq(v.unwrap(), node.evaluate(at))));
}

fn split<'a>(line: &'a str) -> Option<(&'a str, &'static str, &'a str)> {
    for r in ["==", "<=", ">="] { if let Some((a, b)) = line.split_once(r) { return Some((a, r, b)); } }
    None
}

/// C22: expressions.
pub fn c22(p: &[usize]) {
    let g = Gen { nv: p[0], nc: p[1], ns: p[2], k: p[3], ops: p[4] as u32, build: if p[5] == 1 { Build::Constructors } else { Build::Operators }, int: false };
    let pr = program(&g);
    let xs: Vec<f64> = (0..pr.vars.len()).map(|i| real(&format!("v{}", i))).collect();
    let vars: Vec<(&str, f64)> = NAMES.iter().zip(xs.iter()).map(|(n, v)| (*n, *v)).collect();
    let want = pr.vals(&xs);
    let h = pr.point(&xs);
    let n = pr.root();
    denotes("printed value", &format!("{}", n), &vars, want[pr.last()], n, &h);
    denotes("debug-printed value", &format!("{:?}", n), &vars, want[pr.last()], n, &h);
    reached("printed");
}

/// C22: a larger model.
pub fn c22_large(p: &[usize]) {
    let (count, nv, k) = (p[0], p[1], p[2]);
    let seed = choose("model", count);
    let names: Vec<String> = (0..nv).map(|i| format!("x{}", i)).collect();
    let mut md = crate::model::model_of(&names.iter().map(|n| &n[..]).collect::<Vec<_>>(), &vec![false; nv]);
    md.large(seed, k, 3);
    note(&md.describe());
    let xs: Vec<f64> = (0..nv).map(|i| real(&format!("v{}", i))).collect();
    let vars: Vec<(&str, f64)> = names.iter().zip(xs.iter()).map(|(n, v)| (&n[..], *v)).collect();
    let want = md.pr.vals(&xs);
    let h = md.pr.point(&xs);
    let text = format!("{}", md.build());
    let mut lines = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty());
    let (o, max) = md.obj.unwrap();
    let head = lines.next().unwrap_or("").to_lowercase();
    check("the sense is shown", head.contains("minimize") == !max && head.contains("maximize") == max);
    let l = lines.next();
    check("the objective is shown", l.is_some());
    denotes("objective", l.unwrap(), &vars, want[o], &md.node(o), &h);
    check("constraints are announced", lines.next().map_or(false, |l| l.to_lowercase().contains("subject to")));
    for c in md.cons.iter() {
        let l = lines.next();
        check("every constraint is shown", l.is_some());
        let (body, tag) = match l.unwrap().rsplit_once(':') { Some((a, b)) => (a, b.trim()), None => (l.unwrap(), "") };
        check("the tag is shown", tag == c.node.label());
        let sp = split(body);
        check("a relation is shown", sp.is_some());
        let (l, r, g) = sp.unwrap();
        check("the right relation", r == match c.rel { crate::model::Rel::Eq => "==", crate::model::Rel::Le => "<=", crate::model::Rel::Ge => ">=" });
        denotes("left side", l, &vars, want[c.l], c.node.lhs(), &h);
        denotes("right side", g, &vars, want[c.r], c.node.rhs(), &h);
    }
    check("nothing else is shown", lines.next().is_none());
    reached("model");
}

/// C22: constraints and models.
pub fn c22_model(p: &[usize]) {
    let (m, parts) = (p[0], p[1]);
    let mut pr = base(&Gen { nv: 2, nc: 1, ns: 0, k: 0, ops: 0, build: Build::Operators, int: true });
    let mut go = |op: Op| { step(&mut pr, op, Build::Operators); pr.items.len() - 1 };
    let (x, y, c) = (0, 1, 2);
    let s = go(Add(x, c));
    let d = go(Sub(c, y));
    let q = go(Mul(s, d));
    let r = go(Div(s, q));
    let t = go(Sin(r));
    let sides = [x, c, s, q, r, t, d];
    let xs: Vec<f64> = (0..2).map(|i| real(&format!("v{}", i))).collect();
    let vars = [("x", xs[0]), ("y", xs[1])];
    let want = pr.vals(&xs);
    let h = pr.point(&xs);
    let node = |i: usize| pr.items[i].node.as_ref().unwrap();
    let mut model = Model::new();
    let k = choose("constraints", m + 1);
    let mut cons = Vec::new();
    for i in 0..k {
        let (a, b) = (sides[choose("left", parts)], sides[choose("right", parts)]);
        let rel = choose("relation", 3);
        let tag = if flag("tag") { ["t", "second: tag"][i % 2] } else { "" };
        let num = b == c && flag("number");
        let cn = match (rel, tag, num) {
            (0, "", false) => node(a).equal(node(b)), (1, "", false) => node(a).leq(node(b)), (_, "", false) => node(a).geq(node(b)),
            (0, "", true) => node(a).equal(pr.items[c].val), (1, "", true) => node(a).leq(pr.items[c].val), (_, "", true) => node(a).geq(pr.items[c].val),
            (0, g, false) => node(a).equal_and_tag(node(b), g), (1, g, false) => node(a).leq_and_tag(node(b), g), (_, g, false) => node(a).geq_and_tag(node(b), g),
            (0, g, true) => node(a).equal_and_tag(pr.items[c].val, g), (1, g, true) => node(a).leq_and_tag(pr.items[c].val, g), (_, g, true) => node(a).geq_and_tag(pr.items[c].val, g),
        };
        model.add_constraint(&cn);
        cons.push((a, b, ["==", "<=", ">="][rel], tag, cn));
    }
    let one = |line: &str, (a, b, rel, _, cn): &(usize, usize, &str, &str, Constraint)| {
        let sp = split(line);
        check("a relation is shown", sp.is_some());
        let (l, r, g) = sp.unwrap();
        check("the right relation", r == *rel);
        denotes("left side", l, &vars, want[*a], cn.lhs(), &h);
        denotes("right side", g, &vars, want[*b], cn.rhs(), &h);
    };
    for cn in cons.iter() {
        one(&format!("{}", cn.4), cn);
        one(&format!("{:?}", cn.4), cn);
    }
    let obj = sides[1 + choose("objective", parts - 1)];
    let sense = choose("sense", 3);
    match sense { 0 => model.set_objective(Objective::minimize(node(obj))), 1 => model.set_objective(Objective::maximize(node(obj))), _ => () }
    let text = format!("{}", model);
    note(&format!("sense {} objective {} constraints {:?}", sense, pr.describe(obj), cons.iter().map(|c| (pr.describe(c.0), c.2, pr.describe(c.1), c.3)).collect::<Vec<_>>()));
    let mut lines = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty());
    let head = lines.next().unwrap_or("").to_lowercase();
    check("the sense is shown", head.contains("minimize") == (sense == 0) && head.contains("maximize") == (sense == 1));
    if sense < 2 {
        let o = lines.next();
        check("the objective is shown", o.is_some());
        denotes("objective", o.unwrap(), &vars, want[obj], node(obj), &h);
    }
    if k > 0 {
        check("constraints are announced", lines.next().map_or(false, |l| l.to_lowercase().contains("subject to")));
        for cn in cons.iter() {
            let l = lines.next();
            check("every constraint is shown", l.is_some());
            let (body, tag) = match l.unwrap().split_once(':') { Some((b, t)) => (b, t.trim()), None => (l.unwrap(), "") };
            check("the tag is shown", tag == cn.3);
            one(body, cn);
        }
    }
    check("nothing else is shown", lines.next().is_none());
    reached("model");
}
