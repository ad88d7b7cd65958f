//! C24: a model, a real solver interface and what it reports, from end to end.

use crate::io::{entries, plain_milp, same_lp, same_sol, scratch, sol_line, Milp, CBC, CLP};
use crate::ipopt::during_solve;
use crate::model::*;
use numopt::model::*;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::cbc_cmd::SolverCbcCmd;
use numopt::solver::clp_cmd::SolverClpCmd;
use numopt::solver::ipopt::SolverIpopt;
use simple_error::SimpleError;
use std::collections::HashMap;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::PathBuf;
use symrt::*;

const BIG: f64 = 1e8;

/// `x` is within its limits, and the multipliers of its limits are those of a solution.
fn at_limits(x: f64, l: f64, u: f64, zl: f64, zu: f64) -> B {
    all(&[le(l, x), le(x, u), le(0., zl), le(0., zu),
        or(&eq(zl, 0.), &and(&eq(x, l), &lt(-BIG, l))), or(&eq(zu, 0.), &and(&eq(x, u), &lt(u, BIG)))])
}

/// Passes a problem on to a command-line solver whose process will write an optimal solution of it.
struct Relay<'a> { inner: &'a dyn Solver, file: PathBuf, cbc: bool, params: HashMap<String, SolverParam> }
impl<'a> Solver for Relay<'a> {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.params }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.params }
    fn solve(&self, problem: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        let (c, a, b, l, u, integer) = match problem {
            Problem::Lp(p) => (p.c().to_vec(), p.a().iter().map(|t| (*t.0, *t.1, *t.2)).collect::<Vec<_>>(), p.b().to_vec(), p.l().to_vec(), p.u().to_vec(), false),
            Problem::Milp(p) => (p.c().to_vec(), p.a().iter().map(|t| (*t.0, *t.1, *t.2)).collect::<Vec<_>>(), p.b().to_vec(), p.l().to_vec(), p.u().to_vec(), true),
            _ => { fs::remove_file(&self.file).ok(); return self.inner.solve(problem); }
        };
        let (nx, na) = (c.len(), b.len());
        let x: Vec<f64> = (0..nx).map(|i| real(&format!("rx{}", i))).collect();
        let y: Vec<f64> = (0..na).map(|i| real(&format!("ry{}", i))).collect();
        // with integer variables the multipliers mean nothing
        let mut d = if integer { vec![0.; nx] } else { c.clone() };
        let mut rows: Vec<f64> = b.iter().map(|v| 0. - *v).collect();
        for (i, j, v) in a.iter() { if !integer { d[*j] = d[*j] - *v * y[*i]; } rows[*i] = rows[*i] + *v * x[*j]; }
        let mut ok: Vec<B> = rows.iter().map(|r| eq(*r, 0.)).collect();
        for j in 0..nx {
            if integer { ok.push(and(&le(l[j], x[j]), &le(x[j], u[j]))); continue; }
            ok.push(and(&le(l[j], x[j]), &le(x[j], u[j])));
            ok.push(or(&le(d[j], 0.), &and(&eq(x[j], l[j]), &lt(-BIG, l[j]))));
            ok.push(or(&le(0., d[j]), &and(&eq(x[j], u[j]), &lt(u[j], BIG))));
        }
        assume(&all(&ok));
        let mut text = (if self.cbc { CBC } else { CLP })[0].0.to_string();
        for it in (nx..nx + na).chain(0..nx) {
            let (v, m) = if it < nx { (x[it], d[it]) } else { (b[it - nx], y[it - nx]) };
            text.push_str(&sol_line(0, it, nx, v, m).0);
            text.push('\n');
        }
        fs::write(&self.file, text).unwrap();
        self.inner.solve(problem)
    }
}

/// C24: the published values solve the model.
pub fn c24(p: &[usize]) {
    let (solvers, n, tset, solves) = (p[0], p[1], p[2], p[3]);
    let which = match solvers { 0 => choose("cbc or clp", 2), 1 => 2, _ => choose("solver", 3) };
    let mut md;
    if tset == 9 {
        let seed = choose("model", n) + p[5];
        let nv = p[4];
        let names: Vec<String> = (0..nv).map(|i| format!("x{}", if seed % 2 == 0 { i } else { nv - i })).collect();
        md = model_of(&names.iter().map(|n| &n[..]).collect::<Vec<_>>(), &vec![false; nv]);
        md.large(if which < 2 { 3 * seed } else { seed }, p[6], 1);
    } else {
        md = new_model(choose("naming", if p[4] == 1 { 2 } else { 1 }), [p[4] == 1 && flag("x integer"), false]);
        let objs: &[usize] = match (p[4], which) { (2, _) => &[1], (_, 2) => &[1, 2, 4, 5], _ => &[1, 6, 0] };
        let o = objs[choose("objective", objs.len())];
        let max = if p[4] == 2 { which == 1 } else { o > 0 && flag("maximize") };
        md.objective(o, max);
    }
    let sets: [&[usize]; 3] = [&[0, 1, 2, 3, 4, 5, 7, 9, 11, 13, 16, 17], &[0, 1, 4, 6, 8, 12, 14, 15, 18], &[0, 1, 5]];
    if tset < 9 { for _ in 0..choose("constraints", n + 1) { md.template(sets[tset][choose("template", sets[tset].len())]); } }
    let dir = scratch();
    let file = dir.join("answer");
    std::env::set_var("PATH", dir.join("bin"));
    std::env::set_var("TMPDIR", &dir);
    fs::create_dir(dir.join("bin")).unwrap();
    for n in ["cbc", "clp"] {
        let exe = dir.join("bin").join(n);
        fs::write(&exe, format!("#!/bin/sh\nfor last; do :; done\n/bin/cp {} \"$last\"\n", file.display())).unwrap();
        fs::set_permissions(&exe, fs::Permissions::from_mode(0o755)).unwrap();
    }
    std::env::set_current_dir(&dir).unwrap();
    let (mut cbc, mut clp, ipopt) = (SolverCbcCmd::new(), SolverClpCmd::new(), SolverIpopt::new());
    cbc.set_param("logLevel", SolverParam::IntParam(0)).unwrap();
    clp.set_param("logLevel", SolverParam::IntParam(0)).unwrap();
    let mut model = md.build();
    for t in 0..solves {
        if t > 0 {
            match choose("edit", 3) {
                0 => { let k = sets[tset][choose("template", sets[tset].len())]; md.template(k); model.add_constraint(&md.cons.last().unwrap().node); }
                1 => { md.objective(7, t % 2 == 1); md.put_objective(&mut model); }
                _ => (),
            }
        }
        let nv = md.pr.vars.len();
        note(&format!("{} {}", ["cbc", "clp", "ipopt"][which], md.describe()));
        let r = if which < 2 {
            let inner: &dyn Solver = if which == 0 { &cbc } else { &clp };
            model.solve(&Relay { inner, file: file.clone(), cbc: which == 0, params: HashMap::new() })
        } else {
            during_solve(|c| {
                let x: Vec<f64> = (0..c.nx()).map(|i| real(&format!("rx{}", i))).collect();
                let lam: Vec<f64> = (0..c.rows()).map(|i| real(&format!("ry{}", i))).collect();
                let zu: Vec<f64> = (0..c.nx()).map(|i| real(&format!("rz{}", i))).collect();
                let mut ok: Vec<B> = c.g(&x).iter().map(|g| eq(*g, 0.)).collect();
                let mut zl = c.gradient(&x);
                for (i, j, v) in c.jacobian(&x) { zl[j] = zl[j] + v * lam[i]; }
                for j in 0..c.nx() {
                    zl[j] = zl[j] + zu[j];
                    let (l, u) = c.limits(j);
                    ok.push(at_limits(x[j], l, u, zl[j], zu[j]));
                }
                assume(&all(&ok));
                (x, lam, zl, zu)
            });
            model.solve(&ipopt)
        };
        let nonlinear = md.cons.iter().any(|c| c.nonlinear) || (md.obj.is_some() && md.obj_nonlinear);
        // an integer variable whose coefficients vanish may be dropped: no value is published for it
        let integer = (0..nv).any(|v| md.int[v] && md.occurs(v) && (r.is_err() || model.final_primals().contains_key(&md.pr.vars[v])));
        let supported = match which { 0 => !nonlinear, 1 => !nonlinear && !integer, _ => !integer };
        if !supported {
            check("a problem the solver can not solve is an error", r.is_err() && model.solver_status().is_none() && model.final_primals().is_empty() && model.final_duals().is_empty());
            reached("refused");
            continue;
        }
        check("solved", r.is_ok() && model.solver_status() == Some(&SolverStatus::Solved));
        let prim = model.final_primals();
        let xs: Vec<f64> = md.pr.vars.iter().map(|v| prim.get(v).copied().unwrap_or_else(|| real("elsewhere"))).collect();
        for x in xs.iter() { observe("value", *x); }
        let js = md.pr.jets(&xs);
        let vals: Vec<f64> = js.iter().map(|j| j.v).collect();
        for (c, s) in md.cons.iter().zip(md.sat(&vals)) { prove(&format!("the values satisfy {}", c.text), &s); }
        reached("feasible");
        if integer { continue; }
        let duals = model.final_duals();
        // gradient of the objective less those of the constraints by their multipliers
        let mut rest: Vec<f64> = match md.obj { None => vec![0.; nv], Some((e, false)) => js[e].g.clone(), Some((e, true)) => js[e].neg().g };
        for c in md.cons.iter() {
            let d = duals.get(&c.node).copied().unwrap_or(0.);
            observe("multiplier", d);
            let k = js[c.l].sub(&js[c.r]);
            for v in 0..nv { rest[v] = if c.rel == Rel::Le { rest[v] + d * k.g[v] } else { rest[v] - d * k.g[v] }; }
            if c.rel != Rel::Eq {
                prove("multiplier of an inequality is not negative", &le(0., d));
                prove("multiplier of an inequality with room is zero", &or(&eq(d, 0.), &eq(vals[c.l], vals[c.r])));
            }
        }
        for v in 0..nv { prove("the multipliers balance the objective", &eq(rest[v], 0.)); }
        reached("optimal");
    }
    std::env::set_current_dir("/").ok();
    fs::remove_dir_all(&dir).ok();
}

/// Runs a solve on a problem of which some other thread knows nothing.
fn run(cbc: bool, m: &Milp) -> Result<(SolverStatus, ProblemSol), SimpleError> {
    let mut p = if cbc && m.p.contains(&true) { Problem::Milp(m.milp()) } else { Problem::Lp(m.lp()) };
    if cbc {
        let mut s = SolverCbcCmd::new();
        s.set_param("logLevel", SolverParam::IntParam(0))?;
        s.solve(&mut p)
    } else {
        let mut s = SolverClpCmd::new();
        s.set_param("logLevel", SolverParam::IntParam(0))?;
        s.solve(&mut p)
    }
}

/// C25: two command-line solves in progress at the same time, in one working directory.
pub fn c25(_p: &[usize]) {
    let dir = scratch();
    let (bin, work, tmp) = (dir.join("bin"), dir.join("work"), dir.join("tmp"));
    for d in [&bin, &work, &tmp] { fs::create_dir(d).unwrap(); }
    std::env::set_var("PATH", &bin);
    std::env::set_var("TMPDIR", &tmp);
    std::env::set_current_dir(&work).unwrap();
    fs::write(work.join("keep.txt"), "keep").unwrap();
    let cbc = [flag("first is cbc"), flag("second is cbc")];
    // the second solve ends within the first one, or the first one ends within the second one
    let overlap = flag("overlap");
    let outcome = choose("second outcome", 5);
    let v = choose("variant", 3);
    // the processes write their solution before or after they wait; the second problem is larger or not
    let (early, more) = ([false, true, true][v], [0, 0, 1][v]);
    let size = |k: usize| (2 + k * more, 1 + k * more);
    let ms: Vec<Milp> = (0..2).map(|k| {
        let mut m = plain_milp(size(k).0, size(k).1);
        m.a.vals[0] = real(&format!("a{}", k));
        m.p = (0..size(k).0).map(|i| cbc[k] && i == 1).collect();
        m
    }).collect();
    let mut listed = vec![vec![], vec![]];
    for k in 0..2 {
        let (nx, na) = size(k);
        let mut text = (if cbc[k] { CBC } else { CLP })[if k == 1 && outcome == 1 { 1 } else { 0 }].0.to_string();
        for it in (nx..nx + na).chain(0..nx) {
            let (v, mu) = (real(&format!("v{}_{}", k, it)), if it == 0 { real(&format!("m{}", k)) } else { 1.5 - it as f64 });
            text.push_str(&sol_line(0, it, nx, v, mu).0);
            text.push('\n');
            listed[k].push((it, v, mu));
        }
        if k == 0 || outcome < 2 || outcome == 4 { fs::write(dir.join(format!("sol{}", k)), text).unwrap(); }
    }
    if outcome == 3 { fs::write(dir.join("kill1"), "").unwrap(); }
    if outcome == 4 { fs::write(dir.join("fail1"), "").unwrap(); }
    let script = "#!/bin/sh\nif /bin/mkdir D/turn0 2>/dev/null; then k=0; else /bin/mkdir D/turn1 || exit 9; k=1; fi\nprintf '%s\\n' \"$@\" > D/args$k\nfor last; do :; done\n/bin/cp \"$1\" D/in$k\n: > D/started$k\n\
        if [ -e D/early ] && [ -e D/sol$k ]; then /bin/cp D/sol$k \"$last\"; fi\nif [ $k = 1 ] && [ -e D/overlap ]; then : > D/go0; fi\nn=0\nwhile [ ! -e D/go$k ]; do /bin/sleep 0.004; n=$((n+1)); if [ $n -gt 1500 ]; then exit 9; fi; done\n/bin/cp \"$1\" D/again$k\n\
        if [ ! -e D/early ] && [ -e D/sol$k ]; then /bin/cp D/sol$k \"$last\"; fi\nif [ -e D/kill$k ]; then kill -9 $$; fi\nif [ -e D/fail$k ]; then exit 3; fi\nexit 0\n".replace("D/", &format!("{}/", dir.display()));
    for n in ["cbc", "clp"] {
        fs::write(bin.join(n), &script).unwrap();
        fs::set_permissions(bin.join(n), fs::Permissions::from_mode(0o755)).unwrap();
    }
    fs::write(dir.join(if overlap { "overlap" } else { "go1" }), "").unwrap();
    if early { fs::write(dir.join("early"), "").unwrap(); }
    let started = std::ffi::CString::new(dir.join("started0").display().to_string()).unwrap();
    let over = std::ffi::CString::new(dir.join("over").display().to_string()).unwrap();
    let go0 = dir.join("go0");
    let (cbc1, m1) = (cbc[1], Milp { c: ms[1].c.clone(), a: ms[1].a.clone(), b: ms[1].b.clone(), l: ms[1].l.clone(), u: ms[1].u.clone(), p: ms[1].p.clone() });
    // random names of the second thread are not those of the first
    hash_seed(987654321);
    let second = std::thread::spawn(move || {
        unsafe { while libc::access(started.as_ptr(), libc::F_OK) != 0 && libc::access(over.as_ptr(), libc::F_OK) != 0 { libc::usleep(500); } }
        let r = catch(|| run(cbc1, &m1));
        fs::write(go0, "").ok();
        r
    });
    let first = catch(|| run(cbc[0], &ms[0]));
    fs::write(dir.join("over"), "").unwrap();
    fs::write(dir.join("go1"), "").unwrap();
    let second = second.join().unwrap_or_else(|_| Err("panic".to_string()));
    note(&format!("first cbc {} second cbc {} overlap {} outcome {} early {} larger {}", cbc[0], cbc[1], overlap, outcome, early, more));
    check("both return", first.is_ok() && second.is_ok());
    check("both processes ran", ["args0", "args1", "again0", "again1"].iter().all(|f| dir.join(f).exists()));
    for k in 0..2 { for f in ["in", "again"] {
        same_lp(&fs::read_to_string(dir.join(format!("{}{}", f, k))).unwrap_or_default(), &ms[k]);
    } }
    match first.unwrap() {
        Ok((SolverStatus::Solved, sol)) => same_sol(&sol, 2, 1, &listed[0]),
        _ => check("the first solve has its solution", false),
    }
    match (outcome, second.unwrap()) {
        (0, Ok((SolverStatus::Solved, sol))) => { same_sol(&sol, size(1).0, size(1).1, &listed[1]); reached("both solved"); }
        (1, r) => { check("the second is infeasible", matches!(r, Ok((SolverStatus::Infeasible, _)))); reached("one infeasible"); }
        (0, _) => check("the second solve has its solution", false),
        (_, r) => { check("no claim without a solution", !matches!(r, Ok((SolverStatus::Solved, _)) | Ok((SolverStatus::Infeasible, _)))); reached("one failed"); }
    }
    check("no file is left behind", entries(&work) == ["keep.txt"]);
    std::env::set_current_dir("/").ok();
    fs::remove_dir_all(&dir).ok();
}
