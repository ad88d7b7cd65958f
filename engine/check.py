#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]

Symbolic execution of the real code for one property.  Exit 0: held on everything explored;
1: violated (a VIOLATION line names the replay file); 2: no answer.
"""
import json
import math
import os
import random
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from explore import explore
from props import PROPS

ROOT = B.ROOT


def f2b(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def b2f(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def native(binary, run, model, choices, path, alarm=10, sharp=None):
    """Runs the real code on a model. Returns (status, violated labels, observations, text)."""
    with open(path, "w") as f:
        f.write(f"# replay: SYM_MODEL={path} {binary} {run.harness} {run.mode} {' '.join(map(str, run.params))}\n")
        for n, b in model.items():
            f.write(f"# {n} = {b2f(b)!r}\ni {n} {b:x}\n")
        if sharp:
            f.write(f"S {sharp} relative tolerance only\n")
        f.write("C " + " ".join(map(str, choices)) + "\n")
    env = dict(os.environ, SYM_MODEL=path, SYM_ALARM=str(alarm))
    try:
        p = subprocess.run([binary, run.harness, run.mode] + [str(x) for x in run.params], env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=alarm + 20)
    except subprocess.TimeoutExpired:
        return "timeout", ["signal"], [], ""
    out = p.stdout.decode(errors="replace")
    labels, obs, status = [], [], "lost"
    for l in out.split("\n"):
        if l.startswith("V "):
            labels.append(l[2:])
        elif l.startswith("O "):
            w = l.split()
            obs.append((w[1], b2f(int(w[2], 16))))
        elif l.startswith("E "):
            status = l.split()[1]
    if p.returncode < 0:
        status = "signal"
        labels.append("signal")
    return status, labels, obs, out


def close(a, b):
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-6 * (1 + max(abs(a), abs(b)))


class Checker:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(seed)
        self.prop = PROPS[pid]
        self.t0 = time.time()
        self.rdir = os.path.join(ROOT, "build", "replay")
        os.makedirs(self.rdir, exist_ok=True)
        self.violation = None
        self.unconfirmed = []
        self.unrealised = 0
        self.known = self.load_known()
        self.known_seen = {}
        self.nrep = 0
        self.samples = []
        self.cov = set()
        self.total = {}
        self.validated = 0
        self.mismatch = []
        self.runs = []

    def load_known(self):
        out = []
        p = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) harness=(\S+) label=(\S+) case=/(.*)/ (.*)", l)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3), re.compile(m.group(4)), m.group(5)))
        return out

    def try_confirm(self, run, rec, v):
        """Replays a counterexample on the real code."""
        self.nrep += 1
        path = os.path.join(self.rdir, f"{self.pid}-{run.harness}-{self.nrep}.txt")
        alarm = run.alarm
        status, labels, _, out = native(self.nat, run, v["model"], v["choices"], path, alarm)
        if labels:
            return path, labels
        # the solver's model may be extreme or sit on a rounding boundary: same choices, other values
        names = list(v["model"])
        guess = "label" not in v    # no verdict of the solver behind it: values far apart would only show rounding
        pools = [[1.2345678901234, -7.654321098765e-7, 3.3333333333333e9, -0.1, 123456.78901234], [1., 2., -3., .5, 7., -1., 0., 4., -2.5, 3.25], [.75, -1.25, 2.5, 3.5, -.5, 1., 0., -4., 1e3, -1e3]]
        for k in range(60):
            m = dict(v["model"])
            wild = k % 4 == 3 and not guess
            for n in names:
                if k % 3 == 0 or wild or self.rng.random() < .5:
                    x = self.rng.choice(pools[(k % 2) + 1] if not wild else pools[0])
                    y = b2f(m[n])
                    if k % 3 == 1 and not wild and y == y and not math.isinf(y):
                        x = y * self.rng.choice([1., 1.5, .5, -1., 2.]) + self.rng.choice([0., 0., 1., -1.])
                    m[n] = f2b(x)
            status, labels, _, out = native(self.nat, run, m, v["choices"], path, alarm)
            if labels if not wild else v["label"] in labels:
                return path, labels
        # decimal roundings are free in the solver's model: values nearby with digits beyond what is written
        if any(n.startswith("round") for n in names):
            for k in range(40):
                m = dict(v["model"])
                for n in names:
                    y = b2f(m[n])
                    if math.isfinite(y) and y not in (0., 1., -1.):
                        m[n] = f2b(y * (1 + self.rng.uniform(-1, 1) * 10. ** -self.rng.randint(1, 9)))
                status, labels, _, out = native(self.nat, run, m, v["choices"], path, alarm)
                if labels and v.get("label") in labels:
                    return path, labels
        # both sides are tiny: they differ as real numbers (the solver's verdict), relative to their size
        if v.get("plain") and "label" in v:
            status, labels, _, out = native(self.nat, run, v["model"], v["choices"], path, alarm, sharp=1e-6)
            if v["label"] in labels:
                return path, [v["label"]]
        # the difference exceeds what rounding can do along this path: replay with ever smaller tolerance
        if v.get("sharp"):
            for t in (1e-6, 1e-8, 1e-10, 1e-12, 1e-14):
                status, labels, _, out = native(self.nat, run, v["sharp"], v["choices"], path, alarm, sharp=t)
                if v["label"] in labels:
                    return path, [v["label"]]
        return None, None

    def on_rec(self, run):
        seen = {}
        rng = self.rng

        def f(rec):
            self.cov.update(rec.get("cov", ()))
            st = run.status
            st[rec["status"]] = st.get(rec["status"], 0) + 1
            if rec["status"] == "unsupported":
                run.why[rec["msg"]] = run.why.get(rec["msg"], 0) + 1
                # concolic fallback: the concrete run of this path
                if len(run.why) < 50 and st["unsupported"] <= 40:
                    c, labels = self.try_confirm(run, rec, {"model": rec["model"], "choices": rec["choices"]})
                    if c:
                        return self.report(run, rec, {"label": labels[0], "model": rec["model"], "choices": rec["choices"]}, c)
            run.asserts += rec["asserts"]
            if rec["status"] in ("ok", "violated", "panic"):
                for m in rec["marks"]:
                    run.marks[m] = run.marks.get(m, 0) + 1
            for n in rec["notes"]:
                run.cases.add(n)
            if rec["status"] == "ok" and not rec["viol"] and "vals" in rec:
                run.okn += 1
                if run.okn <= 10 or rng.random() < run.sample_p:
                    if len(run.pending) < run.max_validate:
                        run.pending.append(rec)
            for v in rec["viol"]:
                kf = self.match_known(run, rec, v)
                if kf:
                    self.known_seen[kf] = self.known_seen.get(kf, 0) + 1
                    continue
                k = v["label"]
                if seen.get(k, 0) >= 6:
                    continue
                seen[k] = seen.get(k, 0) + 1
                c, labels = self.try_confirm(run, rec, v)
                if c:
                    return self.report(run, rec, v, c)
                if not v.get("plain") or v.get("standing") == "open":
                    # needs an irrational boundary value or sine values no double produces, or
                    # a difference that is within rounding
                    self.unrealised += 1
                    continue
                self.unconfirmed.append((run.harness, v["label"], rec["notes"], {n: b2f(b) for n, b in v["model"].items()}, v["choices"], v.get("msg", "")))
            return False
        return f

    def report(self, run, rec, v, path):
        if self.violation is None:
            with open(path, "a") as f:
                f.write(f"# property {self.pid}, harness {run.harness}, violated: {v['label']} {v.get('msg', '')}\n")
                for n in rec["notes"]:
                    f.write(f"# case: {n}\n")
            self.violation = (path, run.harness, v["label"], rec["notes"], v.get("msg", ""))
        return True

    def match_known(self, run, rec, v):
        for (h, lab, rx, text) in self.known:
            if h == run.harness and re.fullmatch(lab, v["label"]) and any(rx.search(n) for n in rec["notes"]):
                return text
        return None

    def validate(self, run):
        """The observations of sampled paths agree with the real code's."""
        path = os.path.join(self.rdir, f"{self.pid}-validate.txt")
        for rec in run.pending:
            status, labels, obs, out = native(self.nat, run, rec["model"], rec["choices"], path, run.alarm)
            vals = rec.get("vals", [])
            ok = status == "ok" and not labels and len(vals) == len(obs) and \
                all(a[0] == b[0] and (a[1] is None or close(a[1], b[1])) for a, b in zip(vals, obs))
            if ok:
                self.validated += 1
                if len(self.samples) < 12:
                    self.samples.append({"harness": run.harness, "case": "; ".join(rec["notes"])[:200],
                                         "inputs": {n: b2f(b) if math.isfinite(b2f(b)) else str(b2f(b)) for n, b in list(rec["model"].items())[:10]},
                                         "observed": [[a, b if math.isfinite(b) else str(b)] for a, b in obs[:6]]})
            elif labels and run.mode == "fp":
                # the solver proved the path, the real code violates on its witness
                c, l2 = self.try_confirm(run, rec, {"model": rec["model"], "choices": rec["choices"]})
                if c:
                    self.report(run, rec, {"label": labels[0], "model": rec["model"], "choices": rec["choices"]}, c)
                    return
            else:
                self.mismatch.append((run.harness, status, rec["notes"], [(a[0], a[1]) for a in vals][:5], obs[:5], {n: b2f(b) for n, b in rec["model"].items()}))

    def main(self):
        self.sym, self.nat = B.build()
        tb = time.time() - self.t0
        names = B.coverage_names()
        budget = self.prop.get("budget", 700 if self.tier == "quick" else 10**6)
        complete = True
        for run in self.prop["runs"](self.tier):
            self.runs.append(run)
            run.status, run.why, run.marks, run.cases, run.okn, run.pending, run.asserts = {}, {}, {}, set(), 0, [], 0
            cfg = dict(binary=self.sym, harness=run.harness, mode=run.mode, params=run.params, alarm=run.alarm,
                       env=dict(os.environ), timeout_ms=run.timeout_ms, obs=True)
            left = budget - (time.time() - self.t0)
            st, comp = explore(cfg, workers=run.workers, budget_s=max(20, min(left, run.budget or left)), on_rec=self.on_rec(run))
            run.stats, run.complete = st, comp
            complete &= comp or self.violation is not None
            for k, v in st.items():
                self.total[k] = max(self.total.get(k, 0), v) if k == "max_query_s" else self.total.get(k, 0) + v
            print(f"{run.harness} {run.mode} {run.params}: {st['paths']} paths {run.status} marks {run.marks} "
                  f"{st.get('queries', 0)} queries {st.get('solver_s', 0):.1f}s solver {st['wall_s']:.1f}s wall complete={comp}", flush=True)
            if run.why:
                print("  unsupported:", run.why)
            if self.violation is None:
                self.validate(run)
            if self.violation is not None:
                break
        covered = sorted({names[i] for i in self.cov if i in names})
        covered = sorted(set(re.sub(r"\[[0-9a-f]{8,}\]", "", d) for d in B.demangle(covered) if d)) if covered else []
        missing = []
        for run in self.runs:
            for m in run.need:
                if not run.marks.get(m):
                    missing.append(f"{run.harness}:{m}")
        self.evidence(covered, complete, tb)
        for text, n in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.pid} {text}")
        if self.violation:
            path, h, lab, notes, msg = self.violation
            print(f"violated in {h}: {lab} {msg} {notes}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        for m in self.mismatch[:3]:
            print("MISMATCH (engine against real code):", m)
        if self.unconfirmed:
            for u in self.unconfirmed[:5]:
                print("UNCONFIRMED counterexample (not reproduced on the real code):", u)
            return 2
        if missing:
            print("ERROR: not reached:", missing)
            return 2
        if not complete:
            print("INCOMPLETE: budget exhausted before every path was explored; no violation on what was")
        print(f"OK property={self.pid} tier={self.tier} paths={self.total.get('paths', 0)} validated={self.validated} mismatches={len(self.mismatch)} wall={time.time() - self.t0:.1f}s")
        return 0

    def evidence(self, covered, complete, tb):
        runs = []
        for r in self.runs:
            runs.append({"harness": r.harness, "arithmetic": "reals (QF_NRA, sin/cos uninterpreted)" if r.mode == "real" else "IEEE-754 binary64 (QF_FP)",
                         "bounds": r.bounds, "params": r.params, "paths": r.stats["paths"], "path_ends": r.status,
                         "assertions_decided": r.asserts, "distinct_cases": len(r.cases), "markers": r.marks, "complete": r.complete,
                         "unsupported": r.why, "queries": r.stats.get("queries", 0), "solver_s": round(r.stats.get("solver_s", 0), 2)})
        t = self.total
        cov = {
            "states": int(t.get("paths", 0)),
            "transitions": int(t.get("branches", 0) + t.get("choices", 0)),
            "traces_validated_against_impl": self.validated,
            "samples": self.samples or [{"note": "no path was sampled"}],
            "exhaustive": bool(complete),
            "runs": runs,
            "assertions_decided": sum(r.asserts for r in self.runs),
            "queries": int(t.get("queries", 0)),
            "assertion_queries": int(t.get("q_assert", 0)),
            "branch_queries": int(t.get("q_branch", 0)),
            "solver_s": round(t.get("solver_s", 0.0), 2),
            "max_query_s": round(t.get("max_query_s", 0.0), 3),
            "build_s": round(tb, 1),
            "functions_encoded": covered,
            "validation_mismatches": len(self.mismatch),
            "unconfirmed_counterexamples": len(self.unconfirmed),
            "unrealisable_counterexamples": self.unrealised,
            "known_findings_seen": self.known_seen,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": COMMON_ASSUMPTIONS + self.prop.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.violation else 0}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


COMMON_ASSUMPTIONS = [
    "The encoding is obtained by executing the code compiled from /repo's current source (debug profile, LLVM IR) with every floating-point instruction replaced by a symbolic one; precompiled std code runs natively on concrete data.",
    "In runs over the reals, floating-point rounding is not modelled; counterexamples are replayed on the real binary with relative tolerance 1e-7.",
    "Structural inputs (programs, patterns, histories, faults) range over the finite sets given by the bounds; numeric data are unbounded symbolic values.",
    "z3 4.x decisions are trusted.",
]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="symscratch")
    os.environ["SYM_SCRATCH"] = scratch
    try:
        rc = Checker(pid, tier, seed).main()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
