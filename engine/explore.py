"""Path exploration: drives forkservers of the instrumented harness and owns the solver.

A task is (decision prefix, seed model).  The worker re-executes the harness with the prefix and
extends it; every undecided branch is put to the solver, infeasible sides are pruned and the other
feasible side becomes a new task.
"""
import json
import multiprocessing as mp
import os
import queue
import subprocess
import time
import traceback

import poly as P
from fptheory import FpPath
from realtheory import RealPath, Unsupported, bits2float, float2bits


class Proc:
    """One forkserver."""

    def __init__(self, binary, harness, mode, params, alarm, env):
        self.args = [binary, harness, mode] + [str(p) for p in params]
        self.env = dict(env, SYM_ALARM=str(alarm))
        r_out, w_out = os.pipe()
        r_in, w_in = os.pipe()

        def pre():
            os.dup2(w_out, 198)
            os.dup2(r_in, 199)
        self.p = subprocess.Popen(self.args, env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, close_fds=False, preexec_fn=pre)
        os.close(w_out)
        os.close(r_in)
        self.rf = os.fdopen(r_out, "rb", 1 << 16)
        self.wf = os.fdopen(w_in, "wb", 0)

    def send(self, s):
        self.wf.write((s + "\n").encode())

    def line(self):
        l = self.rf.readline()
        if not l:
            raise RuntimeError("harness process ended unexpectedly: " + " ".join(self.args))
        return l.decode().rstrip("\n")

    def close(self):
        try:
            self.wf.close()
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


def signed(x):
    b = float2bits(x)
    return b - (1 << 64) if b >> 63 else b


def plain(th, m):
    try:
        return th.plain(m)
    except ZeroDivisionError:
        return False


def exact(th, m):
    """A counterexample every number of which is what the real code computes with, up to rounding."""
    return plain(th, m) and not getattr(th, "atomdefs", ())


def run_path(proc, cfg, prefix, seed, stats):
    """Runs one path. Returns (record, new tasks)."""
    th = (FpPath if cfg["mode"] == "fp" else RealPath)(stats, cfg["timeout_ms"])
    if cfg["mode"] == "fp":
        th.model = seed or None
    else:
        th.seedmodel = seed or {}
    proc.send("R " + " ".join(map(str, prefix)))
    npre = len(prefix)
    decisions = []
    nd = 0          # branch and choice events seen: the process asks once its prefix is used up
    tasks = []
    rec = {"status": None, "msg": "", "viol": [], "marks": [], "notes": [], "asserts": 0, "obs": [], "choices": []}
    err = None
    dead = False    # the reply "stop" was sent

    def reply(x):
        proc.send(str(x))

    while True:
        l = proc.line()
        k = l[0]
        asked = k in "BCAPV" and nd >= npre
        if k in "BCV":
            nd += 1
        if err is not None and asked:
            reply("stop")
            continue
        try:
            if k == "t":
                w = l.split()
                if err is None:
                    th.op_term(int(w[1]), w[2], int(w[3]), int(w[4]) if len(w) > 4 else 0)
            elif k == "k":
                w = l.split()
                if err is None:
                    th.op_const(int(w[1]), int(w[2], 16))
            elif k == "i":
                w = l.split()
                if err is None:
                    th.op_input(int(w[1]), w[2], w[3])
            elif k == "f":
                w = l.split()
                if err is None:
                    th.op_form(int(w[1]), w[2:])
            elif k == "B":
                w = l.split()
                if err is not None:
                    continue
                f = th.cmp(int(w[1]), int(w[2]), int(w[3]))
                if not asked:
                    d = prefix[nd - 1]
                    decisions.append(d)
                    th.add(f if d else th.neg(f))
                    th.rawpath.append((int(w[1]), int(w[2]), int(w[3]), d))
                else:
                    stats["branches"] = stats.get("branches", 0) + 1
                    ct, cf, mt, mf = th.decide(f)
                    if ct and cf:
                        stats["forks"] = stats.get("forks", 0) + 1
                        # continue with the side the current model satisfies
                        d = 1
                        other = mf
                        if cfg["mode"] != "fp" and mt is not th.model and mf is th.model:
                            d, other = 0, mt
                        if cfg["mode"] == "fp":
                            th.model = mt
                            tasks.append((decisions + [1 - d], mf))
                        else:
                            tasks.append((decisions + [1 - d], th.export(other)[1]))
                            th.setmodel(mt if d else mf)
                    elif ct:
                        d = 1
                        if cfg["mode"] != "fp":
                            th.setmodel(mt)
                    elif cf:
                        d = 0
                        if cfg["mode"] != "fp":
                            th.setmodel(mf)
                    else:
                        # both sides refuted: facts about sine and cosine learnt since exclude the path
                        rec["status"] = "infeasible"
                        reply("stop")
                        dead = True
                        continue
                    decisions.append(d)
                    th.add(f if d else th.neg(f))
                    th.rawpath.append((int(w[1]), int(w[2]), int(w[3]), d))
                    reply(d)
            elif k == "V":
                # a number the code needs concretely: the model's, and up to two others
                w = l.split()
                if not asked:
                    d = prefix[nd - 1]
                    decisions.append(d)
                elif err is None:
                    stats["picks"] = stats.get("picks", 0) + 1
                    if cfg["mode"] == "fp" and th.model is None:
                        th.model = th.feasible()
                    vals = [th.pick(int(w[1]), th.model, w[2])]
                    for _ in range(2):
                        m = th.others(int(w[1]), vals, w[2])
                        if m is None:
                            break
                        vals.append(th.pick(int(w[1]), m, w[2]))
                        tasks.append((decisions + [signed(vals[-1])], m if cfg["mode"] == "fp" else th.export(m)[1]))
                    d = signed(vals[0])
                    decisions.append(d)
                    reply(d)
            elif k == "C":
                w = l.split()
                n = int(w[1])
                if not asked:
                    d = prefix[nd - 1]
                    decisions.append(d)
                else:
                    stats["choices"] = stats.get("choices", 0) + 1
                    d = 0
                    sm = th.export(th.model)[1] if cfg["mode"] != "fp" else th.model
                    for j in range(1, n):
                        tasks.append((decisions + [j], sm))
                    decisions.append(d)
                    reply(d)
                rec["choices"].append(d)
            elif k == "A":
                i = int(l.split()[1])
                if err is not None:
                    continue
                f = th.forms[i]
                if asked:
                    ct, cf, mt, mf = th.decide(f, "assume")
                    if not ct:
                        rec["status"] = "assumed-away"
                        reply("stop")
                        dead = True
                        continue
                    if cfg["mode"] == "fp":
                        th.model = mt
                    th.add(f)
                    if cfg["mode"] != "fp":
                        th.setmodel(mt)
                    th.rawpath.append((i, None, None, 1))
                    reply("ok")
                else:
                    th.add(f)
                    th.rawpath.append((i, None, None, 1))
            elif k == "P":
                w = l.split()
                i = int(w[1])
                if err is not None:
                    continue
                if asked:
                    rec["asserts"] += 1
                    m = th.prove(i)
                    if m is not None:
                        v = {"label": w[2], "model": th.export(m)[0], "choices": list(rec["choices"]),
                             "plain": cfg["mode"] == "fp" or exact(th, m)}
                        if cfg["mode"] != "fp":
                            v["standing"], v["sharp"] = th.sharpen(i, m)
                        rec["viol"].append(v)
                        # go on only if the assertion can also hold
                        ct, cf, mt, mf = th.decide(th.forms[i], "after")
                        if not ct:
                            rec["status"] = "violated"
                            reply("stop")
                            dead = True
                            continue
                        th.add(th.forms[i])
                        th.rawpath.append((i, None, None, 1))
                        if cfg["mode"] == "fp":
                            th.model = mt
                        else:
                            th.setmodel(mt)
                    reply("ok")
            elif k == "O":
                w = l.split()
                rec["obs"].append((w[1], w[2]))
            elif k == "M":
                rec["marks"].append(l.split()[1])
            elif k == "N":
                rec["notes"].append(l[2:])
            elif k == "E":
                w = l.split(" ", 2)
                rec["status"] = rec["status"] or w[1]
                rec["msg"] = w[2] if len(w) > 2 else ""
            elif k == "X":
                rec["cov"] = [int(x) for x in l.split()[1:]]
            elif k == "W":
                st = int(l.split()[1])
                if st != 0 and not dead:
                    rec["status"] = "signal"
                    rec["msg"] = str(st & 0x7f) if st & 0x7f else "exit %d" % (st >> 8)
                break
        except (Unsupported, P.TooBig) as e:
            err = f"{type(e).__name__}: {e}"
            if asked:
                reply("stop")
        except ZeroDivisionError:
            # the seed model makes a denominator vanish that the path keeps nonzero
            err = "model: zero denominator"
            if asked:
                reply("stop")
    if err is not None:
        rec["status"] = "unsupported"
        rec["msg"] = err
    rec["status"] = rec["status"] or "lost"
    m = th.model
    if cfg["mode"] == "fp" and rec["status"] in ("ok", "panic", "signal"):
        m = th.feasible()
        if m is None:
            rec["status"] = "assumed-away"
    rec["model"] = th.export(m)[0]
    if rec["status"] == "ok" and cfg.get("obs") and (cfg["mode"] == "fp" or plain(th, m)):
        vals = []
        try:
            nm = th.native_model(m) if cfg["mode"] != "fp" else m
        except (ZeroDivisionError, OverflowError):
            nm = None
        if nm is not None:
            for (lab, t) in rec["obs"]:
                try:
                    if t[0] == "c":
                        vals.append((lab, bits2float(int(t[1:], 16))))
                    else:
                        vals.append((lab, th.value(int(t), nm)))
                except (ZeroDivisionError, OverflowError):
                    vals.append((lab, None))
        rec["vals"] = vals
    if rec["status"] in ("panic", "signal"):
        rec["viol"].append({"label": rec["status"], "model": rec["model"], "choices": list(rec["choices"]), "msg": rec["msg"],
                            "plain": cfg["mode"] == "fp" or exact(th, m)})
    rec["depth"] = len(decisions)
    del rec["obs"]
    return rec, tasks


def worker(cfg, wid, inq, outq):
    try:
        proc = Proc(cfg["binary"], cfg["harness"], cfg["mode"], cfg["params"], cfg["alarm"], cfg["env"])
        outq.put(("ready",))
        last = rec = None
        while True:
            batch = inq.get()
            if batch is None:
                break
            stats = {}
            stack = list(batch)
            recs = []
            t0 = time.time()
            n = 0
            while stack and (time.time() - t0 < cfg["slice_s"]) and n < cfg["slice_n"]:
                prefix, seed = stack.pop()
                try:
                    rec, tasks = run_path(proc, cfg, list(prefix), seed, stats)
                except OSError:
                    raise RuntimeError(f"process lost after {last} exit {proc.p.poll()} {rec}")
                last = prefix
                stack.extend(tasks)
                recs.append(rec)
                n += 1
            outq.put(("batch", wid, recs, stack, stats))
        proc.close()
    except BaseException:
        outq.put(("error", traceback.format_exc()))


def explore(cfg, workers=8, budget_s=600, max_paths=10**9, on_rec=None):
    """Explores exhaustively. Returns (stats, complete?)."""
    ctx = mp.get_context("fork")
    outq = ctx.Queue()
    ws = []
    total = {}
    cfg = dict(cfg)
    cfg.setdefault("slice_s", 1.0)
    cfg.setdefault("slice_n", 400)
    t0 = time.time()
    for wid in range(workers):
        q = ctx.Queue()
        p = ctx.Process(target=worker, args=(cfg, wid, q, outq), daemon=True)
        p.start()
        ws.append((p, q))
    tasks = [([], {} if cfg["mode"] != "fp" else None)]
    idle = list(range(workers))
    busy = 0
    paths = 0
    complete = True
    inqs = [q for _, q in ws]
    error = None
    stop = False
    while True:
        while tasks and idle and not stop:
            i = idle.pop()
            n = max(1, min(len(tasks) // (len(idle) + 1), 200)) if len(tasks) > 1 else 1
            # give shallow prefixes first: they spread the work best
            batch = tasks[:n]
            del tasks[:n]
            c = inqs[i]
            c.put([(b[0], b[1]) for b in batch])
            busy += 1
        if busy == 0:
            break
        try:
            m = outq.get(timeout=120)
        except queue.Empty:
            error = "worker does not answer"
            break
        if m[0] == "ready":
            continue
        if m[0] == "error":
            error = m[1]
            break
        _, wid, recs, rest, stats = m
        busy -= 1
        idle.append(wid)
        for k, v in stats.items():
            if k == "max_query_s":
                total[k] = max(total.get(k, 0), v)
            else:
                total[k] = total.get(k, 0) + v
        for r in recs:
            paths += 1
            if on_rec and on_rec(r):
                stop = True
        tasks.extend(rest)
        if time.time() - t0 > budget_s or paths > max_paths:
            stop = True
        if stop and (tasks):
            complete = False
        if stop and busy == 0:
            break
        if stop:
            # do not wait for stragglers
            break
    for p, q in ws:
        q.put(None)
    for p, q in ws:
        p.join(timeout=0.2)
        if p.is_alive():
            p.kill()
    total["paths"] = paths
    total["wall_s"] = time.time() - t0
    if error:
        raise RuntimeError(error)
    if stop and tasks:
        complete = False
    total["pending"] = len(tasks)
    return total, complete
