"""Explores every path of a harness task, discharges its claims with the solver, replays counterexamples."""
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
from multiprocessing import get_context

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
REAL_PY = os.environ.get("VERIF_REAL_PY") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)


def run_concrete(jobs, timeout=60):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO_SRC=REPO_SRC, PYTHONHASHSEED="0")
    try:
        p = subprocess.run([REAL_PY, os.path.join(ROOT, "symx", "concrete.py")], input=json.dumps(jobs),
                           capture_output=True, text=True, timeout=timeout, env=env, cwd="/")
    except subprocess.TimeoutExpired:
        return [{"failures": ["exception:Timeout"], "exc": "did not terminate", "skip": None, "labels": []} for _ in jobs]
    try:
        return json.loads(p.stdout)
    except ValueError:
        return [{"failures": [], "exc": "replay process failed: " + p.stderr[-300:], "skip": "error", "labels": []} for _ in jobs]


class Confirmed(BaseException):
    pass


def _dyadic(v):
    return isinstance(v, int) or (float(v) * 2 ** 20).is_integer()


def run_task(hname, tname, known, tier, out_conn=None):
    """returns a result dict"""
    from . import engine as E
    from . import loader
    from . import poly as P
    t0 = time.time()
    hm = importlib.import_module("harness." + hname)
    task = dict(hm.task(tname))
    params = task.get("params", {})
    stats = E.Stats()
    task["deadline"] = t0 + task.get("budget_s", 150 if tier == "quick" else 1500)
    res = {"task": tname, "violation": None, "unconfirmed": [], "inconclusive": [], "bounds": task.get("bounds", ""),
           "finding": task.get("finding"), "samples": []}
    confirmed = {}

    def on_failure(ctx, label, neg, rneg):
        tried = []
        for mv in ctx.models(neg, rneg):
            tried.append(mv)
            jobs = [dict(harness=hname, task=tname, inputs=mv, tol=1e-7, known=sorted(known))]
            if all(_dyadic(v) for v in mv.values()):
                jobs.append(dict(jobs[0], exact_order=True))
            for job in jobs:
                r = run_concrete([job])[0]
                if r["failures"] and not r.get("skip"):
                    confirmed.update(label=label, job=job, result=r)
                    raise Confirmed()
            if len(tried) >= 10:
                break
        res["unconfirmed"].append({"label": label, "models": tried[:2]})

    task["on_failure"] = on_failure
    loader.executed.clear()
    loader._monitor()
    stack = [[]]
    witnessed = {}
    wits = []
    max_paths = task.get("max_paths", 100000)
    wcap = task.get("witnesses", 10)
    complete = True
    paths = infeasible = 0
    try:
        while stack:
            if time.time() > task["deadline"]:
                complete = False
                res["inconclusive"].append("task time budget exhausted with %d paths pending" % len(stack))
                break
            prefix = stack.pop()
            ctx = E.SymCtx(task, prefix, stats)
            ctx.known_ids = set(known)
            w = loader.World()
            ctx.np, ctx.math, ctx.mod = w.np, w.math, w.load
            done = True
            try:
                task["fn"](ctx, **params)
            except E.Infeasible:
                done = False
                infeasible += 1
            except E.PathLimit as e:
                done = complete = False
                res["inconclusive"].append(f"path limit: {e}")
            except (E.Unsupported, P.TooBig) as e:
                done = complete = False
                tb = traceback.extract_tb(e.__traceback__)
                at = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if f.filename.startswith(REPO_SRC)), "")
                res["inconclusive"].append(f"not encodable: {type(e).__name__} {e} {at}")
            except Exception as e:
                done = False
                lab = "exception:" + type(e).__name__
                res.setdefault("exc_tb", traceback.format_exc()[-1200:])
                try:
                    r, who = ctx.solve_unsat([x for x, _ in ctx.pc], task.get("prove_s", 20))
                except E.PathLimit:
                    r = "unknown"
                if r == "unsat":
                    infeasible += 1
                elif r == "unknown":
                    complete = False
                    res["inconclusive"].append(lab + " on a path of unknown feasibility")
                else:
                    stats.obligations += 1
                    import z3
                    n0 = len(res["unconfirmed"])
                    on_failure(ctx, lab + ": " + str(e)[:120], z3.BoolVal(True), lambda m: z3.BoolVal(True))
                    if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and len(res["unconfirmed"]) > n0:
                        # does not happen on the real code: an operation the symbolic numpy/float does not offer
                        del res["unconfirmed"][n0:]
                        complete = False
                        res["inconclusive"].append(f"not encodable: {lab} {str(e)[:160]}")
            paths += 1
            stack.extend(ctx.pending)
            if ctx.inconclusive:
                complete = False
                res["inconclusive"] += [f"solver gave no verdict: {x}" for x in ctx.inconclusive]
            if done:
                new = [x for x in ctx.labels if x not in witnessed]
                if new or len(wits) < wcap:
                    wv, robust = ctx.witness()
                    if isinstance(wv, dict):
                        for x in ctx.labels:
                            witnessed.setdefault(x, True)
                        wits.append((wv, robust))
            if paths >= max_paths:
                if stack:
                    complete = False
                    res["inconclusive"].append("path bound reached")
                break
    except Confirmed:
        complete = False
    res.update(paths=paths, infeasible=infeasible, complete=complete and not res["unconfirmed"])
    # validation of the symbolic execution on the real code
    validated = 0
    if not confirmed and wits:
        jobs = [dict(harness=hname, task=tname, inputs=m, tol=1e-6, known=sorted(known)) for m, _ in wits]
        for (m, robust), job, r in zip(wits, jobs, run_concrete(jobs, 120)):
            if r.get("skip"):
                continue
            if not r["failures"]:
                validated += 1
            elif robust:
                r2, r3 = run_concrete([job, dict(job, tol=1e-4)])        # beyond any rounding effect
                if r2["failures"] and not r2.get("skip") and r3["failures"] and not r3.get("skip"):
                    confirmed.update(label="replay of a path model: " + r2["failures"][0], job=job, result=r2)
                    break
    if wits:
        res["samples"] = [w[0] for w in wits[:2]]
    res["validated"] = validated
    res["missing"] = [x for x in task.get("require", []) if x not in witnessed] if not confirmed else []
    res["labels"] = sorted(set(witnessed))
    if confirmed:
        res["violation"] = confirmed
    res["functions"] = sorted(f"{a}:{b}" for a, b in loader.executed if "<" not in b)
    res["stats"] = {k: getattr(stats, k) for k in ("queries", "solver_s", "feas", "unknown_feas", "decisions",
                                                     "obligations", "discharged", "by_normal_form", "by_solver", "solvers")}
    res["wall_s"] = time.time() - t0
    return res


def _child(conn, hname, tname, known, tier):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)
    sys.path.insert(0, ROOT)
    try:
        r = run_task(hname, tname, known, tier)
    except BaseException as e:                     # noqa: BLE001
        r = {"task": tname, "error": type(e).__name__ + ": " + str(e) + "\n" + traceback.format_exc()[-2500:]}
    conn.send(r)
    conn.close()


def run_tasks(hname, names, known, tier, budgets, jobs=8, total_s=None):
    mp = get_context("fork")
    t_end = time.time() + total_s if total_s else None
    todo = list(names)
    live = {}
    out = {}
    stop = False
    while (todo and not stop) or live:
        if t_end and time.time() > t_end:
            for n in todo + list(live):
                out[n] = {"task": n, "error": "total time limit of the check reached"}
            todo, stop = [], True
        while todo and len(live) < jobs and not stop:
            n = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, hname, n, known, tier))
            p.start()
            b.close()
            live[n] = (p, a, time.time())
        time.sleep(0.02)
        for n, (p, a, ts) in list(live.items()):
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = {"task": n, "error": "task process died"}
            elif not p.is_alive():
                got = {"task": n, "error": "task process died"}
            elif time.time() - ts > budgets[n] * 1.2 + 60:
                os.kill(p.pid, signal.SIGKILL)
                got = {"task": n, "error": "task exceeded its time limit"}
            if got is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[n]
                out[n] = got
                if got.get("violation") and not got.get("finding"):
                    stop = True
        if stop:
            for n, (p, a, ts) in live.items():
                p.kill()
            for n, (p, a, ts) in live.items():
                p.join()
            live = {}
    return out
