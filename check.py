#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] [--task NAME]: decide one property on /repo's current tree."""
import argparse
import glob
import json
import os
import re
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

from symx import driver  # noqa: E402


def find_harness(pid):
    return pid.lower()


def load_known(pid):
    """known_findings.txt: lines 'known: property=<id> id=<KF> <text>' / 'fixed: ...' (ignored here)."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--task")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    import importlib
    hname = find_harness(a.pid)
    hm = importlib.import_module("harness." + hname)
    known = load_known(a.pid)
    tasks = [t for t in hm.TASKS if a.tier == "thorough" or t.get("tier", "quick") == "quick"]
    if a.task:
        tasks = [t for t in hm.TASKS if re.fullmatch(a.task, t["name"])]
    tasks.sort(key=lambda t: -t.get("weight", 1))
    budgets = {t["name"]: t.get("budget_s", 150 if a.tier == "quick" else 1500) for t in tasks}
    byname = {t["name"]: t for t in tasks}
    results = driver.run_tasks(hname, [t["name"] for t in tasks], set(known), a.tier, budgets, a.j, 780 if a.tier == "quick" else None)

    vio = None
    undecided = []
    errors = []
    kf_lines = []
    rdir = os.path.join(ROOT, "evidence", "replay")
    for n, r in results.items():
        t = byname[n]
        if a.v:
            st = r.get("stats", {})
            print(f"  [{n}] paths={r.get('paths')} infeas={r.get('infeasible')} complete={r.get('complete')} obl={st.get('obligations')}"
                  f" nf={st.get('by_normal_form')} slv={st.get('solvers')} q={st.get('queries')} solver={st.get('solver_s', 0):.1f}s wall={r.get('wall_s', 0):.1f}s valid={r.get('validated')}"
                  f" missing={r.get('missing')}", file=sys.stderr)
            for k in ("error", "inconclusive", "unconfirmed", "exc_tb"):
                if r.get(k):
                    print("     ", k, r[k] if isinstance(r[k], str) else r[k][:4], file=sys.stderr)
        if r.get("error"):
            errors.append(f"{n}: {r['error']}")
            continue
        if t.get("finding"):
            if r["violation"]:
                if t["finding"] in known:
                    kf_lines.append(f"KNOWN-FINDING: property={a.pid} {known[t['finding']]}")
                    continue
            else:
                continue
        if r["violation"] and vio is None:
            vio = (n, r["violation"])
        if r["unconfirmed"]:
            # the real code is right on that input, so the encoding is not: the task is undecided, not violated
            undecided.append(f"{n}: counterexample did not reproduce on the real code: {r['unconfirmed'][0]}")
        if r["inconclusive"]:
            undecided += [f"{n}: {x}" for x in sorted(set(r["inconclusive"]))]
        if r["missing"]:
            undecided.append(f"{n}: not reached: {r['missing']}")
    ok = [r for r in results.values() if not r.get("error")]
    decided = [r for r in ok if r.get("complete") and not r.get("missing") and not r.get("finding")]

    st = {}
    for r in ok:
        for k, v in r["stats"].items():
            if isinstance(v, dict):
                d = st.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                st[k] = st.get(k, 0) + v
    import z3
    cov = {
        "states": sum(r["paths"] for r in ok),
        "transitions": st.get("decisions", 0),
        "traces_validated_against_impl": sum(r["validated"] for r in ok),
        "samples": [{"task": r["task"], "inputs": s} for r in ok for s in r["samples"]][:10],
        "what_states_and_transitions_mean": "symbolic execution paths explored / branch decisions taken on them",
        "functions_encoded": sorted({f for r in ok for f in r["functions"]}),
        "source": driver.REPO_SRC,
        "bounds": {r["task"]: r["bounds"] for r in ok},
        "tasks_completely_decided": [r["task"] for r in decided],
        "tasks_not_completely_decided": undecided,
        "errors": errors,
        "paths_infeasible": sum(r["infeasible"] for r in ok),
        "obligations": st.get("obligations", 0),
        "obligations_discharged": st.get("discharged", 0),
        "discharged_as_exact_identity": st.get("by_normal_form", 0),
        "discharged_by_solver": st.get("solvers", {}),
        "solver_queries": st.get("queries", 0),
        "solver_time_s": round(st.get("solver_s", 0), 2),
        "solvers": {"z3": z3.get_version_string(), "cvc5": "fallback (CLI)"},
        "reached_labels": sorted({x for r in ok for x in r["labels"]}),
        "known_findings_reported": kf_lines,
    }
    ev = {"property": a.pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": getattr(hm, "ASSUMPTIONS", []) + ["real arithmetic stands for floating point (rounding is outside the claim)"],
          "violations": 0}
    rc = 0
    for line in kf_lines:
        print(line)
    if vio:
        os.makedirs(rdir, exist_ok=True)
        n, v = vio
        path = os.path.join(rdir, f"{a.pid}-{n}.json".replace("/", "_"))
        with open(path, "w") as f:
            json.dump({"property": a.pid, "task": n, "label": v["label"], "job": v["job"], "result": v["result"]}, f, indent=1)
        print(f"{a.pid}/{n}: {v['label']}")
        print(f"  inputs: {json.dumps(v['job']['inputs'])}")
        print(f"  on the real code: {v['result']['failures'][:3]} {v['result'].get('exc') or ''}")
        print(f"VIOLATION property={a.pid} replay={path}")
        ev["violations"] = 1
        cov["violation"] = {"task": n, "label": v["label"], "replay": path}
        rc = 1
    else:
        for e in errors:
            print("ERROR", e[:1500])
        for u in undecided[:20]:
            print("INCONCLUSIVE", u[:400])
        if not decided:
            rc = 2
        else:
            print(f"{a.pid}: held on everything explored ({len(decided)}/{len([r for r in results.values() if not r.get('finding')])} tasks completely decided, "
                  f"{cov['states']} paths, {cov['obligations']} obligations, {cov['solver_queries']} queries, {ev['wall_s']} s)")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.task:
        with open(os.path.join(ROOT, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
