"""Check driver: runs the tasks of a property's check in parallel worker
processes, prints the verdict and writes the evidence file."""
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, JAX_PLATFORMS="cpu", JAX_ENABLE_X64="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           PYTHONPATH=os.pathsep.join([HERE, os.path.join(REPO, "src")]), OMP_NUM_THREADS="2",
           XLA_FLAGS="--xla_cpu_multi_thread_eigen=false", TF_CPP_MIN_LOG_LEVEL="3")


def meta(pid):
    """Static metadata of a check module, without importing jax."""
    src = open(os.path.join(HERE, "checks", pid.lower() + ".py")).read()
    m = {}
    for k in ("LEVEL", "EXPLAIN", "TASK_NAMES", "OUTSIDE", "TMAX"):
        g = re.search(rf"^{k} = (.*?)(?=^\S|\Z)", src, re.S | re.M)
        if g:
            m[k] = eval(g.group(1))
    return m


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            g = re.match(r"finding: property=(\S+) obligation=(\S+) label=(\S+) (.*)", line.strip())
            if g and g.group(1) == pid:
                out.append({"name": g.group(2), "label": g.group(3), "what": g.group(4)})
    return out


def spawn(pid, task, out, mode, tier, seed, tmax, spec=None):
    cmd = [PY, "-B", "-m", "vf.worker", pid, task, out, mode, tier, str(seed), str(tmax)]
    if spec:
        cmd.append(spec)
    err = open(out + ".err", "w")
    return subprocess.Popen(cmd, cwd=HERE, env=ENV, stdout=err, stderr=err, start_new_session=True)


def run_tasks(pid, tasks, mode, tier, seed, tmax, hardcap, tmp, jobs=8, spec=None):
    res, live, queue = {}, {}, list(tasks)
    while queue or live:
        while queue and len(live) < jobs:
            t = queue.pop(0)
            out = os.path.join(tmp, f"{t}.{mode}.json")
            live[t] = (spawn(pid, t, out, mode, tier, seed, tmax, spec), out, time.time())
        for t, (p, out, t0) in list(live.items()):
            if p.poll() is not None:
                r = json.load(open(out)) if os.path.exists(out) else None
                if r is None:
                    r = {"crash": open(out + ".err").read()[-1500:]}
                res[t] = r
                del live[t]
            elif time.time() - t0 > hardcap:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                res[t] = {"crash": f"no result within {hardcap:.0f} s"}
                del live[t]
        time.sleep(0.05)
    return res


def main():
    pid = sys.argv[1]
    if pid == "replay":
        return replay(sys.argv[2])
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    m = meta(pid)
    tasks = m["TASK_NAMES"]
    if "--task" in sys.argv:
        tasks = sys.argv[sys.argv.index("--task") + 1].split(",")
    tmax = (420 if tier == "quick" else 1800)
    hard = tmax + 60
    tmp = tempfile.mkdtemp(prefix="vf_" + pid + "_")
    try:
        res = run_tasks(pid, tasks, "full", tier, seed, tmax, hard, tmp)
        crashed = [t for t, r in res.items() if "crash" in r]
        fb = {}
        if crashed:
            fb = run_tasks(pid, crashed, "concrete", tier, seed, 120, 150, tmp)
        return report(pid, tier, seed, m, res, fb, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(pid, tier, seed, m, res, fb, t0):
    known = known_findings(pid)
    obl, viol, und, funcs, assume = [], [], [], {}, []
    tot = {k: 0 for k in ("queries", "unsat", "sat", "unknown", "cvc5", "cvc5_agree")}
    tot["time_s"] = 0.0
    kinds, samples = {}, []
    validated = evals = eqns = 0
    for t in res:
        rs = [res[t]] + ([fb[t]] if t in fb else [])
        for r in rs:
            if "crash" in r:
                und.append((t, r["crash"][-400:]))
                continue
            if r.get("error"):
                und.append((t, r["error"][-1200:]))
            for o in r["obligations"]:
                obl.append({"task": t, **o})
            viol += r["violations"]
            validated += r["validated"]
            evals += r["evals"]
            eqns += r["eqns"]
            for k, n in r["functions"].items():
                funcs[k] = max(funcs.get(k, 0), n)
            assume += [a for a in r["assumptions"] if a not in assume]
            for k in tot:
                tot[k] += r["solver"][k]
            for k, d in r["solver"]["kinds"].items():
                z = kinds.setdefault(k, {"unsat": 0, "sat": 0, "unknown": 0, "s": 0.0})
                for q in z:
                    z[q] = round(z[q] + d[q], 3)
            samples += r["solver"]["samples"][:2]
    rc = 0
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "_"):
            os.unlink(os.path.join(rdir, f))
    nv = 0
    seen = set()
    printed = set()
    for v in viol:
        k = next((k for k in known if k["name"] == v["name"] and (k["label"] == "*" or k["label"] == v["label"])), None)
        if k:
            if k["what"] not in printed:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
                printed.add(k["what"])
            continue
        key = (v["task"], v["name"], v["label"])
        if key in seen:
            continue
        seen.add(key)
        nv += 1
        path = os.path.join(rdir, f"{pid}_{nv}.json")
        json.dump(v, open(path, "w"), indent=1)
        print(f"  {v['task']}/{v['name']} [{v['label']}]: lhs={v['lhs']} rhs={v['rhs']} ({v['why']})")
        print(f"    at {v['env']}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
        rc = 1
    proved = [o for o in obl if o["verdict"] == "proved"]
    und_o = [o for o in obl if o["verdict"] == "undecided"]
    tot["time_s"] = round(tot["time_s"], 3)
    for o in und_o:
        print(f"UNDECIDED {o['task']}/{o['name']}: {o.get('reason', '')[:500]}")
    for t, w in und:
        print(f"UNDECIDED task {t}: {w.strip()[-700:]}")
    wall = round(time.time() - t0, 1)
    print(f"{pid}: {len(proved)} obligations proved, {nv} violations, {len(und_o) + len(und)} undecided; "
          f"{tot['queries']} queries ({tot['unsat']} unsat, {tot['sat']} sat, {tot['unknown']} unknown), "
          f"solver {tot['time_s']} s, {validated} encoding validation points, wall {wall} s")
    level = m["LEVEL"]
    paths = sum(o.get("paths", 1) for o in obl)
    cov = {
        "explanation": m.get("EXPLAIN", ""),
        "technique": "symbolic execution of the jaxpr of the real functions; SMT decision over all values in the box",
        "functions_encoded": funcs,
        "obligations_total": len(obl), "obligations_discharged": len(proved),
        "undecided": [{"task": o["task"], "name": o["name"], "reason": o.get("reason", "")} for o in und_o] + [{"task": t, "reason": w} for t, w in und],
        "solver": dict(tot, kinds=kinds),
        "bounds": {f"{o['task']}/{o['name']}": o["box"] for o in obl if "box" in o},
        "outside_the_bounds": m.get("OUTSIDE", "inputs outside the listed boxes; floating-point rounding (values are reals; equality is up to the stated tolerance)"),
        "detail": obl,
        "real_code_evaluations": evals,
        "exhaustive": False,
    }
    if level == "model_checking":
        cov.update(states=paths, transitions=eqns, traces_validated_against_impl=validated, samples=samples[:6])
    elif level == "translation_validation":
        cov.update(programs=len(funcs), disagreements_checked=paths, samples=samples[:6])
    else:
        cov.update(samples=samples[:6])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume, "wall_s": wall, "violations": nv}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    return rc


def replay(path):
    if not os.path.isabs(path):
        path = os.path.join(HERE, path)
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        r = run_tasks(v["property"], [v["task"]], "replay", "quick", 1, 120, 200, tmp, spec=path)[v["task"]]
        if "crash" in r or r.get("error"):
            print(r.get("crash") or r["error"])
            return 2
        for w in r["violations"]:
            print(f"{w['name']} [{w['label']}]: lhs={w['lhs']} rhs={w['rhs']} ({w['why']}) at {w['env']}")
            print(f"VIOLATION property={v['property']} replay={os.path.relpath(path, HERE)}")
        if not r["violations"]:
            print("not reproduced on the current tree")
        return 1 if r["violations"] else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
