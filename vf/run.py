"""Check driver:  python3-vt -m vf.run <PROPERTY> [quick|thorough]

1. proof part   every harness of vf/props/<ID>.py is executed on the current source of
                /repo; every obligation goes to a back end.
2. oracle part  oracle/<ID>.py evaluates the same contracts on the real, freshly built
                code (cross-check of the assumed library contracts, replay of
                counterexamples, bounded stand-in where the proof part does not reach).
"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VENV = "/opt/venv/bin/python"


class H:
    """one verification harness: `run(c, X)` executes real code on symbolic input"""

    def __init__(self, name, functions, run, timeout=20.0, budget=200.0, paths=400, tier="quick", loops=None,
                 driver=None, hard=240):
        self.name, self.functions, self.run = name, functions, run
        self.timeout, self.budget, self.paths, self.tier = timeout, budget, paths, tier
        self.driver = driver
        self.hard = hard


def run_harness(args):
    prop, idx, tier, factor = args
    from vf import logic
    m = importlib.import_module(f"vf.props.{prop}")
    h = m.harnesses()[idx]
    t0 = time.time()
    out = {"name": h.name, "functions": h.functions, "obls": [], "unsupported": None, "paths": 0, "error": None,
           "reach": []}
    try:
        if h.driver is not None:
            out.update(h.driver(h, factor))
        else:
            X = logic.Explorer(h.name, timeout=h.timeout * factor, budget=h.budget * factor, max_paths=h.paths)
            X.run(lambda c: h.run(c, X))
            out["paths"] = X.paths
            out["unsupported"] = X.unsupported
            out["tb"] = getattr(X, "unsupported_tb", None)
            out["reach"] = X.reach
            for o in X.obls:
                out["obls"].append({"name": o.name, "status": o.status, "backend": o.backend, "secs": round(o.secs, 3),
                                    "model": model_str(o.model) if o.status != "proved" else None,
                                    "detail": o.detail if o.status != "proved" else ""})
    except Exception:
        out["error"] = traceback.format_exc()
    out["secs"] = round(time.time() - t0, 2)
    return out


def worker(job, q):
    os.setpgid(0, 0)
    r = run_harness(job)
    q.send(r)
    q.close()


def schedule(jobs, hs, tier, end, workers=8):
    """one process per harness, each with a hard deadline"""
    ctx = mp.get_context("fork")
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    live = {}
    while todo or live:
        while todo and len(live) < workers:
            k = todo.pop(0)
            h = hs[jobs[k][1]]
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(jobs[k], b), daemon=True)
            p.start()
            b.close()
            live[k] = (p, a, min(end, time.time() + h.hard * jobs[k][3]))
        for k in list(live):
            p, a, dl = live[k]
            got = None
            if a.poll(0):
                try:
                    got = a.recv()
                except EOFError:
                    got = blank(hs[jobs[k][1]], "the verifier process died")
            elif not p.is_alive():
                got = blank(hs[jobs[k][1]], "the verifier process died")
            elif time.time() > dl:
                got = blank(hs[jobs[k][1]], "time budget")
            if got is not None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                p.kill()
                p.join()
                a.close()
                res[k] = got
                del live[k]
        time.sleep(0.02)
    return res


def blank(h, why):
    return {"name": h.name, "functions": h.functions, "obls": [], "unsupported": why, "paths": 0, "error": None,
            "reach": [], "secs": 0.0}


def model_str(m):
    if m is None:
        return None
    try:
        s = str(m)
        return s if len(s) < 6000 else s[:6000] + " ..."
    except Exception:
        return None


def proof_part(prop, tier):
    try:
        m = importlib.import_module(f"vf.props.{prop}")
    except ModuleNotFoundError as e:
        if e.name == f"vf.props.{prop}":
            return [], None
        raise
    hs = m.harnesses()
    jobs = [(prop, i, tier, 1.0 if tier == "quick" else 3.0) for i, h in enumerate(hs)
            if h.tier == "quick" or tier == "thorough"]
    if not jobs:
        return [], m
    end = time.time() + (620 if tier == "quick" else 3300)
    res = schedule(jobs, hs, tier, end)
    # a solver that gave up once may only have been starved: one more attempt with more time
    again = [k for k, r in enumerate(res) if r and not r["error"] and not r["unsupported"]
             and any(o["status"] == "unknown" for o in r["obls"])]
    if again and time.time() < end - 60:
        r2 = schedule([jobs[k][:3] + (jobs[k][3] * 3,) for k in again], hs, tier, end, workers=4)
        for k, r in zip(again, r2):
            if r and not r["error"] and not r["unsupported"]:
                res[k] = r
    return res, m


def oracle_part(prop, tier, seed, outdir):
    f = os.path.join(HERE, "oracle", f"{prop}.py")
    if not os.path.exists(f):
        return None
    from vf import build
    bd, log = build.ensure()
    out = os.path.join(outdir, "oracle.json")
    if bd is None:
        return {"error": "build failed: " + log, "cases": 0, "failures": []}
    cmd = [VENV, os.path.join(HERE, "oracle", "main.py"), prop, tier, str(seed), out]
    limit = 500 if tier == "quick" else 3000
    p = subprocess.Popen(cmd, env=build.env(bd), cwd=outdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        so, _ = p.communicate(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        so, _ = p.communicate()
        rc = "timeout"
    txt = so.decode(errors="replace")
    try:
        r = json.load(open(out))
    except Exception:
        r = {"cases": 0, "failures": [], "error": f"oracle run ended with {rc}"}
    r["rc"] = rc
    r["log"] = txt[-4000:]
    return r


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import shutil
    import tempfile
    outdir = tempfile.mkdtemp(prefix=f"vf_{prop}_")
    try:
        return check(prop, tier, seed, t0, outdir)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "open"]


def check(prop, tier, seed, t0, outdir):
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    for f in os.listdir(ev_dir):
        if f.startswith(prop + ".") and f != prop + ".json":
            os.unlink(os.path.join(ev_dir, f))
    # the two parts run side by side
    import threading
    box = {}

    def orc():
        try:
            box["o"] = oracle_part(prop, tier, seed, outdir)
        except Exception:
            box["o"] = {"cases": 0, "failures": [], "error": traceback.format_exc()}
    # the proof part forks: run it first when it has harnesses, the oracle in a separate process
    th = threading.Thread(target=orc)
    proof, pm = None, None
    perr = None
    th.start()
    try:
        proof, pm = proof_part(prop, tier)
    except Exception:
        perr = traceback.format_exc()
        proof = []
    th.join()
    orac = box.get("o")
    obls, backends, secs, funcs, unsup, fails = 0, {}, 0.0, {}, [], []
    done = 0
    for h in proof:
        bad = [o for o in h["obls"] if o["status"] != "proved"]
        state = "proved"
        if h["error"]:
            state = "error"
            unsup.append({"harness": h["name"], "reason": "engine error: " + h["error"].strip().splitlines()[-1]})
        elif h["unsupported"]:
            state = "outside the verified subset"
            unsup.append({"harness": h["name"], "reason": h["unsupported"]})
        elif not h["obls"]:
            state = "no obligations"
            unsup.append({"harness": h["name"], "reason": "no obligations generated"})
        for nm, r in h["reach"]:
            if r == "unsat":
                unsup.append({"harness": h["name"], "reason": f"vacuous: {nm}"})
                state = "vacuous"
        if bad and state == "proved":
            state = "failed"
        if state == "failed":
            for o in bad:
                fails.append({"harness": h["name"], "functions": h["functions"], "obligation": o["name"],
                              "status": o["status"], "counterexample": o["model"], "goal": o["detail"],
                              "secs": o["secs"]})
        for o in h["obls"]:
            obls += 1
            if o["status"] == "proved":
                done += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            secs += o["secs"]
        for f in h["functions"]:
            st = funcs.setdefault(f, [])
            st.append(f"{h['name']}: {state}")
        h["state"] = state
    violations = []
    lines = []
    rc = 0
    kn = known(prop)
    ofails = list((orac or {}).get("failures", []))
    kseen = {}
    fresh = []
    for f in ofails:
        k = next((k for k in kn if k["match"] == f.get("key")), None)
        if k:
            kseen[k["id"]] = k
        else:
            fresh.append(f)
    for k in kseen.values():
        lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    if fresh:
        rep = os.path.join(ev_dir, f"{prop}.replay.json")
        json.dump({"property": prop, "kind": "failing input on the real code", "failures": fresh,
                   "failed_obligations": fails,
                   "how_to_replay": f"/verif/check {prop} replay {rep}"}, open(rep, "w"), indent=1)
        violations.append({"replay": rep, "what": fresh[0].get("what", "")[:400]})
        lines.append(f"VIOLATION property={prop} replay={rep}")
        lines.append("  " + fresh[0].get("what", "")[:300])
        rc = 1
    elif fails:
        rep = os.path.join(ev_dir, f"{prop}.replay.json")
        json.dump({"property": prop, "kind": "failed proof obligations (no concrete failing input found)",
                   "failed_obligations": fails, "oracle": {k: v for k, v in (orac or {}).items() if k != "log"}},
                  open(rep, "w"), indent=1)
        for f in fails[:5]:
            lines.append(f"  failed obligation [{f['harness']}] {f['obligation']} ({f['status']})")
        violations.append({"replay": rep, "what": fails[0]["harness"] + ": " + fails[0]["obligation"]})
        lines.append(f"VIOLATION property={prop} replay={rep} no-failing-input-found")
        rc = 1
    elif perr:
        lines.append(perr)
        rc = 2
    if rc == 0 and orac and orac.get("error") and not proof:
        lines.append("oracle error: " + str(orac["error"])[-1500:] + str(orac.get("log", ""))[-1500:])
        rc = 2
    if rc == 0 and orac and orac.get("error"):
        lines.append("oracle part incomplete: " + str(orac["error"])[-600:])
        if orac.get("fatal", True):
            rc = 2
            lines.append(str(orac.get("log", ""))[-1500:])
    full = bool(proof) and not unsup and not fails
    level = getattr(pm, "LEVEL", "proof") if pm is not None else "exploration"
    asm = list(getattr(pm, "ASSUMPTIONS", [])) if pm is not None else []
    from vf import common
    asm = common.ASSUMPTIONS + asm if pm is not None else asm
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": obls, "discharged": done, "checker_cmd": f"/verif/check {prop} {tier}",
            "trusted_base": common.TRUSTED,
            "back_ends": backends, "solver_seconds": round(secs, 2),
            "functions_under_contract": funcs,
            "harnesses": [{k: h.get(k) for k in ("name", "state", "paths", "secs")} | {"obligations": len(h["obls"])}
                          for h in proof],
            "outside_subset_this_run": unsup,
            "bounded_standin": {
                "label": "bounded: concrete evaluation of the same contracts on the built code, never counted as proved",
                "cases": (orac or {}).get("cases", 0), "groups": (orac or {}).get("groups", {}),
                "bounds": (orac or {}).get("bounds", ""),
            },
            "only_bounded": list(getattr(pm, "BOUNDED", [])) if pm is not None else [],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": asm,
        "violations": len(violations),
    }
    if violations:
        ev["coverage"]["violation_details"] = violations
    cov = ev["coverage"]
    g = (orac or {})
    cov["evaluations"] = g.get("cases", 0)
    cov["distinct_nontrivial"] = g.get("distinct", g.get("cases", 0))
    cov["rule"] = ("each bounded case is drawn from its own seeded generator (group, case number); non-trivial: the"
                   " contract was evaluated on a non-empty input; distinct: by hash of generator draw")
    cov["samples"] = g.get("samples", [])
    json.dump(ev, open(os.path.join(ev_dir, f"{prop}.json"), "w"), indent=1)
    lines.insert(0, f"{prop} [{tier}] obligations {done}/{obls} proved in {len(proof)} harnesses"
                    f" ({secs:.1f}s solver), oracle cases {(orac or {}).get('cases', 0)}, {time.time()-t0:.1f}s")
    for u in unsup:
        lines.insert(1, f"  note: {u['harness']}: not decided by proof on this source ({u['reason']});"
                        f" bounded stand-in used")
    print("\n".join(lines), flush=True)
    if os.environ.get("VF_DEBUG"):
        for h in proof:
            print(h["name"], h["state"], h["secs"], h["paths"])
            if h["error"]:
                print(h["error"])
            if h.get("tb"):
                print(h["tb"])
            for o in h["obls"]:
                if o["status"] != "proved" or os.environ["VF_DEBUG"] == "2":
                    print("   ", o["name"], o["status"], o["backend"], o["secs"], o["detail"])
                    if os.environ["VF_DEBUG"] == "3":
                        print(o["model"])
        print((orac or {}).get("log", "")[-3000:])
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
