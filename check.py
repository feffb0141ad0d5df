#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree.

1. The contract targets of the property (targets/<id>.py) are run on the instrumented source of
   /repo: every obligation is discharged by z3 or cvc5, or fails, or is undecided.
2. The same contracts, where they can be executed, are run on the plain code of /repo over a
   stated finite set of inputs (oracle/<id>.py): this replays failed obligations, and stands
   in -- labelled bounded -- for functions that are out of the verifier's reach.

Outcome: a contract violated by a concrete input, or an obligation the solver refutes, is a
violation (exit 1).  Undecided obligations are reported in the evidence, never as violations.
"""
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if sys.executable != VT and os.path.exists(VT) and not os.environ.get("PYVC_REEXEC"):
    os.environ["PYVC_REEXEC"] = "1"
    os.execv(VT, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO_PY = "/opt/venv/bin/python"


def run_job(prop, name, only, deadline, out):
    from pyvc import core, harness

    t = harness.TARGETS[(prop, name)]
    opts = dict(t.opts)
    opts["time_limit"] = min(opts.get("time_limit", 300), max(5, deadline - time.time()))
    r = {"target": name, "split": only}
    try:
        e = core.Explorer(name, lambda: t.fn(harness.H()), only_choices=only or None, **opts)
        e.run()
        obl = {}
        fails, und = [], []
        for x in e.results:
            o = obl.setdefault(x.name, [0, 0])
            o[0] += 1
            if x.status == "discharged":
                o[1] += 1
            elif x.status == "failed":
                fails.append(dict(name=x.name, model=x.model, path=x.path, note=x.note, taint=bool(x.taint)))
            else:
                und.append(dict(name=x.name, note=x.note[:300]))
        r.update(
            obligations=obl, failed=fails[:12], undecided=und[:12], n_undecided=len(und),
            n_failed=len(fails), covers={**e.covers, **{'obligation: ' + k: v is True for k, v in e.reached.items()}}, functions=sorted(e.functions),
            assumed=sorted(e.assumed), errors=[(k, m, tb[-900:]) for k, m, tb in e.errors[:4]],
            bounded=t.opts.get("bounded"),
            stats={k: (len(v) if isinstance(v, set) else v) for k, v in e.stats.items()},
            invariants=sorted(e.stats["invariants"]), trivial=e.stats["trivial"], replay=t.replay,
            backends=dict(cvc5=e.stats["cvc5"], z3=e.stats["queries"]),
        )
    except BaseException as ex:  # a crash of the verifier
        import traceback

        r.update(errors=[("crash", repr(ex), traceback.format_exc()[-1500:])], obligations={}, failed=[],
                 undecided=[], n_undecided=0, n_failed=0, covers={}, functions=[], assumed=[], stats={},
                 invariants=[], trivial=0, replay=False, backends={})
    out.put(r)


def symbolic(prop, budget, workers):
    t0 = time.time()
    from pyvc.boot import boot

    try:
        boot()
        import importlib

        importlib.import_module("targets." + prop.lower())
    except BaseException as e:
        import traceback

        return [], [("boot", repr(e), traceback.format_exc()[-1500:])]
    from pyvc import harness
    import itertools

    jobs = []
    for (p, n), t in harness.TARGETS.items():
        if p != prop:
            continue
        sp = t.split or {}
        for combo in itertools.product(*[range(v) for v in sp.values()]):
            jobs.append((n, dict(zip(sp, combo))))
    ctx = mp.get_context("fork")
    deadline = t0 + budget
    results, errors, live = [], [], []
    pend = list(jobs)
    while pend or live:
        while pend and len(live) < workers:
            n, only = pend.pop(0)
            q = ctx.Queue()
            pr = ctx.Process(target=run_job, args=(prop, n, only, deadline, q), daemon=True)
            pr.start()
            live.append((pr, q, n, only))
        nxt = []
        for pr, q, n, only in live:
            try:
                results.append(q.get_nowait())
                pr.join(5)
                continue
            except queue.Empty:
                pass
            if time.time() > deadline + 25:
                pr.kill()
                errors.append(("limit", f"{n} {only}: killed at the time limit", ""))
                continue
            if not pr.is_alive():
                try:
                    results.append(q.get(timeout=1))
                except queue.Empty:
                    errors.append(("crash", f"{n} {only}: worker ended without a result", ""))
                continue
            nxt.append((pr, q, n, only))
        live = nxt
        time.sleep(0.02)
    return results, errors


def run_oracle(prop, tier, seed, case=None, limit=400):
    cmd = [REPO_PY, os.path.join(HERE, "oracle", "run.py"), prop, tier, str(seed)]
    if case:
        cmd.append(case)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)


def finish_oracle(p, limit):
    try:
        o, e = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"cases": [], "failures": [], "error": "time limit"}
    for line in reversed(o.splitlines()):
        if line.startswith("ORACLE "):
            return json.loads(line[7:])
    return {"cases": [], "failures": [], "error": (e or o)[-1500:]}


def replay_model(prop, f, name):
    """Run the contract with the solver's values on the plain code."""
    fn = os.path.join(HERE, ".work", f"cex-{prop}-{os.getpid()}.json")
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, "w") as h:
        json.dump({"property": prop, "target": name, "model": f["model"], "path": f["path"]}, h)
    try:
        p = subprocess.run([REPO_PY, os.path.join(HERE, "replay.py"), fn], capture_output=True, text=True,
                           timeout=60, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        return p.returncode == 1, p.stdout[-600:]
    except subprocess.TimeoutExpired:
        return False, "time limit"
    finally:
        os.unlink(fn)


def known_findings(prop):
    out = []
    fn = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                out.append(line[len(f"known: property={prop} "):])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = float(os.environ.get("PYVC_BUDGET", 330 if tier == "quick" else 780))
    workers = min(8, os.cpu_count() or 4)
    oracle_p = run_oracle(prop, tier, seed)
    results, errors = [], []
    if os.path.exists(os.path.join(HERE, "targets", prop.lower() + ".py")):
        results, errors = symbolic(prop, budget, workers)
    oracle = finish_oracle(oracle_p, max(60, 700 - (time.time() - t0)))

    # ---- obligations
    obl, functions, assumed, invariants, covers = {}, set(), set(), set(), {}
    failed, undecided = [], []
    solver_s = queries = cvc5 = trivial = paths = 0
    bobl, bounds = {}, {}
    for r in results:
        if r.get("bounded"):
            bounds[r["target"]] = r["bounded"]
        for n, (a, b) in r["obligations"].items():
            o = (bobl if r.get("bounded") else obl).setdefault(f"{r['target']}: {n}", [0, 0])
            o[0] += a
            o[1] += b
        functions |= set(r["functions"])
        assumed |= set(r["assumed"])
        invariants |= set(r["invariants"])
        for c, ok in r["covers"].items():
            covers[(r["target"], c)] = covers.get((r["target"], c), False) or ok
        for f in r["failed"]:
            failed.append((r, f))
        undecided += [(r["target"], u["name"], u["note"]) for u in r["undecided"]]
        errors += [(k, f"{r['target']} {r['split']}: {m}", tb) for k, m, tb in r["errors"]]
        st = r["stats"]
        solver_s += st.get("solver_s", 0)
        queries += st.get("queries", 0)
        cvc5 += st.get("cvc5", 0)
        trivial += st.get("trivial", 0)
        paths += st.get("paths", 0)
    n_obl = sum(a for a, _ in obl.values())
    n_dis = sum(b for _, b in obl.values())
    b_obl, b_dis = sum(a for a, _ in bobl.values()), sum(b for _, b in bobl.values())
    vacuous = [f"{t}: {c}" for (t, c), ok in sorted(covers.items()) if not ok]

    # ---- violations
    violations = []  # (description, confirmed, replay content)
    seen = set()
    for f in oracle.get("failures", []):
        violations.append((f["name"], True, {"kind": "input", "property": prop, "case": f["case"], "seed": seed,
                                             "tier": tier, "contract": f["name"], "detail": f["detail"]}))
    for r, f in failed:
        if f["name"] in seen:
            continue
        conf, out = False, ""
        if r["replay"] and f["model"]:
            conf, out = replay_model(prop, f, r["target"])
        if not conf and f["taint"]:
            undecided.append((r["target"], f["name"], "refuted only under an abstraction: " + f["note"][:200]))
            continue
        seen.add(f["name"])
        violations.append((f["name"], conf, {"kind": "obligation", "property": prop, "target": r["target"],
                                             "obligation": f["name"], "model": f["model"], "path": f["path"],
                                             "verifier": f["note"], "replayed": conf, "output": out}))
    known = known_findings(prop)
    shown = []
    for v in list(violations):
        for k in known:
            if v[0].startswith(k.split(" :: ")[0]):
                print(f"KNOWN-FINDING: property={prop} {k}")
                violations.remove(v)
                break
    # a concrete failure is the report; obligations without an input only when there is none
    violations.sort(key=lambda v: not v[1])
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": json.load(open(os.path.join(HERE, "levels.json")))[prop].get("level", "exploration"),
        "coverage": {
            "evaluations": oracle.get("evaluations", 0), "distinct_nontrivial": oracle.get("distinct", 0),
            "rule": "bounded part only: one evaluation is one executable contract checked on one generated call or "
                    "input; distinct by contract and inputs, of the first 5000 of each case",
            "samples": oracle.get("samples", [])[:4],
            "obligations": n_obl, "discharged": n_dis,
            "checker_cmd": f"cd /verif && python3 check.py {prop}",
            "trusted_base": sorted(
                ["pyvc: source instrumentation and symbolic semantics of Python (pyvc/*.py)",
                 "z3 (python API) and cvc5 1.1.2 (for queries z3 leaves unknown)"]
                + [assumption_text(a) for a in assumed]
            ),
            "obligations_by_name": {k: {"generated": a, "discharged": b} for k, (a, b) in sorted(obl.items())},
            "functions_under_contract": sorted(functions),
            "declared_invariants": sorted(invariants),
            "paths": paths, "solver_queries": queries, "cvc5_queries": cvc5,
            "discharged_by_simplification": trivial, "solver_s": round(solver_s, 2),
            "undecided": [f"{t}: {n}: {x}"[:300] for t, n, x in undecided[:20]],
            "unsupported": [f"{k}: {m}"[:300] for k, m, _ in errors[:20]],
            "vacuity_covers_missed": vacuous,
            "bounded_symbolic": {
                "label": "bounded: obligations for all values but only up to the stated number of items; "
                         "not counted in obligations or discharged",
                "bounds": bounds, "generated": b_obl, "discharged": b_dis,
                "by_name": {k: {"generated": a, "discharged": b} for k, (a, b) in sorted(bobl.items())},
            },
            "bounded_stand_in": {
                "label": "bounded: contracts executed on the plain code over a finite input set; not counted as proved",
                "cases": oracle.get("cases", []),
                "error": oracle.get("error"),
            },
        },
        "assumptions": [assumption_text(a) for a in sorted(assumed)],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1, default=str)

    print(f"{prop}: {n_dis}/{n_obl} obligations discharged over {len(functions)} functions, "
          f"{len(undecided)} undecided, {len(errors)} unsupported; "
          + (f"bounded symbolic: {b_dis}/{b_obl}; " if b_obl else "") + "bounded stand-in: "
          f"{oracle.get('evaluations', 0)} evaluations; {ev['wall_s']}s")
    if os.environ.get("PYVC_VERBOSE"):
        for k, m, tb in errors:
            print("  ERR", k, m, tb)
        for u in undecided:
            print("  UND", u)
        if vacuous:
            print("  VACUOUS", vacuous)
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        confirmed = [v for v in violations if v[1]]
        for i, (n, conf, content) in enumerate((confirmed or violations)[:3]):
            fn = os.path.join(HERE, "replays", f"{prop}-{i}.json")
            with open(fn, "w") as h:
                json.dump(content, h, indent=1, default=str)
            print(f"  violated: {n}: {str(content.get('detail') or content.get('verifier'))[:400]}")
            print(f"VIOLATION property={prop} replay={fn}" + ("" if conf else " no-failing-input-found"))
        return 1
    if oracle.get("error"):
        print("bounded stand-in failed to run:", oracle["error"])
        return 3
    if n_obl + b_obl == 0:
        print("no obligations were generated" + "".join(f"\n  {k}: {m}" for k, m, _ in errors[:5]))
        if not oracle.get("evaluations"):
            return 3
    return 0


def assumption_text(a):
    if a.startswith("lib:"):
        try:
            from pyvc.models import ASSUMPTIONS

            return "library model: " + ASSUMPTIONS.get(a[4:], a[4:])
        except Exception:
            return a
    return f"contract used at call sites: {a}"


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
