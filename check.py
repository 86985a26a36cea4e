#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property on /repo's current source."""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
multiprocessing.set_start_method("fork")
sys.setrecursionlimit(20000)

from props.common import Ctx, Anchor, REPO          # noqa: E402
from pyai.values import AbsRaise, Inconclusive                # noqa: E402
from props.index import INDEX                       # noqa: E402


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def matches(k, v):
    return k["property"] == v["property"] and k["case"] == v["case"] and k["what"] in v["what"]


def run_one(ctx, fn):
    try:
        fn(ctx)
    except Anchor as e:
        return f"public name {e} is gone: the analysis has nothing to check"
    except SyntaxError as e:
        return f"source does not parse: {e}"
    except Inconclusive as e:
        return f"analysis broken outside a case: {e}"
    except AbsRaise as e:
        return f"the program raises outside a case: {e}"


def worker(ctx, fn, conn):
    err = None
    try:
        err = run_one(ctx, fn)
    except BaseException:
        err = "analysis failed: " + traceback.format_exc()
    r = ctx.result()
    conn.send_bytes(json.dumps({"err": err, **r}, default=lambda o: sorted(o) if isinstance(o, (set, frozenset)) else str(o)).encode())
    conn.close()


def run_all(ctx, fn):
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if jobs <= 1:
        err = run_one(ctx, fn)
        r = ctx.result()
        ctx.violations, ctx.paths, ctx.decided, ctx.undecided = [], 0, 0, 0
        ctx.samples, ctx.names, ctx.undecided_why = [], {}, {}
        ctx.absorb([r])
        return err
    ctx.board = multiprocessing.Array("i", 20000)
    ps = []
    for _ in range(jobs):
        a, b = multiprocessing.Pipe(False)
        p = multiprocessing.Process(target=worker, args=(ctx, fn, b))
        p.start()
        b.close()
        ps.append((p, a))
    rs, err = [], None
    for p, a in ps:
        try:
            r = json.loads(a.recv_bytes())
        except EOFError:
            err = err or "a worker process ended without an answer"
            continue
        finally:
            p.join()
        r["functions"], r["modules"] = set(r["functions"]), set(r["modules"])
        err = err or r["err"]
        rs.append(r)
    ctx.absorb(rs)
    return err


def main():
    prop = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] or "--tier=thorough" in sys.argv else "quick"
    t0 = time.time()
    mod, fn = INDEX[prop]
    ctx = Ctx(prop, tier)
    evd = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    err = run_all(ctx, getattr(importlib.import_module("props." + mod), fn))
    known = load_known()
    new, old = [], []
    for v in ctx.violations:
        (old if any(matches(k, v) for k in known) else new).append(v)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": "abstract interpretation of the current source: every obligation is analysed on all "
                           "paths over abstract inputs; nothing of the repository is executed",
            "rules": ctx.rules, "obligations": ctx.cases, "paths_analysed": ctx.paths,
            "paths_decided": ctx.decided, "paths_undecided": ctx.undecided,
            "undecided_reasons": ctx.undecided_why, "obligations_without_decided_path": ctx.vacuous,
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions), "modules": sorted(ctx.modules),
            "abstract_steps": ctx.nsteps,
            "samples": ctx.samples, **ctx.extra},
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
        "assumptions": ["the transfer functions of the analysis model CPython 3 semantics of the constructs used",
                        "paths listed as undecided were not judged"],
    }
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if err:
        print("ERROR", prop, err)
        return 3
    if ctx.decided == 0:
        print("ERROR", prop, "no path was decided", ctx.undecided_why)
        return 3
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {v['case']}: {v['what']}")
    print(f"{prop}: {ctx.cases} obligations, {ctx.paths} paths ({ctx.decided} decided, {ctx.undecided} undecided), "
          f"{len(ctx.functions)} functions, {time.time()-t0:.1f}s")
    if os.environ.get("VERIF_DEBUG"):
        for k, n in ctx.undecided_why.items():
            print("   undecided", n, k)
        print("   vacuous", ctx.vacuous)
    if new:
        rp = os.path.join(evd, prop + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new[:10]:
            print(f"  {v['at']}: [{v['case']}] {v['what']}")
            for s in v["path"][-8:]:
                print("      ", s)
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
