#!/usr/bin/env python3
"""Usage: run.py PROPERTY [--only OBLIGATION] ; decides the property on /repo's current source."""
import sys, os, time, json, multiprocessing as mp, importlib, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, os.path.join(VERIF, "specs"))
sys.setrecursionlimit(100000)
import mir, spec

LEVEL = "other"


def known():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                r.append(l[8:].strip())
    return r


def worker(q, prog, prop, obs, idx, deadline, tier):
    import threading
    threading.stack_size(512 * 1024 * 1024)

    def go():
        for i in idx:
            n, f, m = obs[i]
            q.put((i, spec.run_one(prog, prop, n, f, deadline, tier)))
    t = threading.Thread(target=go)
    t.start()
    t.join()


def one(args):
    prog, prop, i, deadline, tier = args
    n, f, m = spec.REG[prop][i]
    return i, spec.run_one(prog, prop, n, f, deadline, tier)


def run_all(prog, prop, only, tier, budget, limit):
    obs = spec.REG.get(prop, [])
    sel = [i for i, (n, f, m) in enumerate(obs) if (not only or n == only) and (m["tier"] == "quick" or tier == "thorough" or only)]
    t0 = time.time()
    res = {}
    procs = {}
    hint = hints()
    todo = sorted(sel, key=lambda i: -hint.get(obs[i][0].split(":")[-1], 1))      # long ones first
    stop = False
    ncpu = min(8, os.cpu_count() or 4)
    while todo or procs:
        if stop and todo:
            for i in todo:
                res[i] = dead(obs[i][0], "not analysed: a violation was found before")
            todo = []
        while todo and len(procs) < ncpu:
            i = todo.pop(0)
            r, w = mp.Pipe(False)
            dl = min(time.time() + (obs[i][2].get("budget") or budget), limit)
            p = mp.Process(target=child, args=(w, prog, prop, i, dl, tier))
            p.start()
            w.close()
            procs[i] = (p, r, dl)
        for i in list(procs):
            p, r, dl = procs[i]
            if r.poll(0.02):
                try:
                    res[i] = r.recv()
                except EOFError:
                    res[i] = dead(obs[i][0], "analysis process ended")
                p.join()
                del procs[i]
                stop = stop or (not only and bool(res[i]["viol"]))
            elif time.time() > dl + 20:
                p.terminate()
                p.join()
                res[i] = dead(obs[i][0], "time budget")
                del procs[i]
    return [res[i] for i in sel]


def hints():
    """approximate analysis times (only used to order the work)"""
    try:
        return json.load(open(os.path.join(VERIF, "specs", "times.json")))
    except (OSError, ValueError):
        return {}


def dead(n, why):
    return {"name": n, "viol": [], "undec": [why], "nundec": 1, "queries": 0, "discharged": 0, "paths": 0, "funcs": [], "loops": 0, "fix": 0,
            "unknown": {}, "contracts": [], "steps": 0, "wall": 0, "facts": []}


def child(w, prog, prop, i, dl, tier):
    import threading
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    threading.stack_size(512 * 1024 * 1024)

    def go():
        n, f, m = spec.REG[prop][i]
        try:
            w.send(spec.run_one(prog, prop, n, f, dl, tier))
        except MemoryError:
            w.send(dead(n, "memory budget"))
    t = threading.Thread(target=go)
    t.start()
    t.join()


def main():
    prop = sys.argv[1]
    only = None
    verbose = "-v" in sys.argv
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, prop + ".violation.json")
    if os.path.exists(replay):
        os.remove(replay)
    importlib.import_module("all_specs")
    try:
        prog = mir.load()
    except mir.BuildError as e:
        json.dump({"property": prop, "rule": "the crate's MIR can be extracted", "detail": str(e)}, open(replay, "w"), indent=1)
        print("the crate does not build: %s" % str(e)[-500:])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    results = run_all(prog, prop, only, tier, 150 if tier == "quick" else 600, t0 + (600 if tier == "quick" else 3600))
    kf = known()
    viol = []
    for r in results:
        for v in r["viol"]:
            key = "property=%s obligation=%s rule=%s function=%s" % (prop, r["name"], v["rule"], v["function"])
            if key in kf:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["function"], v["rule"]))
            else:
                viol.append((key, r["name"], v))
    q = sum(r["queries"] for r in results)
    d = sum(r["discharged"] for r in results)
    und = sum(r["nundec"] for r in results)
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "explanation": "Abstract interpretation of the MIR of /repo's current source. Each obligation below was analysed over all paths of the named functions; "
                           "'discharged' counts conditions entailed by the abstract state on every path, 'undecided' are conditions the domain could not settle (never reported as violations).",
            "obligations": q, "discharged": d, "undecided": und,
            "obligation_groups": [{"name": r["name"], "conditions": r["queries"], "discharged": r["discharged"], "undecided": r["nundec"], "undecided_samples": r["undec"][:3],
                                   "paths": r["paths"], "functions_inlined": r["funcs"], "contracts_used": r["contracts"], "loops": r["loops"],
                                   "fixpoint_iterations": r["fix"], "mir_blocks_evaluated": r["steps"], "wall_s": r["wall"], "violations": len(r["viol"]), "notes": r["facts"]} for r in results],
            "functions_analysed": len(set(f for r in results for f in r["funcs"])),
            "mir_bodies_available": len(prog.bodies),
            "unmodelled_callees": sorted(set(k for r in results for k in r["unknown"])),
        },
        "assumptions": ["rustc's MIR (nightly, overflow checks on, debug assertions off) is the program", "transfer functions of std callees in engine/stdmodels.py"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if not only:
        json.dump(evd, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for r in results:
        print("%-40s conditions %4d discharged %4d undecided %3d violations %d paths %4d  %.1fs" % (r["name"], r["queries"], r["discharged"], r["nundec"], len(r["viol"]), r["paths"], r["wall"]))
        if verbose:
            for u in r["undec"][:12]:
                print("    undecided:", u)
            for v in r["viol"]:
                print("    VIOL", json.dumps(v, indent=1, default=str)[:3000])
    # floor: an analysis that establishes nothing must not pass silently
    floor = getattr(sys.modules["all_specs"], "FLOOR", {}).get(prop)
    if viol:
        json.dump([{"key": k, "obligation": n, **v} for k, n, v in viol], open(replay, "w"), indent=1, default=str)
        for k, n, v in viol[:5]:
            print("violated: [%s] %s in %s" % (n, v["rule"], v["function"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("%s: %d conditions, %d discharged, %d undecided, %.1fs" % (prop, q, d, und, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
