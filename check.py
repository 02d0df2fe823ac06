#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's working tree
   check.py --setup                        build everything once
   check.py --replay <file>                re-run a reported counterexample

exit 0: every assertion was discharged by the solver on every path within the bounds;
        quick tier: or it was not decided in the time of this tier, was not refuted, and
        is listed on UNDECIDED lines and in the evidence (never on the unchanged tree);
        at least half of all assertions and some of every obligation are discharged
exit 1: a counterexample was found and reproduced on the real code (VIOLATION line)
exit 2: error of the check (no build, encoding mismatch, nothing or too little decided;
        thorough tier: anything undecided outside the optional obligations)
"""
import json, os, shutil, subprocess, sys, tempfile, time
from multiprocessing import Pool, TimeoutError
VERIF = os.path.dirname(os.path.abspath(__file__))
if "z3" not in sys.modules:
    try:
        import z3  # noqa
    except ImportError:
        os.execvp("python3-vt", ["python3-vt", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(VERIF, "sym", "py"))
import build, engine

BOUNDS = json.load(open(os.path.join(VERIF, "sym", "bounds.json")))


def table(out):
    p = subprocess.run([os.path.join(out, "symh")], capture_output=True, text=True)
    t = []
    for ln in p.stdout.split("\n"):
        if ln:
            n, fl = ln.split()
            t.append((n, int(fl)))
    return t


def known():
    k = []
    fn = os.path.join(VERIF, "known-findings.txt")
    for ln in open(fn) if os.path.exists(fn) else []:
        ln = ln.strip()
        if ln.startswith("finding: property="):
            head, _, what = ln[len("finding: property="):].partition(" :: ")
            pid, key = head.split(" ", 1)
            k.append((pid, key.strip(), what.strip()))
    return k


def replay_everywhere(v, out):
    """run the counterexample on ordinary dev and release builds of the crate"""
    res = {}
    for prof in ("dev", "release"):
        try:
            exe = build.build_replay(prof)
        except build.BuildError as e:
            res[prof] = dict(built=False, error=str(e)[:300]); continue
        ob = engine.Obligation(v["obligation"], 0, out)
        nat = ob.native(v["values"], v["chooses"], exe)
        f = nat.violations(ob.width, exact=v.get("exact", False), diff=v.get("diff"), accurate=v.get("accurate"))
        res[prof] = dict(built=True, status=nat.status, fails=[list(x) for x in f[:6]])
    return res


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage={}, wall_s=0.0, violations=0)
    evfn = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evfn), exist_ok=True)
    if os.path.exists(evfn):
        os.remove(evfn)
    try:
        out, meta = build.build()
    except build.BuildError as e:
        print(f"ERROR: cannot build the symbolic executable: {e}")
        return 2
    b = BOUNDS[pid]
    # flags: 1 = bit-precise mode, 2 = optional (may be unsupported), 4 = thorough tier only
    obs = [(n, fl) for n, fl in table(out) if n.startswith(pid + ".") and (tier == "thorough" or not fl & 4)]
    if not obs:
        print("ERROR: no obligations for", pid)
        return 2
    lim = 480 if tier == "quick" else 7200
    opts = dict(deadline=t0 + lim, tier=tier, optional=0)
    if tier == "thorough":
        opts.update(timeout=120.0, branch_timeout=20.0, max_paths=20000, refute=1500.0, validate=25, samples=300, cross=60.0, cross_total=1500.0)
    else:
        opts.update(cross=1.0, cross_total=12.0)
    res = []
    stopped = []
    scratch = tempfile.mkdtemp(prefix="symh-")
    opts["tmp"] = scratch
    # optional obligations never use up the time of the others
    budget = lambda fl: {**opts, "seconds": 150 if tier == "quick" else 2400} if fl & 2 else opts
    with Pool(8) as p:
        it = p.imap_unordered(engine.run_obligation, [(n, fl & 1, out, seed, budget(fl)) for n, fl in obs], chunksize=1)
        wait = None
        while len(res) < len(obs):
            try:
                r = it.next(timeout=None if wait is None else max(0.1, wait - time.time()))
            except TimeoutError:
                # a violation is at hand: the rest is not waited for
                names = {r["name"] for r in res}
                stopped = [n for n, _ in obs if n not in names]
                p.terminate()
                break
            res.append(r)
            if r["violations"] and wait is None and tier == "quick":
                wait = time.time() + 20
    shutil.rmtree(scratch, ignore_errors=True)
    res.sort(key=lambda r: r["name"])
    flags = dict(obs)
    errors, undecided = [], []
    viol, kn = [], []
    known_list = known()
    for r in res:
        for v in r["violations"]:
            key = f"{v['obligation']} {v['assertion']}"
            m = [k for k in known_list if k[0] == pid and k[1] == key]
            (kn if m else viol).append((v, m[0][2] if m else None))
        if r.get("validation_mismatch"):
            errors.append(f"{r['name']}: the encoding disagrees with the real code: {str(r['validation_mismatch'])[:400]}")
        for o in r["open"]:
            soft = not r.get("error") and (flags[r["name"]] & 2 or tier == "quick" and r["proved"] and o[0] not in ("vacuous", "engine"))
            (undecided if soft else errors).append(f"{r['name']}: {o[0]}: {str(o[1])[:400]}")
        if r.get("error"):
            errors.append(r["error"])
    fn = meta["functions"]
    enc = sorted({fn[k] for r in res for k in r["functions"] if k < len(fn)})
    kinds = {}
    for r in res:
        for k, n in r["query_kinds"].items():
            kinds[k] = kinds.get(k, 0) + n
    tot = lambda k: sum(r.get(k, 0) for r in res)
    ev["coverage"] = dict(
        states=tot("paths"), transitions=tot("ops"), branch_decisions=tot("decisions"), traces_validated_against_impl=tot("validated"),
        counting="states: feasible execution paths; transitions: terms (operations) encoded along them",
        samples=[s for r in res for s in r["samples"]][:8],
        obligations=[dict(name=r["name"], paths=r["paths"], infeasible_prefixes=r["infeasible"], assertions=r["checks"], proved=r["proved"],
                          definedness=r["definedness"], case_splits=r["splits"], queries=r["queries"], solver_s=r["solver_s"], dag_nodes=r["nodes"],
                          cross_checked=r.get("cross", {}), optional=bool(flags[r["name"]] & 2), wall_s=round(r["wall_s"], 2)) for r in res],
        assertions_discharged=tot("proved"), assertions=tot("checks"), queries=tot("queries"), query_kinds=kinds,
        verdicts={k: sum(r["verdicts"][k] for r in res) for k in ("unsat", "sat", "unknown")},
        solver_time_s=round(sum(r["solver_s"] for r in res), 3), functions_encoded=enc, bounds=b["bounds"], outside=b["outside"],
        undecided=undecided, stopped_after_a_violation=stopped, encoding="LLVM IR of /repo's working tree with nalgebra and std, regenerated on this run (key %s)" % meta["key"],
        build_seconds=meta.get("build_seconds"))
    ev["assumptions"] = b["assumptions"] + BOUNDS["_common"]
    code = 0
    done = set()
    for v, what in kn:
        if what not in done:
            done.add(what)
            print(f"KNOWN-FINDING: property={pid} {what}")
    n = 0
    reported = set()
    for v, _ in viol:
        if (v["obligation"], v["assertion"]) in reported or n >= 3:
            continue
        reported.add((v["obligation"], v["assertion"]))
        rep = replay_everywhere(v, out)
        if not any(x.get("fails") for x in rep.values()):
            errors.append(f"{v['obligation']}: counterexample for '{v['assertion']}' does not reproduce on the dev or release build: {v['values']} {rep}")
            continue
        n += 1
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        f = os.path.join(VERIF, "replays", f"{pid}-{n}.json")
        json.dump(dict(property=pid, **v, replayed=rep), open(f, "w"), indent=1)
        print(f"{v['obligation']}: '{v['assertion']}' fails ({v['found']}): {v['fails'][:3]}")
        print("   inputs:", json.dumps(v["values"]), "choices:", v["chooses"])
        print(f"VIOLATION property={pid} replay={f}")
        code = 1
    ev["violations"] = n
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(evfn, "w"), indent=1)
    c = ev["coverage"]
    print(f"{pid} {tier}: {len(res)} obligations, {c['states']} paths, {c['assertions_discharged']}/{c['assertions']} assertions discharged, "
          f"{c['queries']} queries, {c['solver_time_s']} s solver, {c['traces_validated_against_impl']} traces validated, {ev['wall_s']} s")
    for u in undecided[:12]:
        print("UNDECIDED:", u)
    if undecided and c["assertions_discharged"] * 2 < c["assertions"]:
        errors.append("more than half of the assertions were not decided")
    if code == 0 and errors:
        for e in errors[:12]:
            print("ERROR:", e)
        code = 2
    return code


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        out, meta = build.build()
        print("built", out, len(table(out)), "obligations")
        return 0
    if a and a[0] == "--replay":
        v = json.load(open(a[1]))
        out, _ = build.build()
        r = replay_everywhere(v, out)
        print(json.dumps(r, indent=1))
        return 1 if any(x.get("fails") for x in r.values()) else 0
    return run(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main())
