"""Entry point: python -m vlib.run C01 [quick|thorough] [--replay FILE] [--facet NAME]"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback


def _child(conn, pid, fi, facets, tier, seed, shard, budget, known, logdir):
    from vlib import core
    f = facets[fi]
    os.setpgid(0, 0)
    d = os.path.join(logdir, f"{f.name}.{shard}")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    log = open(os.path.join(d, "log.txt"), "w", buffering=1 << 16)

    class Capped:
        """stdout of the code under test, first 2 MB only."""
        n = 0
        encoding = "utf-8"

        def write(self, s):
            if self.n < 2_000_000:
                self.n += len(s)
                log.write(s)
            return len(s)

        def flush(self):
            pass

        def isatty(self):
            return False

        def fileno(self):
            return devnull
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = sys.stderr = Capped()
    try:
        r = core.run_facet(pid, f, tier, seed, shard, budget, known)
    except BaseException:
        r = {"facet": f.name, "shard": shard, "error": traceback.format_exc(), "violation": None,
             "evaluations": 0, "keys": [], "samples": [], "labels": {}, "known": {},
             "budget_hit": False, "wall_s": 0}
    conn.send(json.dumps(r, default=str))
    conn.close()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import warnings
    warnings.simplefilter("ignore")
    from vlib import core
    try:
        mod, facets = core.load(a.pid)
        import kd
        if not os.path.abspath(kd.__file__).startswith(core.REPO + "/"):
            raise RuntimeError(f"kd imported from {kd.__file__}")
    except Exception:
        traceback.print_exc()
        print(f"ERROR: check {a.pid} could not be loaded")
        return 2
    known = core.load_known()

    if a.replay:
        rep = json.load(open(a.replay))
        f = [x for x in facets if x.name == rep["facet"]][0]
        try:
            core.run_case(f, rep["case"])
        except core.Violation as v:
            print(f"replayed: {v}")
            print(f"VIOLATION property={a.pid} replay={a.replay}")
            return 1
        print("replay passes")
        return 0

    if a.scale != 1.0:
        for f in facets:
            f.quick, f.thorough = max(1, int(f.quick * a.scale)), max(1, int(f.thorough * a.scale))
    if a.facet:
        facets = [f for f in facets if f.name in a.facet]

    # listed findings: each is replayed first
    for k in known:
        if k["property"] != a.pid:
            continue
        f = [x for x in facets if x.name == k["facet"]]
        if not f:
            continue
        try:
            sys.stdout.flush()
            save = os.dup(1)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            try:
                core.run_case(f[0], k["case"])
            finally:
                sys.stdout.flush()
                os.dup2(save, 1)
            print(f"note: finding {k['id']} no longer reproduces")
        except core.Violation as v:
            if v.sig == k["sig"]:
                print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
            # a different violation is found again by the search below

    logdir = os.path.abspath("run")
    os.makedirs(logdir, exist_ok=True)
    budget = float(os.environ.get("VERIF_BUDGET", "240" if a.tier == "quick" else "2400"))
    jobs = [(i, s) for i, f in enumerate(facets) for s in range(max(1, f.shards))]
    jobs.sort(key=lambda j: -facets[j[0]].shards)
    ctxm = mp.get_context("fork")
    running, results, qi = [], [], 0
    ncpu = int(os.environ.get("VERIF_JOBS", "8"))
    while qi < len(jobs) or running:
        while qi < len(jobs) and len(running) < ncpu:
            fi, sh = jobs[qi]
            qi += 1
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(w, a.pid, fi, facets, a.tier, seed, sh, budget, known, logdir))
            p.start()
            w.close()
            running.append((p, r, facets[fi], sh, time.time()))
        still = []
        for p, r, f, sh, ts in running:
            if r.poll(0.01):
                try:
                    results.append(json.loads(r.recv()))
                except EOFError:
                    p.join(5)
                    results.append({"facet": f.name, "shard": sh, "error": f"worker died (exit {p.exitcode})",
                                    "violation": None, "evaluations": 0, "keys": [], "samples": [],
                                    "labels": {}, "known": {}, "budget_hit": False, "wall_s": time.time() - ts})
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif time.time() - ts > budget + 300:
                p.kill()
                results.append({"facet": f.name, "shard": sh, "error": "worker hung", "violation": None,
                                "evaluations": 0, "keys": [], "samples": [], "labels": {}, "known": {},
                                "budget_hit": True, "wall_s": time.time() - ts})
            else:
                still.append((p, r, f, sh, ts))
        running = still

    # ---- merge
    viol = [r["violation"] for r in results if r["violation"]]
    errs = [r for r in results if r["error"]]
    ev = sum(r["evaluations"] for r in results)
    keys = set()
    per = {}
    for r in results:
        for k in r["keys"]:
            keys.add((r["facet"], k))
        p = per.setdefault(r["facet"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "wall_s": 0.0,
                                        "stopped_by_budget": False})
        p["evaluations"] += r["evaluations"]
        p["wall_s"] = round(max(p["wall_s"], r["wall_s"]), 2)
        p["stopped_by_budget"] |= bool(r["budget_hit"])
        for k, n in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + n
    for fn, _ in keys:
        per[fn]["distinct_nontrivial"] += 1
    samples = []
    for f in facets:
        s = [x for r in results if r["facet"] == f.name for x in r["samples"]]
        samples += s[:2]
    evid = {
        "property": a.pid, "tier": "thorough" if a.tier == "thorough" else "quick", "seed": seed,
        "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(keys),
                     "rule": getattr(mod, "RULE", "see DESIGN.md"),
                     "samples": samples or [{"note": "no non-trivial case in this run"}],
                     "facets": per},
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"facet": v["facet"], "message": v["message"][:400]} for v in viol],
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    if not a.facet:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(core.VERIF, "evidence", f"{a.pid}.json"), "w") as fh:
            json.dump(evid, fh, indent=1, default=str)
    for fn, p in per.items():
        if a.v or a.facet:
            print(f"  {fn}: {p}")
    print(f"{a.pid} {a.tier} seed={seed}: {ev} cases, {len(keys)} distinct non-trivial, "
          f"{len(facets)} facets, {time.time()-t0:.1f}s")
    if viol:
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in viol:
            if v["facet"] in seen:
                continue
            seen.add(v["facet"])
            h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(core.VERIF, "replays", f"{a.pid}-{v['facet']}-{h}.json")
            with open(path, "w") as fh:
                json.dump({"property": a.pid, **v}, fh, indent=1)
            print(f"[{v['facet']}] {v['message'][:600]}\n   sig={v['sig']} case={json.dumps(v['case'])[:500]}")
            print(f"VIOLATION property={a.pid} replay={path}")
        return 1
    if errs:
        for r in errs:
            print(f"ERROR in facet {r['facet']}: {r['error']}")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
