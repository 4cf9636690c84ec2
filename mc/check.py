"""Driver: python3 -m mc.check <PROPERTY> [--tier quick|thorough] [--jobs N] [--only KEYGLOB]

Explores the property's bounded space completely, every case against the real tools built from /repo's working
tree, compares with the property's reference model, writes evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import argparse, base64, fnmatch, hashlib, importlib, json, multiprocessing as mp, os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import build, run

class Case:
    __slots__ = ("key", "prog", "judge", "steps", "states", "n")
    def __init__(self, key, prog, judge, steps=1, states=None, n=1):
        self.key = key; self.prog = prog; self.judge = judge
        self.steps = steps; self.states = states; self.n = n

def h64(x):
    if not isinstance(x, (str, bytes)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "big")

def _b64(files):
    return {n: base64.b64encode(d.encode("utf-8", "surrogateescape") if isinstance(d, str) else d).decode() for n, d in files.items()}

def save_replay(pid, key, prog, msg):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, hashlib.sha256(key.encode("utf-8", "surrogatepass")).hexdigest()[:16] + ".json")
    with open(p, "w") as f:
        json.dump({"property": pid, "key": key, "message": msg, "files": _b64(prog["files"]), "steps": prog["steps"],
                   "reads": list(prog.get("reads", ())), "env": prog.get("env"), "stdin": prog.get("stdin"),
                   "text": {n: (d if isinstance(d, str) else repr(d)[:4000])[:20000] for n, d in prog["files"].items()}}, f, indent=1)
    return p

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                e = json.loads(line[len("finding: "):])
                if e["property"] == pid:
                    out.append(e)
    return out

def match_known(known, key, msg):
    for i, e in enumerate(known):
        for k in e["keys"]:
            if (k == key or fnmatch.fnmatchcase(key, k)) and e.get("msg", "") in msg:
                return i
    return None

def worker(args):
    mod_name, tier, k, n, tools, deadline, stop, only, known, allv = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = importlib.import_module(mod_name)
    run.TOOLS.clear(); run.TOOLS.update(tools)
    out = dict(cases=0, evals=0, steps=0, states=set(), outcomes=set(), progs=set(), viol=[], samples=[], capped=False, runs=0, flaky=[], knownhits={}, err=None)
    w = run.World(mod.ID)
    try:
        for i, c in enumerate(mod.cases(tier)):
            if i % n != k:
                continue
            if only and not fnmatch.fnmatchcase(c.key, only):
                continue
            if stop.is_set():
                break
            if time.time() > deadline:
                out["capped"] = True
                break
            prog = c.prog() if callable(c.prog) else c.prog
            custom = getattr(mod, "execute", None)
            ex = (lambda p: custom(w, p)) if custom else (lambda p: w.run(p))
            res = ex(prog)
            out["cases"] += 1; out["evals"] += c.n; out["runs"] += len(prog["steps"])
            out["steps"] += c.steps
            out["progs"].add(h64(c.key))
            for s in (c.states if c.states is not None else (c.key,)):
                out["states"].add(h64(s))
            out["outcomes"].add(h64((res.rcs, sorted(res.files.items()))))
            bad = c.judge(res)
            if len(out["samples"]) < 2 and k < 4 and out["cases"] > 3 * k:
                out["samples"].append({"case": c.key[:300], "steps": prog["steps"][:6], "source": {a: (b if isinstance(b, str) else repr(b))[:700] for a, b in list(prog["files"].items())[:3]},
                                       "exit_codes": res.rcs[:10], "verdict": "agrees with the model" if not bad else str(bad)[:300]})
            if bad:
                items = [(c.key, bad)] if isinstance(bad, str) else [(a if a else c.key, b) for a, b in bad]
                # replay before report: the very same program again
                again = 0; lastprog = prog
                for _ in range(2):
                    prog2 = c.prog() if callable(c.prog) else c.prog
                    if c.judge(ex(prog2)):
                        again += 1
                if not again:
                    out["flaky"].append((c.key, str(items)[:500]))
                    continue
                for key, msg in items:
                    m = match_known(known, key, msg)
                    if m is not None:
                        out["knownhits"].setdefault(m, []).append(key)
                        continue
                    out["viol"].append((key, msg, save_replay(mod.ID, key, prog, msg)))
                if len(out["viol"]) >= 3 and not allv:
                    stop.set()
    except Exception:
        out["err"] = traceback.format_exc()
        stop.set()
    finally:
        w.close()
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--only")
    ap.add_argument("--limit", type=float)
    ap.add_argument("--all", action="store_true", help="do not stop at the first violations")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    mod_name = "mc.props." + pid.lower()
    mod = importlib.import_module(mod_name)
    try:
        tools = build.build(list(mod.TOOLS), getattr(mod, "VARIANT", "opt"))
        for v, ts in getattr(mod, "MORE_TOOLS", {}).items():
            for t, p in build.build(list(ts), v).items():
                tools[t + "@" + v] = p
    except build.BuildError as e:
        print(e); print("BUILD-ERROR: cannot build /repo's working tree")
        return 2
    tb = time.time() - t0
    limit = a.limit or (780 if a.tier == "quick" else 7200)
    known = load_known(pid)
    ctx = mp.get_context("fork")
    mgr_stop = ctx.Event()
    n = max(1, min(a.jobs, getattr(mod, "MAX_JOBS", 64)))
    procs = []; q = ctx.Queue()
    def body(k):
        o = worker((mod_name, a.tier, k, n, tools, t0 + limit, mgr_stop, a.only, known, a.all))
        q.put(o)
    for k in range(n):
        p = ctx.Process(target=body, args=(k,)); p.start(); procs.append(p)
    outs = []
    import queue as _q
    while len(outs) < n:
        try:
            outs.append(q.get(timeout=5))
        except _q.Empty:
            if not any(p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        p.join()
    if len(outs) < n or any(o["err"] for o in outs):
        for o in outs:
            if o["err"]:
                print(o["err"])
        print("CHECK-ERROR: %d of %d workers reported" % (len(outs), n))
        return 2
    states = set(); outcomes = set(); progs = set()
    for o in outs:
        states |= o["states"]; outcomes |= o["outcomes"]; progs |= o["progs"]
    viol = [v for o in outs for v in o["viol"]]
    flaky = [f for o in outs for f in o["flaky"]]
    capped = any(o["capped"] for o in outs) or bool(a.only)
    hits = {}
    for o in outs:
        for m, ks in o["knownhits"].items():
            hits.setdefault(m, []).extend(ks)
    S = lambda f: sum(o[f] for o in outs)
    samples = [s for o in outs for s in o["samples"]][:5]
    cov = {"states": len(states), "transitions": S("steps"), "traces_validated_against_impl": S("cases"),
           "evaluations": S("evals"), "distinct_nontrivial": len(progs), "tool_executions": S("runs"),
           "distinct_observed_outcomes": len(outcomes), "rule": mod.RULE, "samples": samples,
           "exhaustive": (not capped) and not viol, "unreproduced": len(flaky), "known_findings_hit": sum(len(v) for v in hits.values()),
           "bounds": getattr(mod, "BOUNDS", {}).get(a.tier, ""), "build_s": round(tb, 2)}
    if hasattr(mod, "extra_coverage"):
        cov.update(mod.extra_coverage(a.tier))
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": mod.LEVEL, "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s tier=%s cases=%d evaluations=%d states=%d transitions=%d runs=%d outcomes=%d capped=%s flaky=%d build=%.1fs wall=%.1fs"
          % (pid, a.tier, S("cases"), S("evals"), len(states), S("steps"), S("runs"), len(outcomes), capped, len(flaky), tb, time.time() - t0))
    for f in flaky[:3]:
        print("unreproduced:", f)
    for m, ks in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases, e.g. %s)" % (pid, known[m]["what"], len(ks), ks[0][:120]))
    if S("cases") == 0 and not a.only:
        print("CHECK-ERROR: nothing was explored")
        return 2
    for key, msg, path in viol[:20000 if a.all else 5]:
        print("  case: %s\n  %s" % (key[:400], msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if viol else 0

if __name__ == "__main__":
    sys.exit(main())
