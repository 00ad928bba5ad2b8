#!/usr/bin/env python3
"""check.py PROPERTY            decide one property by seeded simulation
   check.py --replay FILE       re-execute one recorded scenario
Environment: VERIF_SEED, VERIF_TIER (quick | thorough)."""
import sys, os, json, time, random, subprocess, hashlib, multiprocessing, signal

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "dst"))
sys.dont_write_bytecode = True
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def build():
    out = os.environ.get("SIM_BUILD") or os.path.join(ROOT, "build")
    os.environ["SIM_BUILD"] = out
    p = subprocess.run(["bash", os.path.join(ROOT, "sim", "build.sh"), out, os.environ.get("SIM_REPO", "/repo")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write(p.stdout.decode("latin-1")[-3000:] + "\nerror: the simulator could not be built from /repo\n")
        sys.exit(3)


def rng(prop, i):
    return random.Random(int.from_bytes(hashlib.sha256(("%d/%s/%d" % (SEED, prop, i)).encode()).digest()[:8], "big"))


_ctx = None


def work(a):
    """one seed index: all its scenarios, in order"""
    global _ctx
    import props, engine
    pid, i, deadline = a
    if time.time() > deadline:
        return None
    if _ctx is None:
        _ctx = props.Ctx()
    c, p = _ctx, props.PROPS[pid]
    c.reset()
    out = {"i": i, "n_sc": 0, "held": 0, "skip": 0, "distinct": [], "viol": [], "samples": [], "kinds": {}}
    try:
        for sc in p.case(c, rng(pid, i), i):
            v, info = p.judge(c, sc)
            out["n_sc"] += 1
            k = sc.get("kind", "-")
            out["kinds"][k] = out["kinds"].get(k, 0) + 1
            if v == "skip":
                out["skip"] += 1
                continue
            if not info.get("trivial"):
                out["distinct"].append(hashlib.sha1(engine.canon(sc).encode("latin-1", "replace")).hexdigest()[:12])
            if v is None:
                out["held"] += 1
                if i < 3 and not out["samples"]:
                    x = info["x"]
                    out["samples"].append({"seed_index": i, "scenario": brief(sc), "outcome": x.status(), "events": x.events, "steps": x.steps})
            else:
                out["viol"].append((v, sc))
                if len(out["viol"]) >= 3:
                    break
    except engine.Crash as e:
        out["crash"] = str(e)
        c.close()
        _ctx = None
    out.update(n=c.n, cov=c.cov, states=list(c.states), scheds=list(c.scheds), sites=len(c.sites) and list(map(str, c.sites)), simus=c.simus,
               events=c.events, steps=c.steps, runs=c.runs)
    return out


def brief(o):
    if isinstance(o, dict):
        return dict((k, brief(v)) for k, v in o.items())
    if isinstance(o, list):
        return [brief(v) for v in (o if len(o) <= 24 else o[:24] + ["... %d more" % (len(o) - 24)])]
    if isinstance(o, str) and len(o) > 240:
        return o[:240] + "... (%d bytes)" % len(o)
    return o


# ----------------------------------------------------------- minimisation
def judge_fresh(sc):
    import props
    c = props.Ctx()
    try:
        v, info = props.PROPS[sc["prop"]].judge(c, sc)
        d = info["x"].digest() if info.get("x") is not None else ""
        return v, d
    finally:
        c.close()


def candidates(sc):
    """simpler scenarios, most drastic first"""
    def at(path, v):
        n = json.loads(json.dumps(sc))
        o = n
        for k in path[:-1]:
            o = o[k]
        if v is None:
            del o[path[-1]]
        else:
            o[path[-1]] = v
        return n
    for part in ("delta", "spec"):
        d = sc.get(part)
        if not isinstance(d, dict):
            continue
        for k in ("alloc", "chunk", "stackfill", "clock", "env", "pid", "buf", "jumps", "faults", "switches"):
            if k in d and not (sc["prop"] == "C10" and k in ("jumps", "clock")):
                yield at([part, k], None)
        for k in ("switches", "faults", "jumps"):
            L = d.get(k) or []
            if sc["prop"] == "C10" and k == "jumps":
                continue
            m = len(L) // 2
            while m >= 1:
                for a in range(0, len(L), m):
                    if m < len(L):
                        yield at([part, k], L[:a] + L[a + m:])
                m //= 2
                if len(L) > 200 and m < len(L) // 32:
                    break
        a = d.get("argv")
        if a and part == "spec":
            k = 1
            while k < len(a):
                if a[k].startswith("-") and a[k] != "-o":
                    w = 2 if k + 1 < len(a) and a[k + 1].lstrip("-").isdigit() else 1
                    yield at([part, "argv"], a[:k] + a[k + w:])
                k += 1
        for f, t in (d.get("files") or {}).items():
            L = t.split("\n")
            if len(L) > 400:
                continue
            m = max(1, len(L) // 2)
            while m >= 1:
                for x in range(0, len(L), m):
                    if m < len(L) or m == 1:
                        yield at([part, "files", f], "\n".join(L[:x] + L[x + m:]))
                m //= 2


def minimise(sc, v, seconds=25):
    t0 = time.time()
    changed = True
    tried = 0
    import props
    c = props.Ctx()
    while changed and time.time() - t0 < seconds:
        changed = False
        for n in candidates(sc):
            if time.time() - t0 > seconds:
                break
            tried += 1
            try:
                w, _ = props.PROPS[n["prop"]].judge(c, n)
            except Exception:
                c.close()
                c = props.Ctx()
                continue
            if w not in (None, "skip") and w[0] == v[0] and w[1] == v[1]:
                sc, v, changed = n, w, True
                break
    c.close()
    return sc, v, tried


def known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def replay(path, quiet=False):
    sc = json.load(open(path))
    v, d = judge_fresh(sc["scenario"])
    if v in (None, "skip"):
        print("replay: no violation (%s)" % (v or "held"))
        return 0
    print("replay: %s [%s] %s" % (v[0], v[1], v[2]))
    print("replay: execution digest %s%s" % (d, "" if d == sc.get("digest") else " (recorded %s)" % sc.get("digest")))
    print("VIOLATION property=%s replay=%s" % (sc["scenario"]["prop"], path))
    return 1


def main():
    if sys.argv[1:2] == ["--replay"]:
        if not os.environ.get("SIM_NOBUILD"):
            build()
        sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    t0 = time.time()
    print("check %s: seed %d, tier %s" % (pid, SEED, TIER))
    build()
    import props, engine
    P = props.PROPS[pid]
    N = int(os.environ.get("VERIF_N", getattr(P, TIER)))
    deadline = t0 + float(os.environ.get("VERIF_CAP", P.cap[TIER]))
    agg = {"n": {}, "kinds": {}, "states": set(), "scheds": set(), "sites": set(), "distinct": set(), "cov": 0, "samples": []}
    tot = dict.fromkeys(("n_sc", "held", "skip", "simus", "events", "steps", "runs"), 0)
    done = 0
    confirmed, unstable, crashes = None, [], []
    KN = [k for k in known() if k["property"] == pid and k.get("status") == "known"]
    hits = {}
    for k in KN:      # listed findings are re-executed first
        v, d = judge_fresh(k["scenario"])
        if v not in (None, "skip") and v[0] == k["class"] and v[1] == k["key"]:
            hits[(k["class"], k["key"])] = 0
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    pool = multiprocessing.Pool(JOBS)
    seen = set()
    try:
        for o in pool.imap_unordered(work, ((pid, i, deadline) for i in range(N)), 4 if N > 200 else 1):
            if o is None:
                continue
            done += 1
            for k, v in o["n"].items():
                agg["n"][k] = agg["n"].get(k, 0) + v
            for k, v in o["kinds"].items():
                agg["kinds"][k] = agg["kinds"].get(k, 0) + v
            agg["states"].update(o["states"]); agg["scheds"].update(o["scheds"]); agg["distinct"].update(o["distinct"])
            if o["sites"]:
                agg["sites"].update(o["sites"])
            agg["cov"] |= o["cov"]
            agg["samples"] += o["samples"]
            for k in tot:
                tot[k] += o[k]
            if "crash" in o:
                crashes.append((o["i"], o["crash"]))
            for v, sc in o["viol"]:
                if (v[0], v[1]) in hits:
                    hits[(v[0], v[1])] += 1
                    continue
                if (v[0], v[1]) in seen:
                    continue
                seen.add((v[0], v[1]))
                if os.environ.get("VERIF_SURVEY"):
                    print("survey: index %d %s [%s] %s" % (o["i"], v[0], v[1], v[2][:400]))
                    continue
                # gate: same scenario twice in fresh simulators, same execution
                a, b = judge_fresh(sc), judge_fresh(sc)
                if a[0] in (None, "skip") or b[0] in (None, "skip") or a != b:
                    unstable.append((o["i"], v))
                    continue
                sc2, v2, tried = minimise(sc, a[0])
                _, dg = judge_fresh(sc2)
                d = os.path.join(ROOT, "replays")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-seed%d-%d.json" % (pid, SEED, o["i"]))
                with open(path, "w") as f:
                    json.dump({"property": pid, "seed": SEED, "seed_index": o["i"], "class": v2[0], "key": v2[1], "message": v2[2],
                               "digest": dg, "minimisation_runs": tried, "scenario": sc2}, f, indent=1)
                q = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], stdout=subprocess.PIPE,
                                   env=dict(os.environ, SIM_NOBUILD="1"))
                if q.returncode != 1:
                    unstable.append((o["i"], v2))
                    continue
                confirmed = (v2, path, o["i"])
                break
            if confirmed:
                break
    finally:
        pool.terminate()
        pool.join()
    wall = time.time() - t0
    fired = dict((k[6:], v) for k, v in sorted(agg["n"].items()) if k.startswith("fired_"))
    other = dict((k, v) for k, v in sorted(agg["n"].items()) if not k.startswith("fired_"))
    cov = {
        "evaluations": tot["n_sc"],
        "distinct_nontrivial": len(agg["distinct"]),
        "rule": RULES[pid],
        "samples": sorted(agg["samples"], key=lambda s: s["seed_index"])[:3],
        "seeds": done, "simulated_runs": tot["runs"],
        "runs_per_hour": int(tot["runs"] / max(wall, 1e-3) * 3600), "seeds_per_hour": int(done / max(wall, 1e-3) * 3600),
        "inconclusive": tot["skip"], "held": tot["held"], "scenario_kinds": agg["kinds"],
        "simulated_clock_seconds": round(tot["simus"] / 1e6, 3), "simulated_events": tot["events"], "simulated_steps": tot["steps"],
        "faults_fired": fired, "run_endings_and_probes": other,
        "distinct_event_histories": len(agg["states"]), "distinct_thread_interleavings": len(agg["scheds"]),
        "distinct_states_measure": "48-bit hash of the ordered sequence of seam events (allocation, release, read, write, open, close, clock) with their arguments; interleavings: hash of (step, thread) switches actually taken",
        "cloog_edges_covered": bin(agg["cov"]).count("1"),
        "allocation_sites": len(agg["sites"]),
        "components": {"real": ["all of /repo/source (library and command line)", "libisl 0.26", "libgmp", "glibc stdio formatting and buffering"],
                       "simulated": ["heap", "files and standard streams below stdio", "clocks", "process exit and crash", "thread scheduling", "environment and process id"]},
        "exhaustive": False,
    }
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": P.level, "coverage": cov, "wall_s": round(wall, 2),
          "violations": 1 if confirmed else 0,
          "assumptions": ["a clean batch is evidence, not proof: the seeded search samples schedules and faults",
                          "libisl and libgmp are uninstrumented; their invalid accesses show only through poisoned contents and allocator checks"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d scenarios (%d held, %d inconclusive) from %d seeds, %d runs in %.1f s, %d edges" % (pid, tot["n_sc"], tot["held"], tot["skip"], done, tot["runs"], wall, cov["cloog_edges_covered"]))
    if confirmed:
        v, path, i = confirmed
        print("%s at seed index %d: %s [%s] %s" % (pid, i, v[0], v[1], v[2]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if crashes:
        print("simulator failures: %s" % crashes[:3])
    if unstable:
        print("error: %d unreproducible observations, first: %s" % (len(unstable), unstable[0]))
        sys.exit(2)
    if crashes and len(crashes) > max(2, done // 50) or tot["held"] == 0:
        print("error: the simulator gave no usable answer")
        sys.exit(2)
    sys.exit(0)


RULES = {
    "C01": "seed -> input, options, output target, buffer size, then 4-6 fault plans (write error at a byte offset, close or open error; persistent or transient); non-trivial when the fault fired",
    "C02": "seed -> input, options, source, buffer size, then 7 plans (read error at a byte offset, open error, short reads); non-trivial when a fault fired or reads were split",
    "C03": "seed -> input and options, then 9 damages (truncation, flipped bytes, lost/duplicated/torn pieces, numbers replaced, long lines); every damaged document counts once",
    "C04": "seed -> input and options; one failure per allocation site of CLooG (four-frame call chain), plus failures inside isl/gmp and live-byte limits; non-trivial when an allocation failed",
    "C05": "seed -> workload, then 4 hostile environments (heap order/contents/reuse, stack contents, auto-variable initialisation build, buffering, read splitting, clocks, pid, environment, failing error stream)",
    "C06": "seed -> 2-4 library sessions, then 2 histories (sequential permutation, interleaved calls, shared state, shared options) in one process",
    "C07": "seed -> 2-4 sessions on own states in threads, then 3 schedules (few, many, dense burst of preemptions at control-flow edges); non-trivial when at least two switches happened",
    "C08": "seed -> command-line run or library session (also abandoned half way) on a hostile heap; all blocks, frees, accesses and counters audited",
    "C09": "seed -> input and options, dump (with write faults), reload in a fresh process, one or two rounds",
    "C10": "seed -> input and options, then 3 clock plans: user-time jumps inside and outside generation, wall and system clock jumps; or wall-clock readings",
    "C11": "seed -> input, options, prior output file, then 6 plans (crash at an event, persistent I/O error, exhausted memory) followed by a restart on the surviving files",
    "C12": "seed -> input (a quarter damaged), options, command line or library session, 30 % with another I/O error; then 4 plans of write errors on the standard error",
}

if __name__ == "__main__":
    main()
