#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   explore seeds; exit 1 with a VIOLATION line if a run violates the property
check.py replay <file>                  run a replay file again and compare with what it recorded"""
import hashlib, json, os, re, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vsim
from vsim import V, cls

BUDGET = {"quick": (35, 12), "thorough": (540, 120)}  # seconds of exploration, seconds of minimisation
MIN_RUNS = 400

REAL = ["the bitcoin-indexer binary built from /repo (main and every module below it)", "tokio runtimes, timers and I/O driver",
        "hyper client and server", "serde_json, byteorder, sha2 and the other dependencies", "Rust std (threads, mutexes, channels, collections, fs and net wrappers)"]
STUB = ["kernel: threads/futex/clock/timers/epoll/eventfd/sockets/files (simulated at the libc boundary)",
        "bitcoind (block tree, mempool, JSON-RPC server, block files)", "API clients", "disk (volatile and durable state)", "DNS", "random number source"]


def known(prop):
    """Open entries of known_findings.txt: 'open: property=<id> class=<class> match=<regex> :: <description>'"""
    out = []
    try:
        for l in open(V + "/known_findings.txt"):
            m = re.match(r"open: property=(\S+) class=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return out


def is_known(r, kn):
    v = r["violations"][0]
    return any(c == v["class"] and x.search(v["detail"]) for c, x, _ in kn)


def write_replay(path, prop, scn, r, first, how):
    v = r["violations"][0]
    d = {"format": 1, "property": prop, "class": v["class"], "detail": v["detail"], "t_us": v["t_us"], "log": r["log"],
         "seed": first["job"].get("seed"), "deep": first["job"].get("deep", 0), "minimisation": how,
         "replay_cmd": "python3 /verif/tools/check.py replay " + path, "scn": scn, "trace": r.get("trace", [])[-80:],
         "stderr": r.get("stderr", "")[-1500:]}
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


def replay(path):
    d = json.load(open(path))
    vsim.build()
    w = vsim.Worker(vsim.cpus()[0])
    r = w.run({"id": 0, "scn": d["scn"], "trace": True})
    w.stop()
    for t in r.get("trace", [])[-80:]:
        print(t)
    if cls(r) is None:
        print("the run of this replay file violates nothing on the current tree")
        return 0
    v = r["violations"][0]
    print("%s: %s (at %.6f s simulated)" % (v["class"], v["detail"], v["t_us"] / 1e6))
    print("execution identical to the recorded one: %s (log %s, recorded %s)" % (r["log"] == d["log"], r["log"], d["log"]))
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def check(prop, tier):
    t0 = time.time()
    vseed = int(os.environ.get("VERIF_SEED", "1"))
    budget, min_budget = BUDGET[tier]
    budget = float(os.environ.get("VSIM_BUDGET", budget))
    vsim.build()
    t_build = time.time() - t0
    pool = vsim.Pool()
    base = vseed * 10_000_000
    kn = known(prop)

    def jobs():
        i = 0
        while i < MIN_RUNS or time.time() < end:
            j = {"id": i, "prop": prop, "seed": base + i}
            if tier == "thorough" and i % 2:
                j["deep"] = 1 + (i % 4 == 3)
            yield j
            i += 1

    tot = {"runs": 0, "sim_ms": 0, "switches": 0, "answers": 0, "pairs": 0, "rpcs": 0, "incs": 0, "states_seen_by_oracle": 0, "tips": 0}
    stats, scheds, harness, bad, logs, samples, nontrivial = {}, set(), [], [], {}, [], 0
    lat = 0
    t1 = time.time()
    end = t1 + budget
    found = None
    for r in pool.map(jobs(), stop=lambda r: cls(r) is not None and not is_known(r, kn), until=t1 + 5 * budget):
        tot["runs"] += 1
        if "log" in r:
            tot["sim_ms"] += r["sim_ms"]
            for k in ("switches", "answers", "pairs", "rpcs", "incs", "tips"):
                tot[k] += r[k]
            tot["states_seen_by_oracle"] += r["oracle_states"]
            lat = max(lat, r["max_latency_us"])
            new = r["log"] not in scheds
            scheds.add(r["log"])
            if new and (r["rpcs"] > 0 or r["incs"] > 1 or r["answers"] > 0):
                nontrivial += 1
            for k, v in r["stats"].items():
                stats[k] = max(stats.get(k, 0), v) if k.startswith("max.") else stats.get(k, 0) + v
            if len(logs) < 400 and "violations" not in r:
                logs[r["id"]] = r
        if "harness" in r:
            harness.append(r)
        if cls(r) is not None and not is_known(r, kn):
            if found is None or r["id"] < found["id"]:
                found = r
    explore_s = time.time() - t1

    # the same seed must give the same execution, on any worker
    det = {"reruns": 0, "identical": 0}
    if found is None:
        pick = [logs[k] for k in sorted(logs)][:: max(1, len(logs) // 24)][:24]
        ref = {r["id"]: r["log"] for r in pick}
        for r in pool.map([dict(r["job"]) for r in reversed(pick)]):
            det["reruns"] += 1
            det["identical"] += r.get("log") == ref[r["id"]]
        if pick:
            for r in pick[:2]:
                k = pool.ws[0].run(dict(r["job"], keep=True))
                if "scn" in k:
                    s = k["scn"]
                    samples.append({"seed": r["job"]["seed"], "deep": r["job"].get("deep", 0), "simulated_ms": k["sim_ms"], "log": k["log"],
                                    "operations": ["%.3fs %s%s" % (o.get("t", 0) / 1e6, o["k"], " at " + o["trig"]["point"] if "trig" in o else "") for o in s["ops"]][:40],
                                    "finale": s.get("finale"), "preemptions": len(s["sched"].get("preempts", [])), "cfg": s["cfg"]})
    path = None
    if found is not None:
        again = pool.ws[-1].run(dict(found["job"]))
        reproduced = again.get("log") == found["log"]
        scn, how = vsim.minimise(pool, found, min_budget)
        how["first_run_reproduced"] = reproduced
        final = pool.ws[0].run({"id": 0, "scn": scn, "trace": True})
        check2 = pool.ws[-1].run({"id": 0, "scn": scn})
        if cls(final) is None:
            scn, final = found["scn"], found
        how["replay_reproduces_exactly"] = final["log"] == check2.get("log")
        path = "%s/replays/%s-%d.json" % (V, prop, found["job"]["seed"])
        write_replay(path, prop, scn, final, found, how)

    # coverage of the code, over all workers
    cov, appcov, st = 0, 0, 0
    for w in pool.ws:
        c = w.coverage()
        if c and "cov" in c:
            cov |= int(c["cov"] or "0", 16)
            appcov |= int(c["appcov"] or "0", 16)
            st |= int(c["states"] or "0", 16)
    edges = max(w.edges for w in pool.ws)
    app_edges = max(w.app_edges for w in pool.ws)
    restarts = sum(max(0, w.restarts) for w in pool.ws)
    pool.close()

    faults = {k: v for k, v in sorted(stats.items()) if k.startswith(("fault.", "disk.", "net.", "vfs.")) or k in ("stall", "preempt")}
    if not samples and found is not None:
        samples = [{"seed": found["job"]["seed"], "violation": found["violations"][0]}]
    ev = {
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": nontrivial,
            "rule": "one evaluation = one simulated run of the whole system, generated from one seed by the scenario family of this property "
                    "(tools/check.py, sim/src/scen.rs); non-trivial = the application reached the node, the API or a second incarnation; "
                    "distinct = different hash over every scheduling decision, system call and event of the run",
            "samples": samples or [{"note": "no run finished"}],
            "runs_per_hour": round(tot["runs"] / max(explore_s, .001) * 3600), "seeds_per_hour": round(tot["runs"] / max(explore_s, .001) * 3600),
            "simulated_hours": round(tot["sim_ms"] / 3.6e6, 3), "simulated_seconds_per_second": round(tot["sim_ms"] / 1000 / max(explore_s, .001), 1),
            "faults_injected": faults, "operations": {k: v for k, v in sorted(stats.items()) if k not in faults},
            "process_incarnations": tot["incs"], "thread_switches": tot["switches"], "rpc_requests": tot["rpcs"], "best_chain_states": tot["tips"],
            "answers_checked": tot["answers"], "address_answers_checked": tot["pairs"], "max_answer_latency_us": lat,
            "distinct_executions": len(scheds),
            "distinct_scheduler_states": bin(st).count("1"),
            "scheduler_state_measure": "at every thread switch: last application edge executed, state of the thread switched away from, number of blocked threads; hashed into a bitmap of 2^20",
            "code_edges_reached": bin(cov).count("1"), "code_edges_total": edges,
            "application_edges_reached": bin(appcov).count("1"), "application_edges_total": app_edges,
            "determinism": det, "harness_errors": len(harness), "worker_restarts": restarts,
            "harness_error_samples": [str(h.get("harness"))[:300] for h in harness[:3]],
            "components_real": REAL, "components_stubbed": STUB, "build_s": round(t_build, 1), "explore_s": round(explore_s, 1),
        },
        "assumptions": ["the simulated kernel, disk and bitcoind behave like the real ones (DESIGN.md lists the known differences)",
                        "threads interleave at system calls, at seeded control-flow edges and at time-slice ends, with sequentially consistent memory"],
        "wall_s": round(time.time() - t0, 1), "violations": 1 if found is not None else 0,
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    tmp = V + "/evidence/%s.json.tmp%d" % (prop, os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, V + "/evidence/%s.json" % prop)

    for _, _, d in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    print("%s %s: %d runs in %.1f s (build %.1f s), %.1f simulated hours, %d answers checked, %d/%d reruns identical, %d harness errors" % (
        prop, tier, tot["runs"], explore_s, t_build, tot["sim_ms"] / 3.6e6, tot["answers"], det["identical"], det["reruns"], len(harness)))
    for h in harness[:3]:
        print("harness: job %s: %s" % (json.dumps(h.get("job")), str(h.get("harness"))[:300]))
    if found is not None:
        v = found["violations"][0]
        print("seed %d: %s: %s" % (found["job"]["seed"], v["class"], v["detail"][:600]))
        print("minimised: %s" % json.dumps(how))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if tot["runs"] and len(harness) == tot["runs"]:
        print("the simulator could not run this tree")
        return 2
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(sys.argv[1], tier if tier in BUDGET else "quick")


sys.exit(main())
