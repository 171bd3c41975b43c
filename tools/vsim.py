"""Driving the simulator: building it, worker processes, replaying and minimising a failing run."""
import fcntl, json, os, queue, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("VSIM_OUT", V + "/build")
SO = B + "/sim/release/libsim.so"
APP = B + "/app/x86_64-unknown-linux-gnu/release/bitcoin-indexer"


def build():
    os.makedirs(B, exist_ok=True)
    with open(B + "/lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        p = subprocess.run(["bash", V + "/tools/build.sh"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stdout.write(p.stdout[-4000:])
            print("build failed")
            sys.exit(2)


def cpus():
    return sorted(os.sched_getaffinity(0))


class Worker:
    """One simulator process; jobs are done one after another."""

    def __init__(self, cpu):
        self.cpu = cpu
        self.p = None
        self.restarts = -1
        self.edges = self.app_edges = 0

    def start(self):
        self.restarts += 1
        self.p = subprocess.Popen([APP], env={"VSIM_JOBS": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "LD_PRELOAD": SO}, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=B, start_new_session=True,
                                  preexec_fn=lambda: os.sched_setaffinity(0, {self.cpu}))
        self.buf = b""
        r = self._read(30)
        if r:
            self.edges, self.app_edges = r.get("ready", 0), r.get("app_edges", 0)

    def _read(self, timeout):
        import select
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                return None
            b = os.read(fd, 1 << 20)
            if not b:
                return None
            self.buf += b
        l, _, self.buf = self.buf.partition(b"\n")
        try:
            return json.loads(l)
        except ValueError:
            return {"harness": "unreadable report"}

    def run(self, job, wall=60):
        if self.p is None:
            self.start()
        job = dict(job, wall=wall)
        try:
            self.p.stdin.write((json.dumps(job) + "\n").encode())
            self.p.stdin.flush()
            r = self._read(wall + 15)
        except OSError:
            r = None
        if r is None:
            self.stop()
            return {"id": job.get("id"), "harness": "the worker gave no report"}
        return r

    def coverage(self):
        if self.p is None:
            return None
        try:
            self.p.stdin.write(b'{"cov":true}\n')
            self.p.stdin.flush()
            return self._read(30)
        except OSError:
            return None

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p = None


class Pool:
    def __init__(self):
        self.ws = [Worker(c) for c in cpus()]

    def map(self, jobs, stop=lambda r: False, until=None):
        """Run an iterator of jobs on all workers; results in completion order. Stops early when stop(result) is true."""
        it = iter(jobs)
        lock = threading.Lock()
        out = queue.Queue()
        halt = threading.Event()

        def loop(w, i):
            while not halt.is_set() and (until is None or time.time() < until):
                with lock:
                    j = next(it, None)
                if j is None:
                    break
                r = w.run(j)
                r["worker"] = i
                r["job"] = j
                out.put(r)
            out.put(None)

        ts = [threading.Thread(target=loop, args=(w, i), daemon=True) for i, w in enumerate(self.ws)]
        for t in ts:
            t.start()
        n = len(ts)
        while n:
            r = out.get()
            if r is None:
                n -= 1
                continue
            yield r
            if stop(r):
                halt.set()

    def close(self):
        for w in self.ws:
            w.stop()


def cls(r):
    v = r.get("violations")
    return v[0]["class"] if v else None


def same(r, c):
    return cls(r) == c


def explicit(scn, taken):
    s = json.loads(json.dumps(scn))
    s.setdefault("sched", {})["explicit"] = list(taken)
    return s


def minimise(pool, res, budget, log=lambda *_: None):
    """Shrink a failing run: drop operations, faults, preemptions, then scheduling decisions, as long as the class of the
    violation stays. Returns the result of the final run (scenario with an explicit decision list)."""
    end = time.time() + budget
    c = cls(res)
    n = [0]

    def attempts(cands):
        """The first candidate (in order) that still fails in the same way, with its result."""
        jobs = [{"id": i, "scn": s} for i, (s, _) in enumerate(cands)]
        best = None
        for r in pool.map(jobs, stop=lambda r: same(r, c), until=end):
            n[0] += 1
            if same(r, c) and (best is None or r["id"] < best[0]):
                best = (r["id"], r)
        return None if best is None else (cands[best[0]][1], best[1])

    cur = json.loads(json.dumps(res["scn"]))
    got = res

    def with_list(path, l):
        s = json.loads(json.dumps(cur))
        o = s
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] = l
        return s

    def ddmin(path, unit=1):
        nonlocal cur, got
        o = cur
        for k in path[:-1]:
            o = o.get(k, {})
        l = list(o.get(path[-1]) or [])
        k = max(1, len(l) // unit)
        while l and time.time() < end:
            step = max(1, k) * unit
            cands = []
            for i in range(0, len(l), step):
                m = l[:i] + l[i + step:]
                cands.append((with_list(path, m), m))
            hit = attempts(cands)
            if hit:
                l, got = hit
                cur = with_list(path, l)
                k = min(k, max(1, len(l) // unit))
            elif k == 1:
                break
            else:
                k //= 2

    def simplify(path, v):
        nonlocal cur, got
        if time.time() > end:
            return
        o = cur
        for k in path[:-1]:
            if k not in o:
                return
            o = o[k]
        if o.get(path[-1]) == v or path[-1] not in o:
            return
        hit = attempts([(with_list(path, v), None)])
        if hit:
            got = hit[1]
            cur = with_list(path, v)

    before = (len(cur.get("ops", [])), len(cur.get("finale", [])), len(cur["sched"].get("preempts", [])), len(res.get("taken", [])) // 2)
    for _ in range(2):
        ddmin(["ops"])
        ddmin(["finale"])
        ddmin(["sched", "preempts"])
    for k in ("switch", "wake", "pick", "spur"):
        simplify(["sched", k], 0)
    for k in ("short_pm", "eintr_pm"):
        simplify([k], 0)
    simplify(["cfg", "threads"], 1)
    simplify(["cfg", "cpus"], 2)
    for l in ("node_link", "client_link"):
        simplify([l, "seg"], 0)
        simplify([l, "gap"], 0)
    for k in ("mempool", "stale", "dup", "orphan", "foreign", "pad", "exotic", "big", "txs", "close_after"):
        simplify(["node", k], 0)
    ddmin(["ops"])
    # from here on the decisions of the scheduler are a list
    if "explicit" not in cur["sched"]:
        s = explicit(cur, got.get("taken", []))
        r = pool.ws[0].run({"id": 0, "scn": s})
        if same(r, c):
            cur, got = s, r
            ddmin(["sched", "explicit"], unit=2)
    after = (len(cur.get("ops", [])), len(cur.get("finale", [])), len(cur["sched"].get("preempts", [])), len(cur["sched"].get("explicit", got.get("taken", []))) // 2)
    return cur, {"candidate_runs": n[0], "ops_finale_preemptions_decisions": [list(before), list(after)]}
