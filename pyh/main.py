"""P01: check, or replay of a file.  Started by tools/p01.sh, with the clock preloaded."""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import queue
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import gen  # noqa: E402

CLASSES_MIN = 20
RULE = "a call other than connect() was made on a live connection, or a message arrived"


def ready():
    import p01
    if p01.async_client is None:
        p01.load(os.environ["P01_PKG"], os.path.join(ROOT, "harness", "certs"))
    return p01


class Hang(BaseException):
    pass


def alarm(*_):
    raise Hang()


def one(case, limit=8):
    import judge
    p01 = ready()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        w = p01.run(case)
        return judge.judge(w), w
    except Hang:
        if limit < 30:  # a busy machine?
            signal.setitimer(signal.ITIMER_REAL, 0)
            return one(case, 30)
        return [("stuck", "the client computes for 30 s: " + "".join(traceback.format_exc()[-700:]))], None
    except Exception:
        return [("harness", traceback.format_exc())], None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def part(seeds):
    """One worker's share."""
    out = {"n": 0, "hashes": set(), "classes": {}, "fails": [], "samples": []}
    for s in seeds:
        c = gen.case(s)
        bad, w = one(c)
        out["n"] += 1
        if w is not None and gen.nontrivial(w):
            out["hashes"].add(hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16])
            if len(out["samples"]) < 1:
                out["samples"].append(json.dumps(c)[:1500])
        for k in (w.classes if w else ()):
            out["classes"][k] = out["classes"].get(k, 0) + 1
        if bad:
            out["fails"].append((s, sorted({k for k, _ in bad}), bad[:3]))
            if len(out["fails"]) >= 40:
                break
    return out


def shrunk(seed, kind):
    c = gen.shrink(gen.case(seed), lambda d: any(k == kind for k, _ in one(d)[0]))
    return {"case": c, "why": [t for k, t in one(c)[0] if k == kind]}


def serve():
    """A worker: one JSON job per line.  Single-threaded: the clock it runs on stands still."""
    for line in sys.stdin:
        j = json.loads(line)
        if j["do"] == "part":
            r = part(j["seeds"])
            r["hashes"] = sorted(r["hashes"])
        elif j["do"] == "shrink":
            r = shrunk(j["seed"], j["kind"])
        else:
            r = {"bad": one(j["case"])[0]}
        print(json.dumps(r), flush=True)


class Pool:
    """Workers with the virtual clock; this process keeps the real one."""

    def __init__(self):
        self.ws = [self.new() for _ in range(min(8, os.cpu_count() or 8))]
        self.ex = cf.ThreadPoolExecutor(len(self.ws))
        self.free = queue.Queue()
        for p in self.ws:
            self.free.put(p)

    def new(self):
        return subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                env=dict(os.environ, LD_PRELOAD=os.environ["P01_CLOCK"]), text=True)

    def ask(self, job):
        p = self.free.get()
        try:
            p.stdin.write(json.dumps(job) + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
            if line:
                return json.loads(line)
            p.wait()
            self.ws.remove(p)
            p = self.new()
            self.ws.append(p)
            return None
        finally:
            self.free.put(p)

    def do(self, job):
        """Asks a worker; when one dies of it, finds out which case that was."""
        r = self.ask(job)
        if r is not None:
            return r
        dead = [("crash", "the process dies")]
        if job["do"] == "one":
            return {"bad": dead}
        if job["do"] == "shrink":
            return {"case": gen.case(job["seed"]), "why": ["the process dies"]}
        for s in job["seeds"]:
            if self.ask({"do": "part", "seeds": [s]}) is None:
                return {"n": 1, "hashes": [], "classes": {}, "samples": [], "fails": [(s, ["crash"], dead)]}
        raise RuntimeError("a worker died")

    def submit(self, job):
        return self.ex.submit(self.do, job)

    def stop(self):
        self.ex.shutdown(cancel_futures=True)
        for p in self.ws:
            p.stdin.close()
            p.wait()


def replay_file(path):
    return json.load(open(path))["case"]


def known():
    """known: property=P01 sub=client sig=<kind>:<sha of the case>"""
    r = {}
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        if line.startswith("known: property=P01 "):
            r[line.split("sig=")[1].split(" ::")[0].strip()] = line.split("::", 1)[1].strip()
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--worker", action="store_true")
    a = ap.parse_args()
    if a.worker:
        serve()
        return 0
    if a.replay or a.case is not None:
        c = replay_file(a.replay) if a.replay else gen.case(a.case)
        bad, w = one(c)
        if os.environ.get("VH_TRACE") and w:
            for s in w.conns:
                print("connection", s.n, "up", s.up_at, "end", s.end_at, "lost", s.lost_at, "closed", s.closed_at)
                for t, p in s.recv:
                    print("   %9.3f %s" % (t, str(p)[:160]))
            for r in w.ops:
                print("call", {k: (str(v)[:80]) for k, v in r.items() if k not in ("kind",)})
            print("classes", sorted(w.classes))
        for k, t in bad:
            print(k, "::", t)
        if bad:
            print(f"VIOLATION property=P01 replay={a.replay}")
        return 1 if bad else 0

    t0 = time.time()
    n = int((int(os.environ.get("P01_N", "0")) or (24000 if a.tier == "quick" else 400000)) * float(os.environ.get("VH_SCALE", "1")))
    seeds = [f"{a.seed}/{i}" for i in range(n)]
    step = 100
    parts = [seeds[i:i + step] for i in range(0, n, step)]
    total = {"n": 0, "hashes": set(), "classes": {}, "fails": [], "samples": []}
    replayed, out_lines, violations = 0, [], 0
    reg = os.path.join(ROOT, "regress", "P01")
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    pool = Pool()
    try:
        for f in sorted(os.listdir(reg)) if os.path.isdir(reg) else []:
            bad = pool.do({"do": "one", "case": replay_file(os.path.join(reg, f))})["bad"]
            replayed += 1
            if bad:
                violations += 1
                print(f"regression {f}: {bad[0]}")
                print(f"VIOLATION property=P01 replay={os.path.join(reg, f)}", flush=True)
        futs = [pool.submit({"do": "part", "seeds": p}) for p in parts]
        for f in futs:  # in order: the same result whatever the timing
            if f.cancelled():
                continue
            r = f.result()
            total["n"] += r["n"]
            total["hashes"] |= set(r["hashes"])
            total["fails"] += r["fails"]
            if len(total["samples"]) < 5:
                total["samples"] += r["samples"]
            for k, v in r["classes"].items():
                total["classes"][k] = total["classes"].get(k, 0) + v
            if len(total["fails"]) > 60 or total["fails"] and time.time() - t0 > 300:
                for g in futs:
                    g.cancel()
        seen = {}
        for s, kinds, bad in total["fails"]:
            for k in kinds:
                seen.setdefault(k, s)
        jobs = list(seen.items())[:8]
        kn = known()
        hits = {}
        small = [pool.submit({"do": "shrink", "seed": s, "kind": k}) for k, s in jobs]
        for (kind, s), f in zip(jobs, small):
            c, why = f.result()["case"], f.result()["why"]
            h = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:8]
            sig = f"{kind}:{h}"
            if sig in kn:
                hits[sig] = True
                continue
            path = os.path.join(ROOT, "replays", f"P01-{kind}-{h}.json")
            json.dump({"property": "P01", "sub": "client", "kind": kind, "why": why, "case": c}, open(path, "w"), indent=1)
            violations += 1
            print(f"{kind}: {why[:1]}")
            print(f"VIOLATION property=P01 replay={path}", flush=True)
        if total["fails"] and not jobs:
            violations += 1
    finally:
        pool.stop()
    ev = {
        "property": "P01", "level": "exploration", "tier": a.tier, "seed": a.seed, "violations": violations,
        "wall_s": time.time() - t0,
        "assumptions": ["Time is virtual and the network is in memory: the asyncio loop is the real one, its clock and its transports are not.",
                        "The QUIC engine is replaced by one that puts MQTT into plain datagrams; TCP and TLS run the real engines.",
                        "CPython 3.12."],
        "coverage": {
            "evaluations": total["n"], "distinct_nontrivial": len(total["hashes"]), "replayed_regressions": replayed,
            "rule": RULE, "samples": ["client: " + s for s in total["samples"][:5]],
            "sub_checks": {"client": {"evaluations": total["n"], "distinct_nontrivial": len(total["hashes"]),
                                      "classes": dict(sorted(total["classes"].items())), "failing_cases": len(total["fails"]),
                                      "wall_s": time.time() - t0}},
        },
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", "P01.json"), "w"), indent=1, ensure_ascii=False)
    print(f"P01 {a.tier} seed {a.seed}: {total['n']} cases, {len(total['hashes'])} distinct non-trivial, {len(total['fails'])} failing, "
          f"{replayed} regressions, {time.time() - t0:.1f} s")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
