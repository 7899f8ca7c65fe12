"""Runs a check: seeded search over simulated runs, confirmation, minimisation,
replay files and evidence."""
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_t = time.time  # the real clock, before the seams replace time.time
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
RUN_TIMEOUT = 120


class Ctl:
    """What a scenario gets to run one simulated execution."""

    def __init__(self, seed, replay=None, entropy=None, keep_events=False):
        from . import core

        self.core = core
        self.seed = seed
        self.choices = core.Choices(str(seed) + "/choices", replay=replay)
        self.entropy = entropy if entropy is not None else str(seed) + "/entropy"
        self.keep_events = keep_events
        self.worlds = []

    def world(self, **kw):
        from . import harness

        w = harness.World(
            self.choices, "%s/%d" % (self.entropy, len(self.worlds)),
            keep_events=self.keep_events, **kw
        )
        self.worlds.append(w)
        return w


def viol(key, msg, soft=False):
    return {"key": key, "msg": str(msg)[:2000], "soft": bool(soft)}


def execute(mod, spec, seed, replay=None, entropy=None, keep_events=False):
    """Run one spec in this process (call in a forked child only)."""
    ctl = Ctl(seed, replay, entropy, keep_events)
    out = mod.run(spec, ctl)
    h = hashlib.blake2b(digest_size=12)
    steps = clock = switches = msgs = 0
    faults = {}
    events = []
    pols = []
    for w in ctl.worlds:
        s = w.sim
        h.update(s.hash.digest())
        steps += s.steps
        clock += s.clock if s.end_clock is None else s.end_clock
        switches += s.switches
        msgs += w.net.nmsgs
        for k, v in s.faults.items():
            faults[k] = faults.get(k, 0) + v
        events += s.events
        pols.append(s.policy + "/" + w.net.profile)
    out.setdefault("viol", [])
    out.setdefault("stats", {})
    h.update(json.dumps(out["viol"], sort_keys=True).encode())
    h.update(json.dumps(out.get("obs", ""), sort_keys=True, default=str).encode())
    out.pop("obs", None)
    out.update(
        steps=steps, clock=clock, switches=switches, msgs=msgs, faults=faults,
        hash=h.hexdigest(), policies=pols,
        trace=hashlib.blake2b(json.dumps(ctl.choices.log).encode(), digest_size=8).hexdigest(),
    )
    if replay is not None or keep_events or out["viol"]:
        out["choices"] = ctl.choices.log
    if keep_events:
        out["events"] = events
    return out


def in_child(fn, timeout=RUN_TIMEOUT):
    """Fork, run fn in the child, return its result (or a timeout/error dict)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                res = fn()
            except BaseException:  # noqa: B902
                res = {"harness_error": traceback.format_exc()}
            data = pickle.dumps(res)
            view = memoryview(data)
            while view:
                k = os.write(w, view[:65536])
                view = view[k:]
        except BaseException:  # noqa: B902
            code = 1
        os._exit(code)
    os.close(w)
    buf = bytearray()
    end = _t() + timeout
    timed = False
    while True:
        left = end - _t()
        if left <= 0:
            timed = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    if timed:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if timed:
        return {"timeout": True}
    try:
        return pickle.loads(bytes(buf))
    except Exception:
        return {"crashed": st}


def normalise(res):
    """Turn a timeout or a dead interpreter into a violation record."""
    if res.get("timeout"):
        return {"viol": [viol("hang", "a party computes for ever without reaching a yield point")],
                "stats": {}, "steps": 0, "clock": 0, "switches": 0, "msgs": 0, "faults": {},
                "hash": "timeout", "policies": [], "trace": "timeout", "choices": []}
    if "crashed" in res:
        return {"viol": [viol("crash", "interpreter died with status %s" % res["crashed"])],
                "stats": {}, "steps": 0, "clock": 0, "switches": 0, "msgs": 0, "faults": {},
                "hash": "crash", "policies": [], "trace": "crash", "choices": []}
    return res


def load_known():
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known":
                    out.append(d)
    return out


def spec_for(mod, vseed, i, tier):
    seed = "%s:%s:%d" % (vseed, mod.PID, i)
    rng = random.Random(seed + "/spec")
    return seed, mod.gen(rng, tier, i)


def run_index(mod, vseed, i, tier):
    seed, spec = spec_for(mod, vseed, i, tier)
    res = normalise(in_child(lambda: execute(mod, spec, seed)))
    if res.get("harness_error"):
        res = normalise(in_child(lambda: execute(mod, spec, seed)))
    res["i"] = i
    if res.get("viol"):
        res["viol"], res["unconfirmed"] = confirm(mod, spec, seed, res)
    return res


def confirm(mod, spec, seed, res):
    """Soft violations (values that probabilistic truncation could explain with
    tiny probability) must recur under independent secret randomness."""
    hard = [v for v in res["viol"] if not v["soft"]]
    soft = [v for v in res["viol"] if v["soft"]]
    if hard or not soft:
        return hard, []
    for k in range(12):
        r = normalise(in_child(
            lambda: execute(mod, spec, seed, replay=res["choices"], entropy="%s/confirm%d" % (seed, k))))
        if r.get("viol"):
            for v in soft:
                v["msg"] += " [confirmed under independent randomness #%d]" % k
            return soft, []
    return [], soft


def worker(mod, vseed, tier, idxs, fd, stop, deadline):
    try:
        for i in idxs:
            if _t() > deadline:
                break
            if struct.unpack("q", stop[:8])[0] < i:
                break
            t0 = _t()
            try:
                res = run_index(mod, vseed, i, tier)
            except BaseException:  # noqa: B902
                res = {"i": i, "harness_error": traceback.format_exc()}
            res["wall"] = _t() - t0
            if not res.get("viol"):
                res.pop("choices", None)
            data = pickle.dumps(res)
            os.write(fd, struct.pack("I", len(data)))
            view = memoryview(data)
            while view:
                k = os.write(fd, view[:65536])
                view = view[k:]
    except BaseException:  # noqa: B902
        traceback.print_exc()
        os._exit(3)
    os._exit(0)


def explore(mod, vseed, tier, count, wall, on_result):
    stop = mmap.mmap(-1, 8)
    stop[:8] = struct.pack("q", 1 << 60)
    deadline = _t() + wall
    fds = {}
    pids = []
    for w in range(min(WORKERS, count)):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            worker(mod, vseed, tier, range(w, count, WORKERS), wr, stop, deadline)
        os.close(wr)
        fds[r] = bytearray()
        pids.append(pid)
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        for r in rl:
            b = os.read(r, 1 << 18)
            if not b:
                os.close(r)
                del fds[r]
                continue
            buf = fds[r]
            buf += b
            while len(buf) >= 4:
                n = struct.unpack("I", bytes(buf[:4]))[0]
                if len(buf) < 4 + n:
                    break
                res = pickle.loads(bytes(buf[4:4 + n]))
                del buf[:4 + n]
                if on_result(res):
                    cur = struct.unpack("q", stop[:8])[0]
                    stop[:8] = struct.pack("q", min(cur, res["i"]))
    for p in pids:
        os.waitpid(p, 0)


# -- minimisation -------------------------------------------------------------
def minimise(mod, spec, seed, res, budget=60):
    """Shrink the workload, then the schedule, keeping the same violation key."""
    keys = {v["key"] for v in res["viol"]}
    end = _t() + budget
    entropy = None
    choices = res["choices"]

    def fails(sp, ch):
        r = normalise(in_child(lambda: execute(mod, sp, seed, replay=ch, entropy=entropy)))
        if r.get("viol") and any(v["key"] in keys for v in r["viol"]):
            return r
        return None

    base = fails(spec, choices)
    if base is None:
        return spec, choices, res, False
    best = base
    improved = True
    while improved and _t() < end and hasattr(mod, "shrink"):
        improved = False
        try:
            cands = list(mod.shrink(spec))
        except Exception:
            break
        for cand in cands:
            if _t() > end:
                break
            if cand is None:
                continue
            r = fails(cand, choices) or fails(cand, [])
            if r:
                spec, choices, best = cand, r["choices"], r
                improved = True
                break
    # schedule: calm prefix/suffix, then ddmin on non-zero decisions
    r = fails(spec, [])
    if r:
        choices, best = r["choices"], r
    else:
        n = 8
        while n >= 1 and _t() < end:
            k = max(1, len(choices) // n)
            j = 0
            changed = False
            while j < len(choices) and _t() < end:
                if any(choices[j:j + k]):
                    cand = choices[:j] + [0] * len(choices[j:j + k]) + choices[j + k:]
                    r = fails(spec, cand)
                    if r:
                        choices, best = cand, r
                        changed = True
                j += k
            if k == 1:
                break
            n *= 2
    while choices and choices[-1] == 0:
        choices.pop()
    final = fails(spec, choices)
    if final:
        best = final
    return spec, choices, best, True


def write_replay(mod, spec, seed, choices, res, orig):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (mod.PID, hashlib.blake2b(
        json.dumps([spec, choices], sort_keys=True, default=str).encode(), digest_size=6).hexdigest()))
    ev = in_child(lambda: execute(mod, spec, seed, replay=choices, keep_events=True))
    with open(path, "w") as f:
        json.dump({
            "property": mod.PID, "seed": seed, "spec": spec, "choices": choices,
            "violations": res["viol"], "hash": res["hash"],
            "nonzero_decisions": sum(1 for c in choices if c),
            "original_decisions": len(orig), "faults": res.get("faults"),
            "trace": (ev.get("events") or [])[:4000],
            "replay_with": "bash /verif/check.sh replay %s" % path,
        }, f, indent=1, default=str)
    return path


def setup(mod):
    from . import harness

    harness.preload(mod.IMAGES)
    if hasattr(mod, "setup"):
        mod.setup()
    gc.collect()
    gc.freeze()


def main(pid, tier):
    t0 = _t()
    mod = importlib.import_module("sim.checks." + pid)
    vseed = os.environ.get("VERIF_SEED", "1")
    setup(mod)
    t_setup = _t() - t0
    count = mod.COUNT[tier]
    wall = float(os.environ.get("VERIF_WALL", {"quick": 420, "thorough": 3600}[tier]))
    if os.environ.get("VERIF_COUNT"):
        count = int(os.environ["VERIF_COUNT"])
    st = {
        "runs": 0, "steps": 0, "switches": 0, "clock": 0.0, "msgs": 0, "faults": {},
        "hashes": set(), "traces": set(), "policies": {}, "stats": {}, "unconfirmed": [],
        "harness": [], "samples": [], "evals": 0, "maxwall": 0.0, "cpu": 0.0,
    }
    bad = []
    known_hits = {}
    known = [k for k in load_known() if k["property"] == pid]

    def on_result(res):
        if res.get("harness_error"):
            st["harness"].append(res["harness_error"])
            return False
        st["runs"] += 1
        for k in ("steps", "switches", "clock", "msgs"):
            st[k] += res[k]
        st["maxwall"] = max(st["maxwall"], res.get("wall", 0))
        st["cpu"] += res.get("wall", 0)
        for k, v in res["faults"].items():
            st["faults"][k] = st["faults"].get(k, 0) + v
        st["hashes"].add(res["hash"])
        st["traces"].add(res["trace"])
        for p in res["policies"]:
            st["policies"][p] = st["policies"].get(p, 0) + 1
        for k, v in res["stats"].items():
            if isinstance(v, (int, float)):
                st["stats"][k] = st["stats"].get(k, 0) + v
            elif isinstance(v, list):
                st["stats"].setdefault(k, {})
                for q in v:
                    st["stats"][k][q] = st["stats"][k].get(q, 0) + 1
        st["evals"] += int(res["stats"].get("evaluations", 1))
        if len(st["samples"]) < 5:
            st["samples"].append("run %d: %s steps=%d msgs=%d faults=%s trace=%s" % (
                res["i"], ",".join(res["policies"]), res["steps"], res["msgs"], res["faults"], res["hash"]))
        st["unconfirmed"] += [v["msg"] for v in res.get("unconfirmed", [])]
        vs = []
        for v in res.get("viol", []):
            kk = [k for k in known if v["key"] == k["key"]]
            if kk:
                known_hits[kk[0]["key"]] = known_hits.get(kk[0]["key"], 0) + 1
            else:
                vs.append(v)
        if vs:
            res["viol"] = vs
            bad.append(res)
            return not os.environ.get("VERIF_SURVEY")
        return False

    # fixed scenarios that show each known finding still present
    for k in known:
        if hasattr(mod, "known_spec"):
            spec = mod.known_spec(k["key"])
            r = normalise(in_child(lambda: execute(mod, spec, "known/" + k["key"])))
            if any(v["key"] == k["key"] for v in r.get("viol", [])):
                known_hits[k["key"]] = known_hits.get(k["key"], 0) + 1

    explore(mod, vseed, tier, count, wall, on_result)

    # a single event of a 2^-20 kind is expected now and then; several are not
    if not bad and len(st["unconfirmed"]) > getattr(mod, "MAX_UNCONFIRMED", 3):
        print("unconfirmed value errors: %d" % len(st["unconfirmed"]))
    # determinism: repeat some runs, bit for bit
    det_checked = det_bad = 0
    if not bad:
        for i in range(0, min(count, 3)):
            seed, spec = spec_for(mod, vseed, i, tier)
            a = in_child(lambda: execute(mod, spec, seed))
            b = in_child(lambda: execute(mod, spec, seed))
            det_checked += 1
            if a.get("hash") != b.get("hash") or a.get("hash") is None:
                det_bad += 1

    line = None
    if bad and os.environ.get("VERIF_SURVEY"):
        groups = {}
        for r in bad:
            v = r["viol"][0]
            lines = v["msg"].splitlines()
            sig = v["key"] + " " + (lines[0] if v["key"] != "value" else lines[0].split(":")[0].split("(")[-1])[:160]
            if v["key"] == "exception":
                fl = [q for q in lines if "File" in q and "/repo/" in q]
                sig += " @ " + (fl[-1].strip() if fl else "")
            sig = sig.replace("party 0", "party").replace("party 1", "party").replace("party 2", "party").replace("party 3", "party")
            groups.setdefault(sig, []).append((r["i"], v["msg"]))
        for sig, xs in sorted(groups.items(), key=lambda q: -len(q[1])):
            print("%4d  %s   e.g. run %d" % (len(xs), sig, xs[0][0]))
            print("        " + xs[0][1].splitlines()[0][:300])
        return 1
    if bad:
        bad.sort(key=lambda r: r["i"])
        res = bad[0]
        seed, spec = spec_for(mod, vseed, res["i"], tier)
        budget = float(os.environ.get("VERIF_MIN", "45"))
        if res["viol"][0]["key"] in ("hang", "crash"):
            spec2, ch2, r2, ok = spec, [], res, False
        else:
            spec2, ch2, r2, ok = minimise(mod, spec, seed, dict(res), budget)
        if not r2.get("viol"):
            r2 = res
        path = write_replay(mod, spec2, seed, ch2, r2, res.get("choices", []))
        for v in r2["viol"][:4]:
            print("  %s: %s" % (v["key"], v["msg"]))
        line = "VIOLATION property=%s replay=%s" % (pid, path)

    for k in known:
        if known_hits.get(k["key"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("note: listed finding no longer observed: %s" % k["key"])

    wall_s = _t() - t0
    per_h = st["runs"] / max(1e-9, wall_s - t_setup) * 3600
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(vseed) if str(vseed).isdigit() else 0,
        "level": mod.LEVEL,
        "wall_s": round(wall_s, 2),
        "coverage": {
            "evaluations": st["evals"],
            "distinct_nontrivial": len(st["hashes"]),
            "rule": "distinct executions by hash of the full event log (every network, store, disk and lock operation in order, with party) of runs in which the property's oracle was evaluated",
            "samples": st["samples"] or ["none"],
            "simulated_runs": st["runs"],
            "runs_per_hour": round(per_h),
            "seeds": "%s:%s:0..%d" % (vseed, pid, count - 1),
            "simulated_seconds": round(st["clock"], 3),
            "scheduler_steps": st["steps"],
            "context_switches": st["switches"],
            "messages": st["msgs"],
            "distinct_schedules": len(st["traces"]),
            "faults_injected": st["faults"],
            "policies": st["policies"],
            "scenario_counts": st["stats"],
            "real_components": getattr(mod, "REAL", REAL),
            "stub_components": getattr(mod, "STUB", STUB),
            "determinism_reruns": det_checked,
            "determinism_mismatches": det_bad,
            "unconfirmed_value_events": st["unconfirmed"][:5],
            "harness_errors": len(st["harness"]),
            "violation_messages": [v["msg"] for b in bad for v in b["viol"]][:20],
            "slowest_run_s": round(st["maxwall"], 2),
        },
        "violations": len(bad),
        "assumptions": getattr(mod, "ASSUME", ASSUME),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d runs (%d distinct), %d evaluations, %.0f runs/h, %.1f s, faults %s%s" % (
        pid, tier, st["runs"], len(st["hashes"]), st["evals"], per_h, wall_s, st["faults"],
        ", unconfirmed %d" % len(st["unconfirmed"]) if st["unconfirmed"] else ""))
    if os.environ.get("VERIF_STATS"):
        print(json.dumps(st["stats"], indent=1, sort_keys=True))
    if st["unconfirmed"]:
        print("  unconfirmed:", st["unconfirmed"][:3])
    if line:
        print(line)
        return 1
    if st["harness"]:
        print("harness errors: %d\n%s" % (len(st["harness"]), st["harness"][0]))
        return 2
    if det_bad:
        print("warning: %d of %d determinism re-runs differed" % (det_bad, det_checked))
    if st["runs"] == 0:
        return 2
    return 0


REAL = ["crypten package (all of it, one import per party)", "torch.distributed Python layer (init_process_group, new_group, collectives' argument handling)", "torch tensor kernels"]
STUB = ["gloo transport and rendezvous store", "os.urandom", "clocks and sleep", "torch.save/torch.load file access", "stdout and logging sinks"]
ASSUME = ["gloo's semantics as modelled in sim/net.py", "CPU tensors only (no CUDA here)", "torch kernels are deterministic with one thread"]


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("sim.checks." + d["property"])
    setup(mod)
    r = normalise(in_child(lambda: execute(mod, d["spec"], d["seed"], replay=d["choices"], keep_events=True)))
    for e in (r.get("events") or [])[-40:]:
        print("   ", e)
    for v in r.get("viol", []):
        print("  %s: %s" % (v["key"], v["msg"]))
    same = r.get("hash") == d["hash"]
    print("replay: %s, event log hash %s (%s)" % (
        "violation reproduced" if r.get("viol") else "no violation", r.get("hash"),
        "identical to the recorded run" if same else "differs from %s" % d["hash"]))
    return 1 if r.get("viol") else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"))
