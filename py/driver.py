"""Seeded search for one property: workers, gate, minimisation, replay file, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))

import sim
from common import V
from out import Bad

EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
KNOWN = os.path.join(ROOT, "known-findings.json")


def scratch_root():
    for b in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        try:
            s = os.statvfs(b)
            if s.f_bavail * s.f_frsize > 400 << 20 and os.access(b, os.W_OK):
                return tempfile.mkdtemp(prefix="verif.", dir=b)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix="verif.")


def build():
    r = subprocess.run(["bash", os.path.join(ROOT, "sim", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout)
        print("error: the simulator could not be built from /repo")
        sys.exit(2)


def known():
    try:
        return json.load(open(KNOWN))
    except OSError:
        return {"findings": [], "fixed": []}


def one(mod, ctx, spec, replay=None):
    """Run one trial.  Returns (violation or None, info)."""
    ctx.reset()
    ctx.replay = replay or {}
    try:
        info = mod.trial(ctx, spec)
        return None, info or {}
    except V as v:
        return v, {}
    except (KeyError, IndexError, ValueError, AssertionError, Bad, OverflowError, ZeroDivisionError, FileNotFoundError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        f = tb[-1]
        return V("malformed results", "results that cannot be interpreted: %r (%s:%d)" % (e, os.path.basename(f.filename), f.lineno)), {"tb": traceback.format_exc()}


def loghash(log):
    return hashlib.sha256(json.dumps([x[:5] for x in log]).encode()).hexdigest()[:16]


def make_spec(mod, seed, idx, tier):
    rng = random.Random("%d/%s/%d" % (seed, mod.ID, idx))
    return mod.gen(rng, idx, tier)


def worker(mod, n, root, seed, tier, counter, stop, q, deadline, maxtrials):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = sim.Ctx(os.path.join(root, "w%d" % n))
    res = {"trials": 0, "nontrivial": [], "samples": [], "probes": {}}
    try:
        while time.time() < deadline and not stop.value:
            with counter.get_lock():
                idx = counter.value
                counter.value += 1
            if maxtrials and idx >= maxtrials:
                break
            spec = json.loads(json.dumps(make_spec(mod, seed, idx, tier)))
            v, info = one(mod, ctx, spec)
            if v is not None:
                k = match_known(mod.ID, v)
                if k is None:
                    stop.value = 1
                    q.put(("violation", idx, spec, v.kind, v.text, ctx.log, info.get("tb")))
                    break
                q.put(("known", k))
                continue
            res["trials"] += 1
            if info.get("nontrivial", True):
                res["nontrivial"].append(hashlib.sha256(json.dumps([spec, [x[2] for x in ctx.log]]).encode()).hexdigest()[:16])
            for k, n_ in info.get("probes", {}).items():
                res["probes"][k] = res["probes"].get(k, 0) + n_
            if len(res["samples"]) < 1 and info.get("nontrivial", True):
                res["samples"].append({"index": idx, "spec": spec, "runs": [{"name": x[0], "history_hash": x[1], "interleaving": x[2], "ok": x[3]} for x in ctx.log[:6]]})
    except Exception:
        stop.value = 1
        q.put(("error", traceback.format_exc(), idx))
    ctx.close()
    q.put(("done", res, ctx.stats, list(ctx.scheds), ctx.faults))


def match_known(pid, v):
    for f in known()["findings"]:
        if f["property"] == pid and f["kind"] == v.kind and f["match"] in v.text:
            return f["what"]
    return None


# ------------------------------------------------------------------ minimisation
def case_shrinks(c):
    """Simpler versions of a generated problem."""
    def w(**kw):
        d = json.loads(json.dumps(c))
        d.update(kw)
        return d
    if c.get("comments"):
        yield w(comments=0)
    if c.get("timing"):
        yield w(timing=False)
    if c["shuffle"]:
        yield w(shuffle=0)
    if c["idmode"] != "seq":
        yield w(idmode="seq")
    for i in range(len(c["bcs"])):
        yield w(bcs=c["bcs"][:i] + c["bcs"][i + 1:])
    used = set(b["set"] for b in c["bcs"])
    from case import nsname
    for i, s in enumerate(c["nodesets"]):
        if nsname(s) not in used:
            yield w(nodesets=c["nodesets"][:i] + c["nodesets"][i + 1:])
    if c["nsteps"] > 1:
        n = c["nsteps"]
        for m in (1, n // 2, n - 1):
            if 1 <= m < n:
                yield w(nsteps=m, t1=c["t0"] + (c["t1"] - c["t0"]) * m / n)
    if len(c["fields"]) > 1:
        for i, f in enumerate(c["fields"]):
            if f != "displacement":
                yield w(fields=c["fields"][:i] + c["fields"][i + 1:])
    if c.get("contact") and c["contact"].get("vis"):
        yield w(contact=dict(c["contact"], vis=False))
    for i, b in enumerate(c["bodies"]):
        if b["jit"]:
            bs = json.loads(json.dumps(c["bodies"]))
            bs[i]["jit"] = False
            yield w(bodies=bs)


def default_shrinks(spec):
    for k, x in spec.items():
        if k == "case" or (isinstance(x, dict) and "bodies" in x):
            for c in case_shrinks(x):
                yield dict(spec, **{k: c})
        elif k in ("iofaults", "allocfaults", "kills", "faults", "clocks", "jumps") and isinstance(x, list):
            for i in range(len(x)):
                if k != "clocks":
                    yield dict(spec, **{k: x[:i] + x[i + 1:]})
        elif k == "slow" and x:
            yield dict(spec, slow=None)


def minimise(mod, ctx, spec, v, log, budget):
    end = time.time() + budget
    kind = v.kind
    tries = [0]

    def fails(s, rep):
        if time.time() > end:
            return None
        tries[0] += 1
        try:
            w, _ = one(mod, ctx, json.loads(json.dumps(s)), rep)
        except sim.SimError:
            return None
        if w is not None and w.kind == kind and match_known(mod.ID, w) is None:
            return w
        return None

    # schedule as an explicit list of decisions
    rep = {x[0]: x[5] for x in log}
    w = fails(spec, rep)
    if w is None:
        return spec, None, v, tries[0]
    # all decisions gone?
    empty = {k: [] for k in rep}
    w2 = fails(spec, empty)
    if w2 is not None:
        rep, w = empty, w2
    else:
        # run by run, then ddmin over the decisions of each run
        for k in list(rep):
            if rep[k]:
                r2 = dict(rep)
                r2[k] = []
                w2 = fails(spec, r2)
                if w2 is not None:
                    rep, w = r2, w2
        for k in list(rep):
            n = 2
            while len(rep[k]) >= 2 and time.time() < end:
                d = rep[k]
                size = max(1, len(d) // n)
                done = False
                for a in range(0, len(d), size):
                    r2 = dict(rep)
                    r2[k] = d[:a] + d[a + size:]
                    w2 = fails(spec, r2)
                    if w2 is not None:
                        rep, w = r2, w2
                        n = max(2, n - 1)
                        done = True
                        break
                if not done:
                    if size == 1:
                        break
                    n = min(len(d), n * 2)
    shr = getattr(mod, "shrinks", default_shrinks)
    changed = True
    while changed and time.time() < end:
        changed = False
        for s in shr(spec):
            w2 = fails(s, rep)
            if w2 is not None:
                spec, w, changed = s, w2, True
                break
    return spec, rep, w, tries[0]


# ------------------------------------------------------------------ main
def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(pid)
    build()
    if hasattr(mod, "prepare"):
        mod.prepare()
    t_build = time.time() - t0
    budget = float(os.environ.get("VERIF_BUDGET", mod.BUDGET[tier] if hasattr(mod, "BUDGET") else {"quick": 35, "thorough": 600}[tier]))
    maxtrials = int(os.environ.get("VERIF_TRIALS", "0"))
    root = scratch_root()
    nw = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 4))))
    counter, stop, q = mp.Value("q", 0), mp.Value("i", 0), mp.Queue()
    t1 = time.time()
    try:
        ps = [mp.Process(target=worker, args=(mod, i, root, seed, tier, counter, stop, q, t1 + budget, maxtrials)) for i in range(nw)]
        for p in ps:
            p.start()
        done, viol, errs, knowns = [], [], [], set()
        while len(done) < nw:
            try:
                m = q.get(timeout=1.0)
            except queue.Empty:
                if all(not p.is_alive() for p in ps) and q.empty():
                    errs.append("a worker ended unexpectedly")
                    break
                continue
            {"done": done, "violation": viol, "error": errs}.get(m[0], []).append(m[1:])
            if m[0] == "known":
                knowns.add(m[1])
        for p in ps:
            p.join()
        t_explore = time.time() - t1
        rc = 0
        vtext = None
        if viol:
            for v in sorted(viol, key=lambda x: x[0]):
                rc, vtext = report(mod, v, root, seed, tier)
                if rc == 1:
                    break
        elif errs:
            print("error: " + str(errs[0]))
            rc = 2
        for k in sorted(knowns):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        evidence(mod, tier, seed, done, t_explore, t_build, time.time() - t0, 1 if rc == 1 else 0, nw)
        sys.stdout.flush()
        return rc
    finally:
        for p in mp.active_children():
            p.kill()
        shutil.rmtree(root, ignore_errors=True)


def report(mod, v, root, seed, tier):
    idx, spec, kind, text, log, tb = v
    print("violation found at index %d: %s: %s" % (idx, kind, text))
    if tb:
        print(tb)
    ctx = sim.Ctx(os.path.join(root, "gate"))
    # gate: the same spec twice in a fresh simulator, same violation and history each time
    # (the worker's own run may differ where the broken code reads memory it has not written)
    first = None
    for i in range(2):
        w, _ = one(mod, ctx, json.loads(json.dumps(spec)))
        if w is None or (first and (w.kind, w.text, loghash(ctx.log)) != first):
            print("error: the violation did not reproduce (run %d): %s %s" % (i, w and w.kind, w and w.text))
            ctx.close()
            return 2, None
        first = (w.kind, w.text, loghash(ctx.log))
        log = list(ctx.log)
        ctx.close()
    kind, text = w.kind, w.text
    spec2, rep, w, tries = minimise(mod, ctx, spec, V(kind, text), log, float(os.environ.get("VERIF_MINIMISE", 60 if tier == "quick" else 300)))
    # the minimised form, once more in a fresh simulator
    ctx.close()
    w2, _ = one(mod, ctx, json.loads(json.dumps(spec2)), rep)
    if w2 is None or w2.kind != kind:
        spec2, rep, w2 = spec, None, V(kind, text)
        one(mod, ctx, json.loads(json.dumps(spec)))
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    path = os.path.join(EVID, "replays", "%s-%d-%d.json" % (mod.ID, seed, idx))
    doc = {"property": mod.ID, "seed": seed, "index": idx, "kind": w2.kind, "text": w2.text, "histories": [x[:5] for x in ctx.log], "spec": spec2,
           "replay": rep, "minimiser_runs": tries, "original": {"text": text, "spec": spec}}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    ctx.close()
    print("minimised in %d trials: %s" % (tries, w2.text))
    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
    return 1, w2.text


REAL = ["NimbleSM main, application, parser, expression parser, mesh reader, boundary conditions, data manager, model data, blocks, elements, materials, time integrator, contact manager, vector communicator, clique reduction, result writer, timing report (libnimble.a built from /repo, unmodified)", "Exodus II and netCDF libraries", "Kokkos, Tpetra/Teuchos (Trilinos 13.2)", "C++ iostreams, allocator"]
STUB = ["MPI (simmpi.cc): point-to-point, collectives, non-blocking collectives, communicators, requests, delivery order and delay", "file system calls (simio.cc): pass-through to scratch files with faults, kills, torn writes", "clocks (simio.cc)", "mpirun launcher (server.cc): start, failure propagation"]


def evidence(mod, tier, seed, done, t_explore, t_build, wall, nviol, nw):
    st, fl, sc, nt, samples, trials, probes = {}, {}, set(), set(), [], 0, {}
    for (res, s, scheds, faults) in done:
        for k, n in s.items():
            st[k] = st.get(k, 0) + n
        for k, n in faults.items():
            fl[k] = fl.get(k, 0) + n
        sc.update(scheds)
        nt.update(res["nontrivial"])
        trials += res["trials"]
        samples += res["samples"]
        for k, n in res["probes"].items():
            probes[k] = probes.get(k, 0) + n
    h = max(t_explore, 1e-9) / 3600.0
    cov = {
        "evaluations": trials,
        "distinct_nontrivial": len(nt),
        "rule": mod.RULE,
        "samples": samples[:3],
        "simulated_runs": st.get("runs", 0),
        "runs_per_hour": int(st.get("runs", 0) / h),
        "seeds_per_hour": int(trials / h),
        "simulated_seconds": st.get("simns", 0) / 1e9,
        "faults_injected": fl,
        "distinct_interleavings": len(sc),
        "interleaving_measure": "hash of the order in which the simulator granted all ranks' requests (message matches, completions, polls, collective arrivals, file operations), per run",
        "messages": st.get("msgs", 0),
        "collectives": st.get("colls", 0),
        "scheduling_steps": st.get("rpcs", 0),
        "probes": probes,
        "real_components": REAL,
        "stub_components": STUB,
        "workers": nw,
        "explore_s": round(t_explore, 2),
        "build_s": round(t_build, 2),
    }
    doc = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov, "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, mod.ID + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(p + ".tmp", p)
    print("%s %s seed %d: %d trials, %d simulated runs, %d distinct interleavings, %.0f s (+%.0f s build)" % (mod.ID, tier, seed, trials, st.get("runs", 0), len(sc), t_explore, t_build))


def replay(path):
    """Reproduce a replay file; exit status 1 when the same violation appears."""
    doc = json.load(open(path))
    mod = importlib.import_module(doc["property"])
    build()
    if hasattr(mod, "prepare"):
        mod.prepare()
    root = scratch_root()
    try:
        ctx = sim.Ctx(os.path.join(root, "w"))
        v, _ = one(mod, ctx, doc["spec"], doc["replay"])
        same = [x[:5] for x in ctx.log] == doc["histories"]
        ctx.close()
        if v is None:
            print("no violation")
            return 0
        print("%s: %s" % (v.kind, v.text))
        print("histories identical to the recorded ones: %s" % ("yes" if same else "no"))
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
