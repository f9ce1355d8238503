"""Fail-stop: a run reports success only if its results are complete and right."""
import case as C
import common as K
import faults as X
import sim

ID = "P06"
LEVEL = "fault_enumeration"
RULE = ("a random problem is first run without faults; then each of several runs gets one fault in one rank: an error, short or torn write, full disk (once or for good) at one file operation on a result or contact file, "
        "a failed allocation, or death at a communication or file operation; a quarter of the trials go through forty result-file operations of one rank, evenly spread; the run must end, and end either with failure or with exactly "
        "the fault-free files; non-trivial: a fault fired")
ASSUME = ["one rank fails per run", "the launcher ends the other ranks when one fails (as mpirun does)", "the timing report is not a result", "an error that the Exodus/netCDF library meets but does not report to its caller is not NimbleSM's: a run in which that happened must still end, but its files are not compared"]
WR = (X.OUT, X.CONTACT)


def gen(rng, idx, tier):
    enum = rng.random() < 0.25
    c = C.gen_case(rng, nranks=rng.choice([1, 2, 2, 3, 4]) if not enum else rng.choice([1, 2]), contact=rng.random() < 0.25, maxel=8, maxsteps=3 if enum else 6, timing=rng.random() < 0.2)
    if enum and c["freq"] == 0:
        c["freq"] = 1
    if enum:
        rk = rng.randrange(c["nranks"])
        return {"case": c, "enum": [rk, rng.random(), int(rng.random() < 0.4)], "picks": [], "sched": K.gen_sched(rng, c["nranks"])}
    picks = []
    for _ in range(8):
        t = rng.choice(["io", "io", "io", "io", "alloc", "alloc", "kill", "killio"])
        picks.append({"t": t, "rank": rng.randrange(c["nranks"]), "u": rng.random(), "k": rng.random(), "sticky": int(rng.random() < 0.4), "mode": rng.choice([0, 1]), "op": rng.choice([0, 0, X.OPEN, X.WRITE, X.WRITE, X.CLOSE]), "sched": K.gen_sched(rng, c["nranks"])})
    return {"case": c, "picks": picks}


def shrinks(spec):
    import driver
    if len(spec["picks"]) > 1:
        for p in spec["picks"]:
            yield dict(spec, picks=[p])
    yield from driver.default_shrinks(spec)


def concrete(base, p):
    """Scenario keys of a pick."""
    r = p["rank"]
    q = base["ranks"][r]
    if p["t"] in ("io", "killio"):
        o = X.ops(base, r, WR, [p["op"]] if p["op"] else None) or X.ops(base, r, WR)
        if not o:
            return None
        i = X.pick(o, p["u"])
        kind = X.pick(X.BY_OP[X.op(base, r, i)[0]], p["k"]) if p["t"] == "io" else X.pick(["KILL_BEFORE", "KILL_AFTER"] + (["KILL_MID"] if X.op(base, r, i)[0] == X.WRITE else []), p["k"])
        return {"iofaults": [[r, i, kind, p["sticky"] if p["t"] == "io" else 0]]}, "%s of file operation %d (%s %s) on rank %d%s" % (kind, i, sim.IOK[X.op(base, r, i)[0]], sim.CLS[X.op(base, r, i)[1]], r, ", for good" if p["sticky"] and p["t"] == "io" else "")
    if p["t"] == "alloc":
        n = int(p["u"] * (q["nalloc"] if p["mode"] == 0 else q["nallocx"]))
        return {"allocfaults": [[r, n, p["sticky"], p["mode"]]]}, "allocation %d refused on rank %d%s" % (n, r, ", and all later ones" if p["sticky"] else "")
    n = int(p["u"] * q["nrpc"])
    return {"kills": [[r, n]]}, "rank %d killed at its communication step %d" % (r, n)


def judge(ctx, c, F, name, sched, kw, what, clean, probes):
    d, r = K.run_par(ctx, F, name, sched, **kw)
    fired = sum(q["fio"] + q["falloc"] + q["fkill"] for q in r["ranks"])
    for v in r["viol"]:
        k = v.split(":")[0]
        if k in ("deadlock", "livelock", "hang"):
            raise K.V("does not end", "%s: %s" % (what, v))
        if k == "usage" and not r["failed"]:
            raise K.V("usage", "%s: %s" % (what, v))
    if r["ok"] and any(q["absorbed"] for q in r["ranks"]):
        # the Exodus library met the fault and returned success to NimbleSM
        probes["faults the Exodus library did not report"] = probes.get("faults the Exodus library did not report", 0) + 1
    elif r["ok"]:
        probes["faults survived"] = probes.get("faults survived", 0) + (1 if fired else 0)
        try:
            x = K.canon_all(c, d) + K.contact_canon(c, d)
            K.same(clean, x, "success with wrong results", what)
        except K.V as v:
            raise K.V("success with wrong results", "%s: the run reports success, but %s" % (what, v.text))
    else:
        probes["runs that failed"] = probes.get("runs that failed", 0) + 1
    if not fired:
        probes["faults not reached"] = probes.get("faults not reached", 0) + 1
    return fired


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, base = K.run_par(ctx, F, "clean", {"seed": 1, "profile": [0] * 6}, iolog=1)
    K.expect_ok(base, "fault-free run")
    clean = K.canon_all(c, d) + K.contact_canon(c, d)
    K.history(c, K.read_all(c, d), "fault-free run")
    probes, fired = {}, 0
    if spec.get("enum"):
        r, u, sticky = spec["enum"][:3]
        for i in X.stride(X.ops(base, r, WR), u, 40):
            kinds = X.BY_OP[X.op(base, r, i)[0]]
            kind = kinds[(i * 7 + int(u * 100)) % len(kinds)]
            what = "%s of file operation %d (%s %s) on rank %d%s" % (kind, i, sim.IOK[X.op(base, r, i)[0]], sim.CLS[X.op(base, r, i)[1]], r, ", for good" if sticky else "")
            fired += judge(ctx, c, F, "e%d" % i, spec["sched"], {"iofaults": [[r, i, kind, sticky]]}, what, clean, probes)
        probes["operations enumerated"] = 1
    for i, p in enumerate(spec["picks"]):
        x = concrete(base, p)
        if x:
            fired += judge(ctx, c, F, "f%d" % i, p["sched"], x[0], x[1], clean, probes)
    return {"nontrivial": fired > 0, "probes": probes}
