"""A crash never damages output steps already completed."""
import case as C
import common as K
import faults as X
import out as O
import sim

ID = "P07"
LEVEL = "fault_enumeration"
RULE = ("a random problem is run once without faults; then the run is killed (one rank first, the launcher the others, or all ranks independently) at a file operation of a result file - before it, after it, in the middle of a "
        "write - or at a communication step; a quarter of the trials kill at forty file operations of one rank, evenly spread; afterwards every output step a rank had completed must be in its file with exactly the fault-free values; "
        "non-trivial: a kill after at least one completed step")
ASSUME = ["a killed process loses nothing it had handed to the kernel (process crash, not power failure)", "a step counts as completed once the rank has closed the file after it or has gone on to the communication of a later time step"]


def gen(rng, idx, tier):
    enum = rng.random() < 0.25
    c = C.gen_case(rng, nranks=rng.choice([1, 2, 3]) if not enum else rng.choice([1, 2]), contact=rng.random() < 0.15, maxel=8, minsteps=2, maxsteps=4 if enum else 8)
    c["freq"] = rng.choice([1, 1, 2, 3])
    if c["contact"] and rng.random() < 0.7:
        c["contact"]["vis"] = True
    sp = {"case": c, "picks": [], "sched": K.gen_sched(rng, c["nranks"])}
    if enum:
        sp["enum"] = [rng.randrange(c["nranks"]), rng.random()]
    else:
        for _ in range(8):
            m = rng.choice([1, 1, 2])
            sp["picks"].append({"sched": K.gen_sched(rng, c["nranks"]), "at": [{"rank": rng.randrange(c["nranks"]), "u": rng.random() ** 0.7, "k": rng.random(), "rpc": rng.random() < 0.2, "op": rng.choice([0, 0, X.WRITE, X.OPEN, X.CLOSE])} for _ in range(m)]})
    return sp


def shrinks(spec):
    import driver
    if len(spec["picks"]) > 1:
        for p in spec["picks"]:
            yield dict(spec, picks=[p])
    yield from driver.default_shrinks(spec)


def files(c, d):
    """(rank, class, path) of all result files with outputs in steps."""
    r = [(i, X.OUT, p) for i, p in enumerate(K.outfiles(c, d))]
    return r + [(i, X.CONTACT, p) for i, p in enumerate(K.contact_files(c, d))]


def closes(run, rank, cls):
    return run["ranks"][rank]["closes"][cls]


def judge(ctx, c, F, name, sched, kw, what, clean, base, per, probes):
    d, r = K.run_par(ctx, F, name, sched, **kw)
    if not any(q["killed"] or q["fkill"] for q in r["ranks"]):
        probes["kills not reached"] = probes.get("kills not reached", 0) + 1
        return 0
    want = C.steps_of(c)
    got = 0
    for (rk, cls, p), ref in zip(files(c, d), clean):
        n = closes(r, rk, cls) - (closes(base, rk, cls) - len(want))
        if cls == X.OUT and per[rk][1] > 0:
            nc = r["ranks"][rk]["ncoll"]
            n2 = sum(1 for s in want if nc >= per[rk][0] + s * per[rk][1] + 1)
            n = max(n, n2)
        n = min(n, len(want))
        if n <= 0:
            continue
        got += n
        wh = "%s: %s file of rank %d, which had completed %d output steps" % (what, sim.CLS[cls], rk, n)
        try:
            q = O.Out(p)
        except FileNotFoundError:
            raise K.V("lost file", wh + ": the file is gone")
        except (O.Bad, KeyError, IndexError, ValueError) as e:
            raise K.V("unreadable", "%s: cannot be read: %r" % (wh, e))
        if q.nsteps < n:
            raise K.V("lost steps", "%s, holds %d" % (wh, q.nsteps))
        for s in range(n):
            try:
                x = q.record(s)
            except O.Bad as e:
                raise K.V("unreadable", "%s: %s" % (wh, e))
            if x != ref[1][s]:
                bad = sorted(k for k in ref[1][s] if x.get(k) != ref[1][s][k])
                raise K.V("damaged step", "%s: output step %d differs from the fault-free run in %s" % (wh, s, bad[:3]))
        for k, b in ref[0].items():
            try:
                if q.nc.get(k).tobytes() != b:
                    raise K.V("damaged file", "%s: %s differs from the fault-free run" % (wh, k))
            except (O.Bad, KeyError) as e:
                raise K.V("damaged file", "%s: %s cannot be read" % (wh, k))
    probes["completed steps checked after a kill"] = probes.get("completed steps checked after a kill", 0) + got
    return got


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    zero = {"seed": 1, "profile": [0] * 6}
    d, base = K.run_par(ctx, F, "clean", zero, iolog=1)
    K.expect_ok(base, "fault-free run")
    clean = []
    for rk, cls, p in files(c, d):
        q = O.Out(p)
        clean.append(({k: q.nc.get(k).tobytes() for k, v in q.nc.vars.items() if not v["rec"] and k not in O.VOLATILE}, [q.record(s) for s in range(q.nsteps)]))
    K.history(c, K.read_all(c, d), "fault-free run")
    # collective operations per time step, from a run twice as long
    c2 = dict(c, nsteps=2 * c["nsteps"], t1=c["t0"] + 2 * (c["t1"] - c["t0"]))
    deck = F.deck
    F.deck = C.deck_text(c2).encode()
    _, long = K.run_par(ctx, F, "long", zero)
    F.deck = deck
    per = []
    for a, b in zip(base["ranks"], long["ranks"]):
        k = (b["ncoll"] - a["ncoll"]) // c["nsteps"] if long["ok"] else 0
        per.append((a["ncoll"] - k * c["nsteps"], k))
    probes, got = {}, 0
    if spec.get("enum"):
        rk, u = spec["enum"][:2]
        for i in X.stride(X.ops(base, rk, (X.OUT, X.CONTACT)), u, 40):
            kinds = ["KILL_BEFORE", "KILL_AFTER"] + (["KILL_MID"] * 2 if X.op(base, rk, i)[0] == X.WRITE else [])
            kind = kinds[(i * 5 + int(u * 100)) % len(kinds)]
            got += judge(ctx, c, F, "e%d" % i, spec["sched"], {"iofaults": [[rk, i, kind, 0]]}, "rank %d: %s file operation %d" % (rk, kind, i), clean, base, per, probes)
    for j, p in enumerate(spec["picks"]):
        kw, what = {"iofaults": [], "kills": []}, []
        for a in p["at"]:
            rk = a["rank"]
            o = X.ops(base, rk, (X.OUT, X.CONTACT), [a["op"]] if a["op"] else None)
            if a["rpc"] or not o:
                n = int(a["u"] * base["ranks"][rk]["nrpc"])
                kw["kills"].append([rk, n])
                what.append("rank %d killed at communication step %d" % (rk, n))
            else:
                i = X.pick(o, a["u"])
                kind = X.pick(["KILL_BEFORE", "KILL_AFTER"] + (["KILL_MID"] if X.op(base, rk, i)[0] == X.WRITE else []), a["k"])
                kw["iofaults"].append([rk, i, kind, 0])
                what.append("rank %d: %s file operation %d" % (rk, kind, i))
        got += judge(ctx, c, F, "k%d" % j, p["sched"], kw, "; ".join(what), clean, base, per, probes)
    return {"nontrivial": got > 0, "probes": probes}
