"""Re-running over the leftovers of an earlier run gives clean results."""
import os
import random

import case as C
import common as K
import faults as X

ID = "P08"
LEVEL = "fault_enumeration"
RULE = ("a random problem is run once in a clean directory; then, for each of several kinds of leftovers - of a run killed at a file operation or communication step, of a run ended by a full disk or an I/O error, of a completed "
        "run with other length, output frequency or fields, or files damaged, cut short, emptied, swapped between ranks - the same input is started in the directory that holds them, under a new schedule, and must give the results and the file "
        "sizes of the clean run; non-trivial: every rerun finished and some leftover differed from the clean files")
ASSUME = ["the leftover files are ordinary writable files", "the directory holds the same input as before"]


def gen(rng, idx, tier):
    c = C.gen_case(rng, contact=rng.random() < 0.2, maxel=8, maxsteps=5)
    if c["contact"] and rng.random() < 0.7:
        c["contact"]["vis"] = True
    picks = []
    for _ in range(6):
        t = rng.choice(["kill", "kill", "kill", "fault", "other", "junk", "junk"])
        p = {"t": t, "sched": K.gen_sched(rng, c["nranks"]), "sched0": K.gen_sched(rng, c["nranks"])}
        if t in ("kill", "fault"):
            p.update(rank=rng.randrange(c["nranks"]), u=rng.random() ** 0.7, k=rng.random(), rpc=t == "kill" and rng.random() < 0.2, op=rng.choice([0, X.WRITE, X.CLOSE, X.OPEN]), sticky=int(rng.random() < 0.5))
        elif t == "other":
            p["other"] = {"nsteps": c["nsteps"] + rng.choice([0, 1, 3, 7]), "freq": rng.choice([0, 1, 1, 2]), "fields": rng.choice([c["fields"], C.NODE_FIELDS, C.NODE_FIELDS + C.ELEM_FIELDS, ["displacement"]])}
        else:
            p["how"] = [rng.choice(["empty", "noise", "cut", "flip", "swap", "longer", "mesh", "keep"]) for _ in range(c["nranks"])]
            p["seed"] = rng.randrange(1 << 30)
        picks.append(p)
    return {"case": c, "picks": picks}


def shrinks(spec):
    import driver
    if len(spec["picks"]) > 1:
        for p in spec["picks"]:
            yield dict(spec, picks=[p])
    yield from driver.default_shrinks(spec)


def results(c, d):
    return K.outfiles(c, d) + K.contact_files(c, d)


def junk(p, c, d, clean, F):
    r = random.Random(p["seed"])
    fs = results(c, d)
    for i, (path, b) in enumerate(zip(fs, clean)):
        how = p["how"][i % len(p["how"])]
        if how == "keep":
            x = b
        elif how == "empty":
            x = b""
        elif how == "noise":
            x = bytes(r.randrange(256) for _ in range(r.choice([1, 7, 200, 5000])))
        elif how == "cut":
            x = b[:r.randrange(len(b))]
        elif how == "flip":
            a = bytearray(b)
            for _ in range(r.choice([1, 4, 40])):
                a[r.randrange(min(len(a), r.choice([64, 1000, 1 << 30])))] ^= 1 << r.randrange(8)
            x = bytes(a)
        elif how == "swap":
            x = clean[(i + 1) % len(clean)]
        elif how == "longer":
            x = b + bytes(r.randrange(256) for _ in range(5000))
        else:
            x = F.mesh[i % len(F.mesh)]
        with open(path, "wb") as f:
            f.write(x)
    return "result files left " + ", ".join(p["how"][i % len(p["how"])] for i in range(len(fs)))


def leave(ctx, F, base, name, p, clean):
    """Makes the leftovers; returns the directory and what was done."""
    c = F.case
    if p["t"] == "junk":
        d = ctx.dir(name)
        F.put(d)
        return d, junk(p, c, d, clean, F)
    if p["t"] == "other":
        c2 = dict(c, **p["other"])
        c2["t1"] = c["t0"] + (c["t1"] - c["t0"]) * c2["nsteps"] / c["nsteps"]
        deck = F.deck
        F.deck = C.deck_text(c2).encode()
        d, r = K.run_par(ctx, F, name + "a", p["sched0"])
        F.deck = deck
        return d, "a completed run with %s" % ", ".join("%s %s" % kv for kv in p["other"].items())
    o = X.ops(base, p["rank"], (X.OUT, X.CONTACT), [p["op"]] if p["op"] else None) or X.ops(base, p["rank"], (X.OUT, X.CONTACT))
    if p["rpc"] or not o:
        n = int(p["u"] * base["ranks"][p["rank"]]["nrpc"])
        d, r = K.run_par(ctx, F, name + "a", p["sched0"], kills=[[p["rank"], n]])
        return d, "a run in which rank %d was killed at communication step %d" % (p["rank"], n)
    i = X.pick(o, p["u"])
    k = X.op(base, p["rank"], i)[0]
    if p["t"] == "kill":
        kind = X.pick(["KILL_BEFORE", "KILL_AFTER"] + (["KILL_MID"] if k == X.WRITE else []), p["k"])
    else:
        kind = X.pick(X.BY_OP[k], p["k"])
    d, r = K.run_par(ctx, F, name + "a", p["sched0"], iofaults=[[p["rank"], i, kind, p["sticky"] if p["t"] == "fault" else 0]])
    return d, "a run that met %s at file operation %d of rank %d" % (kind, i, p["rank"])


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, base = K.run_par(ctx, F, "clean", {"seed": 1, "profile": [0] * 6}, iolog=1)
    K.expect_ok(base, "run in a clean directory")
    ref = K.canon_all(c, d) + K.contact_canon(c, d)
    clean = [open(p, "rb").read() for p in results(c, d)]
    names = set(os.listdir(d))
    probes, diff = {}, 0
    for i, p in enumerate(spec["picks"]):
        d, what = leave(ctx, F, base, "p%d" % i, p, clean)
        left = {}
        for q, b in zip(results(c, d), clean):
            if os.path.exists(q):
                x = open(q, "rb").read()
                left[q] = x
                diff += x != b
        had = set(os.listdir(d))
        F.put(d)
        r = ctx.run("p%db" % i, d, K.scen(c, p["sched"]))
        what = "run over the leftovers of " + what
        K.expect_ok(r, what)
        K.same(ref, K.canon_all(c, d) + K.contact_canon(c, d), "leftovers show", what)
        for q, b in zip(results(c, d), clean):
            n = os.path.getsize(q)
            if n != len(b):
                raise K.V("leftovers show", "%s: %s has %d bytes, %d in a clean directory" % (what, os.path.basename(q), n, len(b)))
        new = set(n for n in os.listdir(d) if not n.endswith(".log")) - had - names
        if new:
            raise K.V("extra files", "%s: leaves %s, which a run in a clean directory does not" % (what, sorted(new)[:3]))
        probes["reruns over " + p["t"]] = probes.get("reruns over " + p["t"], 0) + 1
    return {"nontrivial": diff > 0, "probes": probes}
