"""The reported stable time step and its warning describe the whole model."""
import math
import re

import case as C
import common as K
import sim

ID = "P19"
LEVEL = "exploration"
RULE = ("a random problem (several materials, graded and distorted elements, anywhere in space) split over 1-6 ranks with the requested time step drawn around and between the stable steps of the ranks' parts, run under a random schedule: "
        "the stable time step the run reports must be the smallest over all elements of the undivided mesh (computed independently, and by the same program on one rank), and the warning must appear exactly when the requested step exceeds it; "
        "non-trivial: the ranks' own stable steps differ")
ASSUME = ["the estimate is the smallest distance of two nodes or side of the bounding box of an element over the sound speed sqrt(bulk modulus / density), as the one-rank program computes it"]


def char_length(x):
    d = min(math.dist(x[i], x[j]) for i in range(8) for j in range(i))
    return min([d] + [max(q[a] for q in x) - min(q[a] for q in x) for a in range(3)])


def local_steps(c, m):
    """Stable step of each rank's part."""
    r = [float("inf")] * c["nranks"]
    for e in range(m.ne):
        mt = c["mats"][c["blocks"][int(m.blk[e])]["mat"]]
        s = char_length([[float(v) for v in m.x[n]] for n in m.conn[e]]) / math.sqrt(mt["K"] / mt["rho"])
        o = c["owner"][e]
        r[o] = min(r[o], s)
    return r


def gen(rng, idx, tier):
    c = C.gen_case(rng, nranks=rng.choice([1, 2, 2, 3, 4, 5, 6]), contact=rng.random() < 0.1, maxel=14, maxsteps=2, bcs=False, fields=["displacement"])
    if rng.random() < 0.5:
        sh = [rng.choice([-30.0, -3.0, 0.0, 2.0]) * c["bodies"][0]["h"] for _ in range(3)]
        for b in c["bodies"]:
            b["off"] = [b["off"][a] + sh[a] for a in range(3)]
    for mt in c["mats"]:
        f = rng.choice([1.0, 0.3, 4.0])
        mt["K"] *= f
        mt["G"] *= f
    return {"case": c, "sched": K.gen_sched(rng, c["nranks"]), "u": rng.random(), "which": rng.random()}


def report(c, d, n):
    v, w = [], 0
    for r in range(n):
        t = sim.text(d, r, "out") + sim.text(d, r, "err")
        v += [float(q) for q in re.findall(r"stable time step:\s*([-+.\deEinfa]+)", t)]
        w += len(re.findall(r"exceeds[^.]*stable time step", t, re.S))
    return v, w


def trial(ctx, spec):
    c = dict(spec["case"])
    m = C.Mesh(c)
    loc = local_steps(c, m)
    g = min(loc)
    # the requested step: near, below, above, or between the stable steps of two ranks
    a = sorted(set(loc))
    if spec["which"] < 0.6 and len(a) > 1:
        hi = a[1 + int(spec["u"] * 7919) % (len(a) - 1)]
        dt = g + (hi - g) * (0.1 + 0.8 * spec["u"])
    else:
        dt = g * (0.3 + 1.4 * spec["u"])
    c["nsteps"], c["t0"] = 1, 0.0
    c["t1"] = float("%.8g" % dt)
    F = C.Files(c, ctx.dir("w"))
    d, r = K.run_par(ctx, F, "par", spec["sched"])
    K.expect_ok(r, "run on %d ranks" % c["nranks"])
    got, warn = report(c, d, c["nranks"])
    d1, r1 = K.run_one(ctx, F)
    K.expect_ok(r1, "run on one rank")
    one, warn1 = report(c, d1, 1)
    for what, v in (("one rank", one), ("%d ranks" % c["nranks"], got)):
        if not v:
            raise K.V("not reported", "no stable time step is reported on " + what)
        for x in v:
            if not abs(x - g) <= 2e-5 * g:
                raise K.V("wrong stable time step", "on %s the reported stable time step is %.6g, that of the model is %.6g (of the ranks' parts: %s)" % (what, x, g, " ".join("%.6g" % q for q in loc)))
    if abs(c["t1"] - g) > 1e-6 * g:
        for what, w in (("one rank", warn1), ("%d ranks" % c["nranks"], warn)):
            if (w > 0) != (c["t1"] > g):
                raise K.V("wrong warning", "on %s the warning is %s, the requested step is %.6g and the stable one %.6g" % (what, "given" if w else "missing", c["t1"], g))
    return {"nontrivial": len(a) > 1, "probes": {"requested step between the ranks' stable steps": int(g < c["t1"] < max(a)), "warnings": int(warn > 0), "rank 0 does not hold the smallest element": int(loc[0] > g)}}
