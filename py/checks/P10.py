"""Prescribed motion holds on every copy of every constrained node."""
import numpy as np

import case as C
import expr
import common as K
import ref as R

ID = "P10"
LEVEL = "exploration"
RULE = ("a random problem with initial velocities, prescribed velocities and displacements (constants and expressions of position and time) on node sets cut by rank boundaries, sets with and without distribution factors, "
        "2-5 ranks, random schedule; at every output every copy of a constrained node must show the prescribed value, everything else the unconstrained evolution of the reference model; non-trivial: a constrained node shared by ranks")
ASSUME = ["prescribed displacement is compared to 1e-12 of its size plus one step's round-off, expression values to 1e-12"]


def gen(rng, idx, tier):
    big = tier == "thorough" and rng.random() < 0.3
    for _ in range(20):
        c = C.gen_case(rng, nranks=rng.choice([1, 2, 3, 4, 5]), contact=False, maxel=30 if big else 14, maxsteps=20 if big else 8, fields=["displacement", "velocity"] + (["acceleration"] if rng.random() < 0.3 else []))
        if c["bcs"]:
            break
    c["freq"] = rng.choice([1, 1, 2, 3])
    return {"case": c, "sched": K.gen_sched(rng, c["nranks"])}


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, r = K.run_par(ctx, F, "par", spec["sched"])
    K.expect_ok(r, "run")
    outs = K.read_all(c, d)
    m = F.m
    K.history(c, outs, "run")
    sets = {C.nsname(s): s for s in m.ns}
    nidx = {int(g): k for k, g in enumerate(m.ids)}
    shared = {}
    n = 0
    dt = (c["t1"] - c["t0"]) / c["nsteps"]
    for rk, q in enumerate(outs):
        loc = {nidx[int(g)]: i for i, g in enumerate(q.ids)}
        for j in loc:
            shared[j] = shared.get(j, 0) + 1
        for s, step in enumerate(C.steps_of(c)):
            t = c["t0"]
            for _ in range(step):
                t += dt
            for bc in c["bcs"]:
                name = {"initial_velocity": "velocity", "prescribed_velocity": "velocity", "prescribed_displacement": "displacement"}[bc["type"]] + "_" + "xyz"[bc["axis"]]
                if bc["type"] == "initial_velocity" and s > 0:
                    continue
                if bc["type"] == "prescribed_displacement" and step == 0:
                    continue
                vals = q.node(name, s)
                held = set(j for b in c["bcs"] if b["type"] == "prescribed_velocity" and b["axis"] == bc["axis"] and bc["type"] == "initial_velocity" for j in sets[b["set"]]["nodes"])
                for j in sets[bc["set"]]["nodes"]:
                    if j in loc and j not in held:       # a prescribed velocity holds from the start
                        w, err = expr.value(bc["val"], m.x[j], t)
                        u = float(vals[loc[j]])
                        was = abs(expr.value(bc["val"], m.x[j], t - dt)[0]) if bc["type"] == "prescribed_displacement" else 0.0   # a displacement is reached from the last one
                        if not abs(u - w) <= 1e3 * err + 1e-11 * (abs(w) + was) + 1e-300:
                            raise K.V(bc["type"], "%s of node %d on rank %d at output %d (t=%r) is %r, prescribed %r" % (name, m.ids[j], rk, s, t, u, w))
                        n += 1
    ref = R.Ref(c, m)
    hist = ref.run()
    K.compare_ref(c, outs, ref, hist, K.Tol(c, ref, hist), "run")
    con = set(j for bc in c["bcs"] for j in sets[bc["set"]]["nodes"])
    sh = sum(1 for j in con if shared.get(j, 0) > 1)
    return {"nontrivial": sh > 0, "probes": {"prescribed values checked": n, "constrained nodes shared by ranks": sh, "sets without distribution factors": sum(1 for s in m.ns if not s["df"]), "runs from a later start time": int(c["t0"] > 0)}}
