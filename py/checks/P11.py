"""Mass and momentum are conserved over the whole set of ranks."""
import numpy as np

import case as C
import common as K
import out as O
import ref as R

ID = "P11"
LEVEL = "exploration"
RULE = ("a random free-flying body (initial velocities only) or a constrained one, split over 2-5 ranks, under a random schedule and, in a third of the trials, with a rank killed at a random communication step; over the distinct "
        "nodes of all ranks: mass adds up to density times volume, internal forces to zero, linear momentum and (rotation-invariant material) angular momentum stay what they were; non-trivial: shared nodes and non-zero momentum or force")
ASSUME = ["round-off: 1e-11 of the sum of absolute contributions per step"]


def gen(rng, idx, tier):
    big = tier == "thorough" and rng.random() < 0.3
    free = rng.random() < 0.7
    c = C.gen_case(rng, nranks=rng.choice([2, 2, 3, 4, 5]), contact=False, maxel=40 if big else 16, maxsteps=30 if big else 10, fields=C.NODE_FIELDS + ["volume"],
                   kinds=("initial_velocity",) if free else ("initial_velocity", "prescribed_velocity", "prescribed_displacement"), mat=rng.choice(["neohookean", "neohookean", "mixed"]))
    c["freq"] = rng.choice([1, 1, 2])
    sp = {"case": c, "sched": K.gen_sched(rng, c["nranks"]), "kills": []}
    if rng.random() < 0.33:
        sp["kills"] = [[rng.randrange(c["nranks"]), int(10 ** rng.uniform(1.2, 3.0))]]
    return sp


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, r = K.run_par(ctx, F, "par", spec["sched"], kills=spec["kills"])
    killed = any(q["killed"] or q["fkill"] for q in r["ranks"])
    if not killed:
        K.expect_ok(r, "run")
    m = F.m
    if killed:
        outs = []
        for p in K.outfiles(c, d):
            try:
                outs.append(O.Out(p))
            except (OSError, O.Bad, KeyError):
                return {"nontrivial": False, "probes": {"killed before the first output": 1}}
        ns = min(K.complete_steps(q) for q in outs)
    else:
        outs = K.read_all(c, d)
        K.history(c, outs, "run")
        ns = outs[0].nsteps
    ref = R.Ref(c, m)
    M = float((ref.rho * ref.vol0).sum())
    free = all(b["type"] == "initial_velocity" for b in c["bcs"])
    neo = all(c["mats"][c["blocks"][b]["mat"]]["kind"] == "neohookean" for b in set(int(x) for x in m.blk))
    Kmod = max(x["K"] for x in c["mats"]) * 2.5
    h = max(b["h"] for b in c["bodies"])
    fl = 1e-13 * Kmod * h * h * m.nn * (1 + np.abs(m.x).max() / h)   # round-off of the sum of all nodal forces
    T = (c["t1"] - c["t0"])
    xs = np.abs(m.x).max() + h
    p0 = l0 = None
    mag = 0.0
    for s in range(ns):
        x = K.distinct(outs, s)
        if len(x["id"]) != m.nn:
            raise K.V("missing nodes", "the ranks together hold %d distinct nodes, the problem has %d" % (len(x["id"]), m.nn))
        mass = x["lumped_mass"]
        if not abs(mass.sum() - M) <= 1e-11 * M:
            raise K.V("mass", "the nodal masses of the distinct nodes add up to %r at output %d, density times volume is %r" % (float(mass.sum()), s, M))
        f = x["internal_force"]
        fs = np.abs(f.sum(axis=0)).max()
        fa = np.abs(f).sum()
        if not fs <= 1e-11 * fa + fl:
            raise K.V("force", "the internal forces of the distinct nodes add up to %r at output %d (sum of magnitudes %r)" % (f.sum(axis=0).tolist(), s, float(fa)))
        p = (mass[:, None] * x["velocity"]).sum(axis=0)
        P = float(np.abs(mass[:, None] * x["velocity"]).sum())
        mag = max(mag, P, float(fa))
        pos = np.stack([m.x[K.nindex(m)[int(g)]] for g in x["id"]]) + x["displacement"]
        L = np.cross(pos, mass[:, None] * x["velocity"]).sum(axis=0)
        La = float(np.abs(np.cross(pos, mass[:, None] * x["velocity"])).sum())
        if free:
            if p0 is None:
                p0, l0, Pm, Lm = p, L, P, La
            Pm, Lm = max(Pm, P), max(Lm, La)
            if not np.abs(p - p0).max() <= 1e-11 * Pm + 2 * fl * T:
                raise K.V("momentum", "total linear momentum changed from %s to %s by output %d" % (p0.tolist(), p.tolist(), s))
            if neo and not np.abs(L - l0).max() <= 1e-10 * Lm + 1e-11 * fa * xs * T + 2 * fl * T * xs:
                raise K.V("angular momentum", "total angular momentum changed from %s to %s by output %d" % (l0.tolist(), L.tolist(), s))
    return {"nontrivial": mag > 0 and K.shared_nodes(F) > 0 and ns > 0, "probes": {"outputs checked": ns, "free bodies": int(free), "angular momentum checked": int(free and neo), "killed runs checked": int(killed), "outputs of killed runs": ns if killed else 0}}
