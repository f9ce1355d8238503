"""Parallel runs compute the same physics as the undecomposed model."""
import case as C
import common as K
import ref as R

ID = "P01"
LEVEL = "exploration"
RULE = ("a random hexahedral problem (grid, voids, blocks, materials, id numbering, node sets, boundary conditions, output fields) split at random over 2-5 ranks, run under one random schedule; "
        "every nodal and element value of every rank file is compared with the real code's undivided run and with an independent reference model; non-trivial: at least one node shared by ranks, and motion")
ASSUME = ["values agree to 1e-9 of the field's largest value plus the round-off of the quantities it is computed from", "hexahedra only (the only element the code has)"]


def gen(rng, idx, tier):
    big = tier == "thorough" and rng.random() < 0.3
    c = C.gen_case(rng, nranks=rng.choice([2, 2, 3, 3, 4, 5]) if not big else rng.randint(2, 12), contact=rng.random() < 0.12, maxel=40 if big else 18, maxsteps=25 if big else 10)
    return {"case": c, "sched": K.gen_sched(rng, c["nranks"])}


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, r = K.run_par(ctx, F, "par", spec["sched"])
    d1, r1 = K.run_one(ctx, F)
    K.expect_ok(r, "parallel run")
    K.expect_ok(r1, "undivided run")
    ref = R.Ref(c, F.m)
    hist = ref.run()
    tol = K.Tol(c, ref, hist)
    a, b = K.read_all(c, d), K.read_all(c, d1, one=True)
    K.compare_outs(a, b, tol, "parallel run")
    n = K.compare_ref(c, a, ref, hist, tol, "parallel run")
    K.compare_ref(c, b, ref, hist, tol, "undivided run")
    sh = K.shared_nodes(F)
    return {"nontrivial": sh > 0 and bool(c["bcs"]), "probes": {"values compared": n, "shared nodes": sh, "runs with contact": 1 if c["contact"] else 0, "tpetra runs": int(c["tpetra"]), "runs from a later start time": int(c["t0"] > 0)}}
