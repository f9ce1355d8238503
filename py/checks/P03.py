"""Replicas of a shared node never diverge."""
import numpy as np

import case as C
import common as K

ID = "P03"
LEVEL = "exploration"
RULE = ("a random problem split over 2-5 ranks (biased to splits where many ranks share nodes), all nodal fields written, run under one random schedule; at every output all copies of every node are compared "
        "bit for bit; non-trivial: at least one shared node and motion")
ASSUME = ["the message layer gives every member of a reduction the same bits (every MPI implementation in use does)"]


def gen(rng, idx, tier):
    big = tier == "thorough" and rng.random() < 0.3
    c = C.gen_case(rng, nranks=rng.choice([2, 3, 3, 4, 5]) if not big else rng.randint(2, 12), contact=rng.random() < 0.1, maxel=40 if big else 16, maxsteps=60 if big else rng.choice([10, 10, 25]), fields=C.NODE_FIELDS)
    c["freq"] = rng.choice([1, 1, 1, 2, 5])
    return {"case": c, "sched": K.gen_sched(rng, c["nranks"]), "fold": rng.choice([0, 1])}


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, r = K.run_par(ctx, F, "par", spec["sched"], fold=spec["fold"])
    K.expect_ok(r, "run")
    outs = K.read_all(c, d)
    n = K.replicas(outs)
    return {"nontrivial": n > 0 and bool(c["bcs"]), "probes": {"replica values compared": n}}
