"""The output history is exactly the one requested and does not disturb the run."""
import numpy as np

import case as C
import common as K
import out as O

ID = "P09"
LEVEL = "exploration"
RULE = ("a random problem run with every state and every nodal field written, and again with random output frequency (0, 1, 2, more than the number of steps), random fields and random contact visualisation, under random "
        "schedules; the second history must have exactly the requested steps, the same times on all ranks, and bit for bit the values the first run had at those steps; non-trivial: more than one step and another frequency or other fields")
ASSUME = []


def gen(rng, idx, tier):
    big = tier == "thorough" and rng.random() < 0.3
    if rng.random() < 0.04:     # a long history of a small problem
        c = C.gen_case(rng, nranks=rng.choice([1, 2]), contact=rng.random() < 0.35, maxel=4, maxsteps=150, minsteps=90)
    else:
        c = C.gen_case(rng, nranks=rng.choice([1, 2, 3, 4]), contact=rng.random() < 0.35, maxel=30 if big else 12, maxsteps=40 if big else 14, minsteps=2)
    n = c["nsteps"]
    c["freq"] = rng.choice([0, 1, 2, 3, 4, 5, n - 1, n, n + 1, n + 7])
    full = C.NODE_FIELDS + C.ELEM_FIELDS + [f for f in c["fields"] if f.startswith("ipt")]
    v = {"freq": 1, "fields": full, "vis": rng.random() < 0.5}
    return {"case": c, "var": v, "sched": K.gen_sched(rng, c["nranks"]), "sched2": K.gen_sched(rng, c["nranks"]), "fold": rng.choice([0, 1])}


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, r = K.run_par(ctx, F, "asked", spec["sched"], fold=spec["fold"])
    K.expect_ok(r, "run")
    c2 = dict(c, freq=spec["var"]["freq"], fields=spec["var"]["fields"])
    if c["contact"]:
        c2["contact"] = dict(c["contact"], vis=spec["var"]["vis"])
    F.deck = C.deck_text(c2).encode()
    F.case = c2
    d2, r2 = K.run_par(ctx, F, "every", spec["sched2"], fold=spec["fold"])
    K.expect_ok(r2, "run with every state written")
    A, B = K.read_all(c, d), K.read_all(c2, d2)
    K.history(c, A, "asked for")
    K.history(c2, B, "every state")
    want = C.steps_of(c)
    n = 0
    for rk, (a, b) in enumerate(zip(A, B)):
        for i, s in enumerate(want):
            for name in a.nvars:
                if a.node(name, i).tobytes() != b.node(name, s).tobytes():
                    raise K.V("disturbed", "%s after step %d on rank %d depends on what else is written" % (name, s, rk))
                n += 1
            for name in a.evars:
                if a.elem(name, i) != b.elem(name, s):
                    raise K.V("disturbed", "%s after step %d on rank %d depends on what else is written" % (name, s, rk))
                n += 1
    for cc, dd in ((c, d), (c2, d2)):
        for p in K.contact_files(cc, dd):
            try:
                q = O.Out(p)
            except OSError:
                raise K.V("missing output", "no contact visualisation file")
            K.history_one(cc, q, "contact visualisation")
    return {"nontrivial": c["nsteps"] > 1 and (c["freq"] != 1 or c["fields"] != c2["fields"]), "probes": {"records compared": n, "contact visualisation": len(K.contact_files(c, d)) + len(K.contact_files(c2, d2)), "frequency zero": int(c["freq"] == 0)}}
