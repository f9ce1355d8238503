"""Results do not depend on the schedule and are bitwise reproducible."""
import case as C
import common as K

ID = "P02"
LEVEL = "exploration"
RULE = ("a random problem split over 1-5 ranks, run under 3-4 different random schedules (delays, completion orders, false polls, blocking sends, slow ranks, other contents of fresh memory, receive buffers "
        "poisoned until their transfer completes), each result file compared bit for bit; non-trivial: at least two of the runs had different interleavings")
ASSUME = ["the message layer reduces in one fixed order per trial (the standard allows any, the property is about the code, not the MPI library)"]


def gen(rng, idx, tier):
    big = tier == "thorough" and rng.random() < 0.3
    c = C.gen_case(rng, nranks=rng.choice([1, 2, 3, 3, 4, 4, 5]) if not big else rng.randint(2, 10), contact=rng.random() < 0.2, maxel=30 if big else 16, maxsteps=20 if big else 8)
    n = 4 if tier == "quick" else rng.choice([4, 6, 8])
    sch = [{"seed": 1, "profile": [0] * 6}] + [K.gen_sched(rng, c["nranks"]) for _ in range(n - 1)]
    for s in sch[1:]:
        if "perturb" not in s:
            s["perturb"] = rng.randrange(1, 1 << 16)
    return {"case": c, "scheds": sch, "fold": rng.choice([0, 1])}


def shrinks(spec):
    import driver
    if len(spec["scheds"]) > 2:
        for i in range(1, len(spec["scheds"])):
            yield dict(spec, scheds=spec["scheds"][:i] + spec["scheds"][i + 1:])
    yield from driver.default_shrinks(spec)


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    first = None
    for i, s in enumerate(spec["scheds"]):
        d, r = K.run_par(ctx, F, "s%d" % i, s, fold=spec["fold"])
        K.expect_ok(r, "schedule %d" % i)
        x = K.canon_all(c, d) + K.contact_canon(c, d)
        if first is None:
            first = x
        else:
            K.same(first, x, "schedule dependent", "schedule 0 and schedule %d" % i)
    return {"nontrivial": len(set(x[2] for x in ctx.log)) > 1, "probes": {"files compared": len(first) * len(spec["scheds"]), "contact files": len(first) - c["nranks"]}}
