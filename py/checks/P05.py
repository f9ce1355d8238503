"""No deadlock, no livelock, no misuse of the message layer."""
import case as C
import common as K

ID = "P05"
LEVEL = "exploration"
RULE = ("a random problem (also with contact, contact visualisation, timing report, Tpetra start-up, empty shared sets) split over 1-8 ranks, run under one adversarial schedule: any send may block until matched, "
        "any collective may synchronise, completions come late, polls fail, ranks stall; the message layer checks every call (sequence, kind, root, size and communicator of collectives, unreceived messages, buffer reuse, "
        "unfinished requests) and every rank must end normally within a bounded number of steps; non-trivial: more than one rank")
ASSUME = ["bound: 2,000,000 scheduling steps per run, 12 s of processor time between two calls of a rank"]


def gen(rng, idx, tier):
    n = rng.choice([1, 2, 2, 3, 4, 5, 6, 8]) if tier == "quick" else rng.randint(1, 16)
    if rng.random() < 0.01:
        n = rng.choice([17, 33])
    c = C.gen_case(rng, nranks=n, contact=rng.random() < 0.4, maxel=24, maxsteps=6, timing=rng.random() < 0.4, tpetra=rng.random() < 0.5)
    s = {"seed": rng.randrange(1 << 40), "profile": rng.choice(K.PROFILES[1:]) if rng.random() < 0.6 else [rng.choice([0, 50, 300, 900]) for _ in range(6)]}
    if rng.random() < 0.4 and n > 1:
        s["slow"] = [rng.randrange(n), rng.choice([100, 10000, 1000000])]
    return {"case": c, "sched": s}


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, r = K.run_par(ctx, F, "par", spec["sched"], rpclimit=2000000)
    K.expect_ok(r, "run on %d ranks" % c["nranks"])
    for i, q in enumerate(r["ranks"]):
        if q["sig"] or q["rc"] or not q["finalized"]:
            raise K.V("failed", "rank %d did not end normally" % i)
    return {"nontrivial": c["nranks"] > 1, "probes": {"blocked sends": r["rdv"], "false polls": r["falsepolls"], "busy-wait polls": r["yields"], "receives with several candidates": r["anysrc"], "synchronising collectives": r["sync"]}}
