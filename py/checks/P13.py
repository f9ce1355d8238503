"""Messages and gathers deliver each payload exactly once, intact."""
import common as K
import sim

ID = "P13"
LEVEL = "exploration"
RULE = ("a random program of 5-60 operations of the messaging layer (send and the three forms of receive, packed exchange of eight nested types with reused buffers, gather, scatter, all forms of allgather and gather, broadcast, gatherv/scatterv, "
        "catenation, printing, id renumbering, the same within duplicated communicators and random subgroups) with random roots, tags and payload lengths (0 to 400, at times to 30 000, unequal), run on 1-8 ranks under adversarial schedules; every rank knows all payloads "
        "and compares what it gets; no message may be left over; non-trivial: more than one rank")
ASSUME = ["sends and receives are issued in one global order, as a correct caller with blocking sends has to", "payloads are shorter than 2^31"]


def gen(rng, idx, tier):
    n = rng.choice([1, 2, 2, 3, 4, 5, 7, 8]) if tier == "quick" else rng.randint(1, 16)
    if rng.random() < 0.02:
        n = rng.choice([17, 33, 40, 65])
    return {"nranks": n, "script": rng.randrange(1 << 60), "ops": rng.choice([5, 15, 30, 60]), "sched": K.gen_sched(rng, n)}


def shrinks(spec):
    k = spec["ops"]
    for m in (1, k // 2, k - 1):
        if 1 <= m < k:
            yield dict(spec, ops=m)
    if spec["sched"].get("slow"):
        yield dict(spec, sched=dict(spec["sched"], slow=None))


def trial(ctx, spec):
    n = spec["nranks"]
    sc = dict(spec["sched"], nranks=n, prog="msg", args=[str(spec["script"]), str(spec["ops"])], rpclimit=2000000)
    r = ctx.run("msg", ctx.dir("w"), sc)
    if any(q["rc"] == 77 for q in r["ranks"]):
        raise sim.SimError("the harness for the messaging layer does not compile against this tree")
    for t in r["notes"]:
        if " wrong " in t:
            raise K.V("wrong payload", t)
    K.expect_ok(r, "message program on %d ranks" % n)
    c = [t for t in r["notes"] if " checked " in t]
    if len(c) != n:
        raise K.V("failed", "only %d of %d ranks reported" % (len(c), n))
    return {"nontrivial": n > 1, "probes": {"results compared": sum(int(t.split()[-1]) for t in c), "blocked sends": r["rdv"], "messages": r["msgs"]}}
