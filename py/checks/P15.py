"""The wall clock has no influence on results."""
import glob
import os

import case as C
import common as K

ID = "P15"
LEVEL = "exploration"
RULE = ("a random problem is run once with well-behaved clocks and then several times with clocks of each rank that start anywhere (the epoch and far future included), run slow, fast or not at all, and jump forwards and backwards at "
        "random readings; results must be bit for bit the same, and the timing report must be written exactly once if the deck asks for it and never otherwise; non-trivial: a clock was read and disturbed")
ASSUME = ["all clocks the program reads go through libc or MPI_Wtime", "clocks stay between the years 1970 and 2262, the range of the 64-bit nanosecond count of std::chrono"]


def gen_clock(rng):
    j = []
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        j.append([rng.choice([rng.randrange(5), rng.randrange(60), rng.randrange(1000)]), rng.choice([-5e8, -3600.0, -1.0, -1e-3, 1e-3, 1.0, 86400.0, 5e8])])
    return {"base": rng.choice([0.0, 1.0, 1.7e9, 1.7e9, 2147483640.0, 4.2e9]), "drift": rng.choice([1.0, 1.0, 1e-6, 100.0, 1e6]), "freeze": int(rng.random() < 0.2), "jumps": j}


def gen(rng, idx, tier):
    c = C.gen_case(rng, contact=rng.random() < 0.2, maxel=8, maxsteps=8, timing=rng.random() < 0.6)
    return {"case": c, "picks": [{"sched": K.gen_sched(rng, c["nranks"]), "clocks": [gen_clock(rng) for _ in range(c["nranks"])]} for _ in range(4)]}


def shrinks(spec):
    import driver
    if len(spec["picks"]) > 1:
        for p in spec["picks"]:
            yield dict(spec, picks=[p])
    for p in spec["picks"]:
        for r, q in enumerate(p["clocks"]):
            for k, v in (("jumps", []), ("freeze", 0), ("drift", 1.0), ("base", 1.7e9)):
                if q[k] != v:
                    n = dict(p, clocks=[dict(z) for z in p["clocks"]])
                    n["clocks"][r][k] = v
                    yield dict(spec, picks=[n if z is p else z for z in spec["picks"]])
    yield from driver.default_shrinks(spec)


def reports(c, d, what):
    l = [p for p in glob.glob(os.path.join(d, "*.log"))]
    want = 1 if c["timing"] else 0
    if len(l) != want:
        raise K.V("timing report", "%s: %d timing reports, expected %d" % (what, len(l), want))
    for p in l:
        n = os.path.basename(p)
        if not n.startswith("nimble_timing_data_n%d_" % c["nranks"]):
            raise K.V("timing report", "%s: the timing report is called %s" % (what, n))
        if not open(p, errors="replace").read().strip():
            raise K.V("timing report", "%s: the timing report is empty" % what)


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, r = K.run_par(ctx, F, "clean", {"seed": 1, "profile": [0] * 6})
    K.expect_ok(r, "run with good clocks")
    ref = K.canon_all(c, d) + K.contact_canon(c, d)
    reports(c, d, "run with good clocks")
    K.history(c, K.read_all(c, d), "run with good clocks")
    probes, n = {}, 0
    for i, p in enumerate(spec["picks"]):
        d, r = K.run_par(ctx, F, "c%d" % i, p["sched"], clocks=p["clocks"])
        what = "run with disturbed clocks"
        K.expect_ok(r, what)
        K.same(ref, K.canon_all(c, d) + K.contact_canon(c, d), "clock shows", what)
        reports(c, d, what)
        k = sum(q["nclock"] for q in r["ranks"])
        n += k
        probes["clock readings"] = probes.get("clock readings", 0) + k
        probes["clock jumps met"] = probes.get("clock jumps met", 0) + sum(q["fclock"] for q in r["ranks"])
    return {"nontrivial": n > 0, "probes": probes}
