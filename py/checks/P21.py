"""A run of any length needs bounded memory, files and message-layer objects."""
import case as C
import common as K

ID = "P21"
LEVEL = "exploration"
RULE = ("a random problem split over 1-4 ranks, run under one kind of schedule for N and for 3N to 4N steps of the same simulated time (N from 24 to 50, up to 150 when thorough), with the live bytes, open files and communicators of each rank sampled at every 8th message-layer call or output operation: "
        "the most bytes, open files and communicators in the second half of the long run may not exceed those of the short run by more than an allowance (1 KB and 96 bytes for each further step with contact, 0, 0); a request that is never completed or freed shows as bytes; "
        "non-trivial: at least one message-layer call or output operation in each step")
ASSUME = ["an unbounded need grows by at least 1 KB in 48 to 150 (thorough: 450) steps, outputs, reductions or contact exchanges",
          "both runs cover the same simulated time, so that the motion and the contact pattern are the same"]
ALLOW = 1024
RECORD = 96  # the code keeps one small record of each step with contact


def gen(rng, idx, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    big = tier == "thorough" and rng.random() < 0.4
    c = C.gen_case(rng, nranks=n, contact=rng.random() < 0.35, maxel=6 if not big else 16)
    steps = rng.randint(24, 50) if not big else rng.randint(50, 150)
    c["nsteps"] = steps
    c["freq"] = rng.choice([1, 1, 2, 5, 1000])
    c["timing"] = rng.random() < 0.5
    s = K.gen_sched(rng, n)
    return {"case": c, "sched": s, "factor": rng.choice([3, 4]), "seed2": rng.randrange(1 << 30)}


def peak(q):
    m = q["meter"]
    h = m[len(m) // 2:]
    return [max(x[i] for x in h) for i in range(3)]


def trial(ctx, spec):
    c = spec["case"]
    runs = []
    # the first run only brings the server's own heap into its steady state
    for name, f, seed in (("warm", 1, spec["sched"]["seed"]), ("short", 1, spec["sched"]["seed"]), ("long", spec["factor"], spec["seed2"])):
        c2 = dict(c, nsteps=c["nsteps"] * f)
        F = C.Files(c2, ctx.dir("w" + name))
        d, r = K.run_par(ctx, F, name, dict(spec["sched"], seed=seed), meter=1)
        K.expect_ok(r, "%s run" % name)
        runs.append(r)
    worst = 0
    for k in range(c["nranks"]):
        (b0, f0, m0), (b1, f1, m1) = peak(runs[1]["ranks"][k]), peak(runs[2]["ranks"][k])
        bw = peak(runs[0]["ranks"][k])[0]
        n0, n1 = runs[1]["ranks"][k]["nmeter"], runs[2]["ranks"][k]["nmeter"]
        # the noise between two equal runs does not count
        g = b1 - max(b0, bw)
        worst = max(worst, g)
        more = c["nsteps"] * (spec["factor"] - 1)
        allow = ALLOW + (RECORD * more if c["contact"] else 0)
        if g > allow:
            raise K.V("memory grows", "rank %d needs more memory the longer the run: %d steps more, over %d bytes more" % (k, more, allow))
        if f1 > f0:
            raise K.V("open files grow", "rank %d holds more files the longer the run: %d open instead of %d after %d steps more" % (k, f1, f0, more))
        if m1 > m0:
            raise K.V("communicators grow", "rank %d holds more communicators the longer the run: %d instead of %d after %d steps more" % (k, m1, m0, more))
    n = [sum(q["nmeter"] for q in x["ranks"]) for x in runs]
    return {"nontrivial": 8 * (n[2] - n[1]) >= c["nsteps"] * c["nranks"], "probes": {"samples of memory and files": sum(n), "steps run": c["nsteps"] * (2 + spec["factor"]), "steps with contact": c["nsteps"] * (2 + spec["factor"]) if c["contact"] else 0}}
