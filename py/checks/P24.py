"""What a run reports about itself is true, and reported once."""
import itertools
import os
import re

import case as C
import common as K
import faults as X
import out as O
import sim
from P07 import files

ID = "P24"
LEVEL = "fault_enumeration"
RULE = ("a random problem is run under a random schedule and the text it prints is compared with the input: numbers of ranks, nodes, elements and blocks, requested step, progress from 0 to 100 %, times; each once and by one rank. Then it is run "
        "again with ranks killed, or file operations failing, at random points (half of them near the end): every percentage printed before the end must be backed by complete output steps in the files of the rank that printed it, and no run that "
        "is refused or dies at the start reports progress; non-trivial: more than one rank, or a run interrupted after it reported progress")
ASSUME = ["a killed process loses nothing it had handed to the kernel", "the clocks of a rank do not go backwards"]


def gen(rng, idx, tier):
    c = C.gen_case(rng, nranks=rng.choice([1, 1, 2, 2, 3, 4, 6, 11]), contact=rng.random() < 0.15, maxel=14, maxsteps=rng.choice([3, 12, 25]))
    c["freq"] = rng.choice([0, 1, 1, 1, 2, 3, c["nsteps"]])
    if c["contact"]:
        c["contact"]["vis"] = rng.random() < 0.7
    c["timing"] = rng.random() < 0.4
    picks = []
    for _ in range(7):
        picks.append({"sched": K.gen_sched(rng, c["nranks"]), "rank": 0 if rng.random() < 0.7 else rng.randrange(c["nranks"]), "u": rng.random() if rng.random() < 0.4 else 1 - 0.15 * rng.random() ** 2,
                      "k": rng.random(), "how": rng.choice(["rpc", "kill", "kill", "kill", "eio", "enospc"])})
    return {"case": c, "sched": K.gen_sched(rng, c["nranks"]), "picks": picks}


def shrinks(spec):
    import driver
    if len(spec["picks"]) > 1:
        for p in spec["picks"]:
            yield dict(spec, picks=[p])
    if spec["picks"]:
        yield dict(spec, picks=[])
    yield from driver.default_shrinks(spec)


def percents(t):
    return [int(q) for q in re.findall(r"(\d+)% complete", t)]


def once(texts, pat, want, what, count=1, ok=None):
    """The pattern's number is printed exactly so often over all ranks, and is the wanted one."""
    got = [(r, q) for r, t in enumerate(texts) for q in re.findall(pat, t)]
    if len(got) != count:
        raise K.V("printed", "%s is printed %d times, expected %d" % (what, len(got), count))
    for r, q in got:
        if not (ok or (lambda a: a == want))(float(q)):
            raise K.V("untrue", "rank %d reports %s %s, expected %r" % (r, what, q, want))


def full_report(c, m, texts):
    n = c["nranks"]
    N = r"\s*[=:]\s*([-+.\deEinfa]+)"
    once(texts, r"-- Number of ranks" + N, n, "the number of ranks in the heading")
    once(texts, r"Number of Ranks" + N, n, "the number of ranks")
    once(texts, r"Number of Global Blocks" + N, len(c["blocks"]), "the number of blocks")
    once(texts, r"Number of Nodes" + N, m.nn, "the number of nodes", int(n == 1))
    once(texts, r"Number of Elements" + N, m.ne, "the number of elements", int(n == 1))
    dt = (c["t1"] - c["t0"]) / c["nsteps"]
    once(texts, r"User specified time step" + N, dt, "the time step", ok=lambda a: abs(a - dt) <= 2e-5 * dt)
    tot = []
    once(texts, r"Total step time" + N, None, "the total time", ok=lambda a: tot.append(a) or a >= 0)
    parts = [float(q) for t in texts for w in ("Update A, V, U", "Force", "Contact time", "Exodus Write") for q in re.findall(r"--- " + w + N, t)]
    if any(not a >= 0 for a in parts) or sum(parts) > tot[0] * (1 + 1e-4) + 1e-9:
        raise K.V("times", "the times reported, %r, do not fit into the total of %r" % (parts, tot[0]))
    p = [percents(t) for t in texts]
    if any(p[1:]):
        raise K.V("printed", "progress is reported by several ranks")
    progress(c, p[0], True)


def progress(c, p, whole):
    if any(a >= b for a, b in zip(p, p[1:])) or (p and p[0] != 0):
        raise K.V("progress", "the progress reported is %r" % p)
    if whole and (not p or p[-1] != 100):
        raise K.V("progress", "the progress reported is %r in a complete run" % p)
    can = set(100 * s // c["nsteps"] for s in range(c["nsteps"] + 1))
    if not set(p) <= can:
        raise K.V("progress", "the progress reported is %r in a run of %d steps" % (p, c["nsteps"]))


def backed(c, d, texts, what):
    """Every percentage stands for steps that are in the files."""
    seen = 0
    want = C.steps_of(c)
    for r, t in enumerate(texts):
        p = percents(t)
        progress(c, p, False)
        if not p:
            continue
        s = -(-p[-1] * c["nsteps"] // 100)       # at least so many steps are done
        need = sum(1 for w in want if w <= s)
        seen = max(seen, p[-1])
        for rk, cls, path in files(c, d):
            if rk != r:
                continue
            try:
                q = O.Out(path)
                have = K.complete_steps(q)
            except (FileNotFoundError, O.Bad, KeyError, IndexError, ValueError):
                have = 0
            if have < need:
                raise K.V("ahead", "%s: rank %d reported %d %%, which is %d of %d steps and %d output steps, but its %s file holds %d" % (what, r, p[-1], s, c["nsteps"], need, sim.CLS[cls], have))
    return seen


def timing_file(c, d, texts):
    """The timing report on file says what the printed one says."""
    l = sorted(x for x in os.listdir(d) if x.startswith("nimble_timing_data"))
    if len(l) != int(bool(c["timing"])):
        raise K.V("timing report", "%d timing files, expected %d" % (len(l), int(bool(c["timing"]))))
    for x in l:
        try:
            q = [float(a) for a in open(os.path.join(d, x)).read().split()]
        except ValueError:
            raise K.V("timing report", "the timing file holds words")
        P = [re.findall(w + r"\s*[=:]\s*([-+.\deE]+)", "\n".join(texts)) for w in ("Total step time", "--- Force", "Contact time", "Exodus Write")]
        P = [float(a[0]) if a else 0.0 for a in P]
        if len(q) != 6 or q[0] != c["nranks"] or any(abs(a - b) > 1e-4 * abs(b) + 1e-12 for a, b in zip(q[1:], P)):
            raise K.V("timing report", "the timing file holds %r, printed are %r on %d ranks" % (q, P, c["nranks"]))


def masked(t):
    """The text of a rank without the times in it."""
    a, b, z = t.partition("======== Timing data")
    return a + b + re.sub(r"(?m)([=:])\s*[-+.\deE]+$", r"\1", z)


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    probes = {"runs on one rank": int(c["nranks"] == 1)}
    zero = {"seed": 1, "profile": [0] * 6}
    d, base = K.run_par(ctx, F, "clean", zero, iolog=1)
    K.expect_ok(base, "fault-free run")
    T = lambda d: [sim.text(d, r, "out") for r in range(c["nranks"])]
    full_report(c, F.m, T(d))
    timing_file(c, d, T(d))
    first = [masked(t) for t in T(d)]
    d, r = K.run_par(ctx, F, "par", spec["sched"])
    K.expect_ok(r, "run")
    full_report(c, F.m, T(d))
    backed(c, d, T(d), "complete run")
    timing_file(c, d, T(d))
    for r, (a, b) in enumerate(zip(first, T(d))):
        b = masked(b)
        if a != b:
            x, y = next((x, y) for x, y in itertools.zip_longest(a.split("\n"), b.split("\n")) if x != y)
            raise K.V("schedule", "rank %d reports %r under one schedule and %r under another" % (r, x, y))
    o = X.ops(base, 0, (X.LOG,))
    if o and c["timing"]:
        p = spec["picks"][0] if spec["picks"] else {"u": 0.5, "k": 0.5, "sched": spec["sched"]}
        i = X.pick(o, p["k"])
        kind = X.pick({X.OPEN: ["EACCES", "ENOSPC", "EMFILE"], X.WRITE: ["EIO", "ENOSPC", "TORN_ENOSPC"]}.get(X.op(base, 0, i)[0], ["EIO"]), p["u"])
        what = "%s at file operation %d, on the timing file" % (kind, i)
        d, r = K.run_par(ctx, F, "t", p["sched"], iofaults=[[0, i, kind, 1]])
        if r["ok"]:
            full_report(c, F.m, T(d))
            try:
                timing_file(c, d, T(d))
            except K.V as e:
                said = "timing" in "".join(sim.text(d, r, "err") for r in range(c["nranks"])).lower()
                if not said:
                    raise K.V("timing report", "%s: %s, and the run succeeds without a word about it" % (what, e.text))
                probes["timing file failed and said so"] = 1
    seen = 0
    for j, p in enumerate(spec["picks"]):
        kw, rk = {}, p["rank"]
        o = X.ops(base, rk, (X.OUT, X.CONTACT))
        if p["how"] == "rpc" or not o:
            n = int(p["u"] * base["ranks"][rk]["nrpc"])
            kw["kills"] = [[rk, n]]
            what = "rank %d killed at communication step %d" % (rk, n)
        else:
            i = X.pick(o, p["u"])
            w = X.op(base, rk, i)[0] == X.WRITE
            kind = {"eio": "EIO", "enospc": "ENOSPC" if w else "EIO"}.get(p["how"]) or X.pick(["KILL_BEFORE", "KILL_AFTER"] + (["KILL_MID"] if w else []), p["k"])
            kw["iofaults"] = [[rk, i, kind, 0]]
            what = "rank %d: %s at file operation %d" % (rk, kind, i)
        d, r = K.run_par(ctx, F, "f%d" % j, p["sched"], **kw)
        if r["ok"]:
            full_report(c, F.m, T(d))
            continue
        b = backed(c, d, T(d), what)
        probes["interrupted runs"] = probes.get("interrupted runs", 0) + 1
        probes["interrupted after progress was reported"] = probes.get("interrupted after progress was reported", 0) + int(b > 0)
        seen = max(seen, b)
    return {"nontrivial": c["nranks"] > 1 or seen > 0, "probes": probes}
