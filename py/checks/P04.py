"""The sum over shared entities is exact, complete and touches nothing else."""
import json
import os

import common as K
import sim

ID = "P04"
LEVEL = "exploration"
RULE = ("random sharing patterns (mesh-like, all share all, chains, stars, random subsets, ranks that share nothing or hold nothing, up to 64 groups of ranks), id numberings (dense, sparse, up to 2^31-1, shuffled per rank) and contents "
        "(exactly summable numbers in shared entries, anything in the others), 1-3 communicators alive at once, many successive sums of 1, 2 or 3 components through the array and the look-up interface (Tpetra back-end: 1 component or the model's dimension); "
        "every entry on every rank is compared with the single-copy sum, guard zones around the field are checked, and so is the list of shared nodes and their lowest holder; adversarial schedules as in P05; non-trivial: a shared entry was summed")
ASSUME = ["an id occurs at most once per rank", "with the Tpetra back-end a field has one component or as many as the model has dimensions (all the code supports)"]


def pattern(rng, n, tpetra):
    """Lists of ids per rank."""
    kind = rng.choice(["random", "random", "mesh", "all", "chain", "star", "none", "groups", "pairs"])
    m = rng.choice([1, 3, 8, 20, 50])
    if n <= 4 and rng.random() < 0.04:      # long messages
        m = rng.choice([400, 2000, 5000])
    own = [[] for _ in range(n)]
    if kind == "random":
        p = rng.choice([0.1, 0.3, 0.6, 0.9])
        for i in range(m * 2):
            h = [r for r in range(n) if rng.random() < p] or [rng.randrange(n)]
            for r in h:
                own[r].append(i)
    elif kind == "mesh":
        w = rng.choice([1, 2, 3])
        for i in range(n * m + 1):
            for r in range(n):
                if r * m - (w - 1) <= i <= (r + 1) * m:
                    own[r].append(i)
    elif kind == "all":
        for r in range(n):
            own[r] = list(range(m))
    elif kind == "chain":
        for r in range(n):
            own[r] = [r, r + 1] + [1000 + r * m + k for k in range(m)]
    elif kind == "star":
        c = rng.randrange(n)
        for r in range(n):
            if r != c:
                own[r] += list(range(r * m, (r + 1) * m))
                own[c] += [i for i in own[r] if rng.random() < 0.5]
    elif kind == "none":
        for r in range(n):
            own[r] = list(range(r * m, (r + 1) * m))
    elif kind == "groups":
        k = 0
        for _ in range(rng.choice([2, 8, 24])):
            h = rng.sample(range(n), rng.randint(1, n))
            for _ in range(rng.randint(1, 4)):
                for r in h:
                    own[r].append(k)
                k += 1
    else:
        k = 0
        for a in range(n):
            for b in range(a + 1, n):
                own[a].append(k)
                own[b].append(k)
                k += 1
        own[rng.randrange(n)].append(k)
    if rng.random() < 0.2:
        own[rng.randrange(n)] = []
    if not any(own):
        own[0] = [0]
    top = max(max(o) for o in own if o) + 1
    idm = rng.choice(["seq", "seq", "sparse", "perm", "huge"])
    if idm == "seq":
        t = list(range(top))
    elif idm == "perm":
        t = rng.sample(range(top), top)
    else:
        t = sorted(rng.sample(range(top * 50 if idm == "sparse" else 2147483647), top))
        if rng.random() < 0.5:
            rng.shuffle(t)
    order = rng.choice(["sorted", "shuffled", "reversed"])
    r = []
    for o in own:
        o = [t[i] for i in o]
        o.sort(reverse=order == "reversed")
        if order == "shuffled":
            rng.shuffle(o)
        r.append(o)
    return r


def gen(rng, idx, tier):
    n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8]) if tier == "quick" else rng.randint(1, 12)
    if rng.random() < 0.02:
        n = rng.choice([17, 33, 40, 65])
    tp = int(rng.random() < 0.4)
    dim = rng.choice([3, 3, 3, 2])
    nc = rng.choice([1, 1, 1, 2, 3])
    sums = []
    for _ in range(rng.choice([1, 3, 8, 25])):
        sums.append([rng.randrange(nc), rng.choice([1, dim]) if tp else rng.randint(1, 3), int(rng.random() < 0.4)])
    return {"nranks": n, "tpetra": tp, "dim": dim, "vseed": rng.randrange(1 << 30), "ids": [pattern(rng, n, tp) for _ in range(nc)], "sums": sums, "sched": K.gen_sched(rng, n)}


def shrinks(spec):
    s = spec["sums"]
    n = len(s)
    for a, b in ((0, n // 2), (n // 2, n)):
        if b > a and b - a < n:
            yield dict(spec, sums=s[:a] + s[b:])
    for i in range(n):
        if n > 1:
            yield dict(spec, sums=s[:i] + s[i + 1:])
    if len(spec["ids"]) > 1:
        for c in range(len(spec["ids"])):
            k = [[x[0] - (x[0] > c), x[1], x[2]] for x in s if x[0] != c]
            if k:
                yield dict(spec, ids=spec["ids"][:c] + spec["ids"][c + 1:], sums=k)
    for c, p in enumerate(spec["ids"]):
        u = sorted(set(i for o in p for i in o))
        if len(u) > 1:
            h = len(u) // 2
            for drop in ([set(u[:h]), set(u[h:])] if h > 1 else []) + [set([x]) for x in u[:40]]:
                q = [[i for i in o if i not in drop] for o in p]
                yield dict(spec, ids=spec["ids"][:c] + [q] + spec["ids"][c + 1:])
    if spec["sched"].get("slow"):
        yield dict(spec, sched=dict(spec["sched"], slow=None))


def trial(ctx, spec):
    d = ctx.dir("w")
    n = spec["nranks"]
    L = ["%d %d %d %d %d %d" % (spec["tpetra"], spec["dim"], n, len(spec["sums"]), len(spec["ids"]), spec["vseed"])]
    for p in spec["ids"]:
        for o in p:
            L.append("%d %s" % (len(o), " ".join(map(str, o))))
    for s in spec["sums"]:
        L.append("%d %d %d" % tuple(s))
    with open(os.path.join(d, "sums"), "w") as f:
        f.write("\n".join(L) + "\n")
    sc = dict(spec["sched"], nranks=n, prog="vecred", args=["sums"], rpclimit=2000000)
    r = ctx.run("sum", d, sc)
    if any(q["rc"] == 77 for q in r["ranks"]):
        raise sim.SimError("the harness for VectorCommunicator does not compile against this tree")
    for t in r["notes"]:
        if " wrong " in t:
            raise K.V("wrong sum", t)
    K.expect_ok(r, "sums on %d ranks" % n)
    c = [t for t in r["notes"] if " checked " in t]
    if len(c) != n:
        raise K.V("failed", "only %d of %d ranks reported" % (len(c), n))
    tot = sum(int(t.split()[-2]) for t in c)
    sh = sum(int(t.split()[-1]) for t in c)
    return {"nontrivial": sh > 0, "probes": {"entries compared": tot, "shared entries compared": sh, "sums with Tpetra": len(spec["sums"]) if spec["tpetra"] else 0}}
