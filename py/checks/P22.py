"""The layout of the deck is immaterial: only what it says counts."""
import random

import case as C
import common as K

ID = "P22"
LEVEL = "exploration"
RULE = ("the deck of a random problem split over 1-4 ranks is written anew 2-4 times in other layouts (lines in another order, boundary conditions keeping theirs; other blanks and tabs around keys, values and words; comment lines, indented comments, "
        "comments behind a value, empty lines and lines of blanks; no newline at the end; defaults spelt out; the same numbers in other notation) and run under another random schedule with short reads of the deck and the mesh: "
        "every result file must be the same bit for bit; non-trivial: at least two layouts")
ASSUME = ["a layout separates words by blanks and ends lines with a newline, as the documentation shows (no tabs inside values, no carriage returns)", "boundary conditions keep their order, which decides where they overlap"]
KINDS = ["order", "blanks", "comments", "empty", "defaults", "numbers", "nonl"]


def gen(rng, idx, tier):
    c = C.gen_case(rng, nranks=rng.choice([1, 2, 2, 3, 4]), contact=rng.random() < 0.2, maxel=8, maxsteps=4)
    if rng.random() < 0.5:      # results not named after the mesh
        c["gbase"] = rng.choice(["mesh", "part.1", "x", c["base"] + "2"])
    n = rng.randint(2, 4)
    return {"case": c, "sched": K.gen_sched(rng, c["nranks"]),
            "layouts": [{"seed": rng.randrange(1 << 30), "kinds": sorted(rng.sample(KINDS, rng.randint(1, 4))), "sched": K.gen_sched(rng, c["nranks"]),
                         "short": [[rng.randrange(c["nranks"]), rng.randrange(12), "SHORT", 0] for _ in range(rng.randint(0, 3))]} for _ in range(n)]}


def shrinks(spec):
    import driver
    if len(spec["layouts"]) > 1:
        for l in spec["layouts"]:
            yield dict(spec, layouts=[l])
    for i, l in enumerate(spec["layouts"]):
        for k in l["kinds"]:
            if len(l["kinds"]) > 1:
                yield dict(spec, layouts=spec["layouts"][:i] + [dict(l, kinds=[x for x in l["kinds"] if x != k])] + spec["layouts"][i + 1:])
        if l["short"]:
            yield dict(spec, layouts=spec["layouts"][:i] + [dict(l, short=[])] + spec["layouts"][i + 1:])
    yield from driver.default_shrinks(spec)


def numbers(w, r):
    try:
        v = float(w)
    except ValueError:
        return w
    if w.isdigit():
        return w
    q = r.choice(["%.17e", "%.17g", "%.25f", "%.17E"])
    s = q % v
    return s if float(s) == v else w


def layout(deck, kinds, seed):
    r = random.Random(seed)
    L = [l for l in deck.split("\n") if l.strip() and not l.startswith("#")]
    if "defaults" in kinds:
        keys = [l.split(":")[0] for l in L]
        for k, v in (("time integration scheme", "explicit"), ("initial time", "0.0"), ("use two level mesh decomposition", r.choice(["false", "no", "off"])), ("write timing data file", r.choice(["false", "No", "OFF"]))):
            if k not in keys and r.random() < 0.7:
                L.append(k + ": " + v)
        L = [l.replace("file: true", "file: " + r.choice(["TRUE", "yes", "On"])) for l in L]
    if "order" in kinds:
        bc = [l for l in L if l.startswith("boundary condition")]
        r.shuffle(L)
        it = iter(bc)
        L = [next(it) if l.startswith("boundary condition") else l for l in L]
    out = []
    for l in L:
        key, val = l.split(":", 1)
        val = val.strip()
        quoted = '"' in val
        words = val.split(" ") if not quoted else val[:val.index('"')].split() + [val[val.index('"'):]]
        if "numbers" in kinds and not key.startswith(("genesis", "exodus")):
            words = [numbers(w, r) for w in words]
        if "blanks" in kinds:
            t = lambda n: "".join(r.choice(" \t") for _ in range(r.randint(0, n)))
            s = lambda n: " " * r.randint(0, n)
            l = t(3) + key + s(2) + ":" + s(3) + words[0] + "".join(" " + s(2) + w for w in words[1:]) + t(3)
        else:
            l = key + ": " + " ".join(words)
        if "comments" in kinds:
            if r.random() < 0.3:
                out.append(r.choice(["# ", "#", "  # ", "\t# ", "##"]) + r.choice(["", "a comment", "final time: 3.0", 'x "y" : z']))
            if r.random() < 0.3:
                l += r.choice([" # ", "#", "\t#"]) + r.choice(["", "a comment", "final time: 3.0"])
        if "empty" in kinds and r.random() < 0.4:
            out.append(r.choice(["", "", " ", "\t", "  \t "]))
        out.append(l)
    return "\n".join(out) + ("" if "nonl" in kinds else "\n")


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    plain = F.deck.decode()
    d, r = K.run_par(ctx, F, "plain", spec["sched"])
    K.expect_ok(r, "run with the plain deck")
    first = K.canon_all(c, d) + K.contact_canon(c, d)
    probes = {}
    for i, l in enumerate(spec["layouts"]):
        F.deck = layout(plain, l["kinds"], l["seed"]).encode()
        d, r = K.run_par(ctx, F, "l%d" % i, l["sched"], iofaults=l["short"])
        p = K.problem_of_run(r)
        if p:
            raise K.V("layout refused", "deck in another layout (%s): %s" % (" ".join(l["kinds"]), p))
        K.same(first, K.canon_all(c, d) + K.contact_canon(c, d), "layout dependent", "the plain deck and layout %d (%s)" % (i, " ".join(l["kinds"])))
        for k in l["kinds"]:
            probes["layouts: " + k] = probes.get("layouts: " + k, 0) + 1
    return {"nontrivial": len(spec["layouts"]) > 1, "probes": probes}
