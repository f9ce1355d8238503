"""A run reads and writes exactly the files that its deck names."""
import os
import random
import re

import case as C
import common as K
import faults as X
import out as O
import sim

ID = "P23"
LEVEL = "exploration"
RULE = ("the mesh, result and contact files of a random problem split over 1-12 ranks are given names with dots, blanks, extensions inside the name, and directories, next to unrelated files with neighbouring names (other rank counts, other runs, the undivided mesh); "
        "run under a random schedule without a fault, then with a file fault, a kill or a missing directory: the deck, the mesh parts and all unrelated files must be left as they were, nothing but the result files named (and the timing report, if asked for) "
        "may appear, and without a fault all of these must, bit for bit those of the run with plain names; non-trivial: more than one rank or a name with a dot or directory")
ASSUME = ["mesh names end in .g and result names in .e, or have no extension of their own", "the directory of the results exists beforehand, unless its absence is the fault"]

GN = ["m.g", "m.g", "mesh.one.g", "a.east.g", "my.good.g", "x.e.g", "in/m.g", "in.gen/m.g", "./m.g", "in/run.1.g", "m", "gg.g", "e.g", "in.e/part.g", "in/../in/m.g", "x.g.g", "my model.g", "in dir/m 1.g"]
ON = ["m.e", "m.e", "result.1.e", "a.east.e", "my.good.e", "x.g.e", "res/m.e", "res.ext/m.e", "./m.e", "res/run.2.e", "o", "ee.e", "g.e", "res.g/out.e", "res.e/r.e", "x.e.e", "my results.e", "res dir/run 1.e", "a b"]
CN = ["m.contact.e", "contact.e", "contact.eval.e", "res/contact.e", "contact.good.e", "contact"]


def gen(rng, idx, tier):
    n = rng.choice([1, 2, 2, 3, 4, 5, 10, 11, 12])
    c = C.gen_case(rng, nranks=n, contact=rng.random() < 0.25, maxel=14, maxsteps=3)
    if c["contact"]:
        c["contact"]["vis"] = rng.random() < 0.8
    c["timing"] = rng.random() < 0.4
    return {"case": c, "g": rng.choice(GN), "o": rng.choice(ON), "c": rng.choice(CN), "deck": rng.choice(["m.in"] * 3 + ["my deck.in", "in/deck", "deck.1.g"]), "sched": K.gen_sched(rng, n), "sched2": K.gen_sched(rng, n),
            "decoys": rng.randrange(1 << 30), "fault": rng.choice(["none", "io", "io", "io", "kill", "kill", "dir"]), "u": rng.random(), "u2": rng.random(), "rank": rng.randrange(n), "sticky": int(rng.random() < 0.3)}


def shrinks(spec):
    import driver
    if spec["fault"] != "none":
        yield dict(spec, fault="none")
    for k, v in (("g", "m.g"), ("o", "m.e"), ("c", "m.contact.e"), ("deck", "m.in")):
        if spec.get(k, v) != v:
            yield dict(spec, **{k: v})
    yield from driver.default_shrinks(spec)


def strip(name, ext):
    return name[:-len(ext)] if name.endswith(ext) else name


def result_names(c, spec):
    r = [strip(spec["o"], ".e") + ".out.e" + C.suffix(c["nranks"], k) for k in range(c["nranks"])]
    if c["contact"] and c["contact"]["vis"]:
        r += [strip(spec["c"], ".e") + ".out.e" + C.suffix(c["nranks"], k) for k in range(c["nranks"])]
    return r


def mesh_names(c, spec):
    return [strip(spec["g"], ".g") + ".g" + C.suffix(c["nranks"], k) for k in range(c["nranks"])]


def decoys(c, spec):
    r = random.Random(spec["decoys"])
    b = os.path.basename
    n = c["nranks"]
    g, o = strip(spec["g"], ".g"), strip(spec["o"], ".e")
    L = []
    for s in (C.suffix(1, 0), C.suffix(n + 1, 0), C.suffix(n + 1, n), ".%d.%d" % (n, n), ".%d.%d" % (n + 10, n), ".%d" % n, ".%d.0%d" % (n, 0)):
        L += [g + ".g" + s, o + ".out.e" + s, o + ".e" + s, o.split(".")[0] + ".out.e" + s, g.split(".")[0] + ".g" + s, "contact.out.e" + s]
    L += ["nimble_timing_data_n%d_2001.log" % n, "m.in~", "core", "m.out.e", "m.e", "m.g", "tmp", b(o), b(g) + ".out.e", "m.out.e.lock", "m.out.e.bak", "m.out.e.tmp", "NimbleSM.log"]
    own = set(os.path.normpath(x) for x in result_names(c, spec) + mesh_names(c, spec) + [spec.get("deck", "m.in")])
    L = [x for x in L if os.path.normpath(x) not in own and not x.startswith("std") and os.path.basename(x) not in ("", ".", "..")]
    return {os.path.normpath(x): bytes(r.randrange(256) for _ in range(r.choice([0, 1, 50, 300]))) for x in r.sample(L, min(len(L), 8))}


def snap(d):
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            k = os.path.relpath(q, d)
            if k.startswith("std.") or k in ("scenario", "server.err"):
                continue
            r[k] = (open(q, "rb").read(), os.stat(q).st_mtime_ns)
    return r


def lay(ctx, F, name, spec, with_dirs=True):
    c = F.case
    d = ctx.dir(name)
    for x in [spec["g"], "in/x"] + ([spec["o"], spec["c"]] if with_dirs else []):
        os.makedirs(os.path.dirname(os.path.join(d, x)) or d, exist_ok=True)
    for x, data in zip(mesh_names(c, spec), F.mesh):
        open(os.path.join(d, x), "wb").write(data)
    t = F.deck.decode()
    t = re.sub(r"^genesis input file:.*", "genesis input file: " + spec["g"], t, flags=re.M)
    t = re.sub(r"^exodus output file:.*", "exodus output file: " + spec["o"], t, flags=re.M)
    t = re.sub(r"(?m)^(contact visualization:.* file_name) .*", r"\1 " + spec["c"], t)
    open(os.path.join(d, spec.get("deck", "m.in")), "w").write(t)
    for x, data in decoys(c, spec).items():
        q = os.path.join(d, x)
        if not os.path.isdir(os.path.dirname(q)) or os.path.exists(q):
            continue
        open(q, "wb").write(data)
    return d, snap(d)


def judge(c, spec, d, before, ok, what):
    after = snap(d)
    own = set(os.path.normpath(x) for x in result_names(c, spec))
    for x, v in before.items():
        if x not in after:
            raise K.V("file removed", "%s: %s, which is no result of the run, is gone" % (what, x))
        if after[x] != v:
            raise K.V("file changed", "%s: %s, which is no result of the run, was written to" % (what, x))
    logs = 0
    for x in after:
        if x in before or x in own:
            continue
        if c["timing"] and re.fullmatch(r"nimble_timing_data_n%d_.*\.log" % c["nranks"], x):
            logs += 1
            continue
        raise K.V("unexpected file", "%s: the run leaves a file %s, which is none of its results" % (what, x))
    if ok:
        for x in sorted(own):
            if x not in after:
                raise K.V("missing file", "%s: no result file %s" % (what, x))
        if logs != (1 if c["timing"] else 0):
            raise K.V("timing report", "%s: %d timing reports" % (what, logs))
    return len(before)


def args(c, spec):
    return [spec.get("deck", "m.in")] + (["--use_tpetra"] if c["tpetra"] else [])


def trial(ctx, spec):
    c = dict(spec["case"], base="m")
    F = C.Files(c, ctx.dir("w"))
    plain = dict(spec, g="m.g", o="m.e", c="m.contact.e", deck="m.in")
    dp, _ = lay(ctx, F, "plain", plain)
    r = ctx.run("plain", dp, dict({"nranks": c["nranks"], "args": args(c, plain)}, **spec["sched"]))
    K.expect_ok(r, "run with plain names")
    d, before = lay(ctx, F, "named", spec)
    base = ctx.run("named", d, dict({"nranks": c["nranks"], "args": args(c, spec), "iolog": 1}, **spec["sched2"]))
    what = "mesh %s, results %s" % (spec["g"], spec["o"])
    K.expect_ok(base, what)
    n = judge(c, spec, d, before, True, what)
    for a, b in zip(result_names(c, plain), result_names(c, spec)):
        try:
            q = O.diff(O.canon(os.path.join(dp, a)), O.canon(os.path.join(d, b)))
        except O.Bad as e:
            raise K.V("damaged output", "%s: %s" % (b, e))
        if q:
            raise K.V("other results", "%s: %s is not what the run with plain names writes: %s" % (what, b, q))
    f, kw, w = spec["fault"], None, ""
    k = min(spec["rank"], c["nranks"] - 1)
    if f == "io":
        L = X.ops(base, k, (X.DECK, X.MESH, X.OUT, X.CONTACT, X.LOG, X.OTHER))
        if L:
            i = X.pick(L, spec["u"])
            kind = X.pick(X.BY_OP[X.op(base, k, i)[0]], spec["u2"])
            kw, w = {"iofaults": [[k, i, kind, spec["sticky"]]]}, "%s of file operation %d on rank %d" % (kind, i, k)
    elif f == "kill":
        i = 1 + int(spec["u"] * base["ranks"][k]["nrpc"])
        kw, w = {"kills": [[k, i]]}, "rank %d killed at its communication step %d" % (k, i)
    elif f == "dir" and os.path.dirname(spec["o"]) not in ("", "."):
        kw, w = {}, "no directory for the results"
    if kw is not None:
        d, before = lay(ctx, F, "fault", spec, with_dirs=f != "dir")
        r = ctx.run("fault", d, dict({"nranks": c["nranks"], "args": args(c, spec)}, **dict(spec["sched"], **kw)))
        for v in r["viol"]:
            if v.split(":")[0] in ("deadlock", "livelock", "hang"):
                raise K.V("does not end", "%s, %s: %s" % (what, w, v))
        if f == "dir" and r["ok"]:
            raise K.V("accepted", "%s: success without a directory for the results" % what)
        n += judge(c, spec, d, before, False, what + ", " + w)
    named = any(s != p for s, p in ((spec["g"], "m.g"), (spec["o"], "m.e")))
    return {"nontrivial": c["nranks"] > 1 or named, "probes": {"files that had to stay as they were": n, "faulted runs": int(kw is not None), "names with dots or directories": int(named), "runs of ten or more ranks": int(c["nranks"] >= 10)}}
