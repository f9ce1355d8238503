"""Unreadable or cut-off input never turns into a successful run."""
import os

import case as C
import common as K
import faults as X
import out as O
import sim

ID = "P14"
LEVEL = "fault_enumeration"
RULE = ("a random problem is run once without faults; then each of several runs meets one fault of one rank's input: the deck or the mesh missing, refused, out of descriptors, failing at one read or from then on, the mesh emptied or "
        "cut short anywhere; a fifth of the trials fail forty input operations of one rank in turn; the run must end, with failure, and no output step it completed may differ from the fault-free one; non-trivial: a fault was met")
ASSUME = ["one rank's input is at fault per run", "the launcher ends the other ranks when one fails", "a fault that the Exodus/netCDF library hides by delivering the right data is none",
          "a deck cut at the end of a line is a valid deck", "a mesh file is cut at a multiple of four bytes and, as the Exodus library writes it, has its coordinates ahead of connectivity and id maps",
          "the distribution factors of a set are copied to the results but used for nothing, and not compared"]
IN = (X.DECK, X.MESH)


def gen(rng, idx, tier):
    enum = rng.random() < 0.2
    c = C.gen_case(rng, nranks=rng.choice([1, 2, 2, 3, 4]), contact=rng.random() < 0.15, maxel=8, maxsteps=3)
    sp = {"case": c, "picks": [], "sched": K.gen_sched(rng, c["nranks"])}
    if enum:
        sp["enum"] = [rng.randrange(c["nranks"]), rng.random(), int(rng.random() < 0.5)]
    else:
        for _ in range(8):
            sp["picks"].append({"t": rng.choice(["op", "op", "deck", "mesh", "cut", "cut", "cut"]), "rank": rng.randrange(c["nranks"]), "u": rng.random(), "k": rng.random(), "cls": rng.choice([X.DECK, X.MESH]), "sticky": int(rng.random() < 0.4), "sched": K.gen_sched(rng, c["nranks"])})
    return sp


def shrinks(spec):
    import driver
    if len(spec["picks"]) > 1:
        for p in spec["picks"]:
            yield dict(spec, picks=[p])
    yield from driver.default_shrinks(spec)


def steps_right(c, d, clean, what):
    """Every completed step of every rank has the fault-free values."""
    for r, p in enumerate(K.outfiles(c, d)):
        try:
            q = O.Out(p)
        except (OSError, O.Bad, KeyError, IndexError, ValueError):
            continue
        for s in range(q.nsteps):
            try:
                x = q.record(s)
            except (O.Bad, KeyError, IndexError, ValueError):
                break
            if s >= len(clean[r]) or x != clean[r][s]:
                # the last record of a killed writer may be half written
                if s == q.nsteps - 1:
                    break
                raise K.V("wrong output", "%s: output step %d of rank %d does not have the fault-free values" % (what, s, r))


def results(c, files):
    """Without the distribution factors, which are copied to the result file and used for nothing."""
    return [{k: v for k, v in f.items() if not k.startswith("dist_fact")} for f in files]


def judge(ctx, c, d, r, what, canon, clean, probes, needs_failure):
    for v in r["viol"]:
        k = v.split(":")[0]
        if k in ("deadlock", "livelock", "hang"):
            raise K.V("does not end", "%s: %s" % (what, v))
        if k == "usage" and not r["failed"]:
            raise K.V("usage", "%s: %s" % (what, v))
    if not r["ok"]:
        probes["runs that failed"] = probes.get("runs that failed", 0) + 1
        steps_right(c, d, clean, what)
        return
    if needs_failure:
        raise K.V("success without input", "%s: the run reports success" % what)
    try:
        K.same(results(c, canon), results(c, K.canon_all(c, d) + K.contact_canon(c, d)), "success with wrong results", what)
    except K.V as v:
        raise K.V("success with wrong results", "%s: the run reports success, but %s" % (what, v.text))
    probes["faults without effect"] = probes.get("faults without effect", 0) + 1


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, base = K.run_par(ctx, F, "clean", {"seed": 1, "profile": [0] * 6}, iolog=1)
    K.expect_ok(base, "fault-free run")
    canon = K.canon_all(c, d) + K.contact_canon(c, d)
    clean = [[q.record(s) for s in range(q.nsteps)] for q in K.read_all(c, d)]
    probes, met = {}, 0

    def op(name, sched, r, i, kind, sticky):
        o = X.op(base, r, i)
        what = "%s of file operation %d (%s %s) on rank %d%s" % (kind, i, sim.IOK[o[0]], sim.CLS[o[1]], r, ", for good" if sticky else "")
        d, x = K.run_par(ctx, F, name, sched, iofaults=[[r, i, kind, sticky]])
        if not x["ranks"][r]["fio"]:
            return 0
        if x["ok"] and x["ranks"][r]["absorbed"]:
            probes["faults the Exodus library did not report"] = probes.get("faults the Exodus library did not report", 0) + 1
            return 1
        judge(ctx, c, d, x, what, canon, clean, probes, o[0] in (X.OPEN, X.READ) and kind != "EINTR")
        return 1

    if spec.get("enum"):
        r, u, sticky = spec["enum"]
        for i in X.stride(X.ops(base, r, IN, [X.OPEN, X.READ]), u, 40):
            kinds = X.BY_OP[X.op(base, r, i)[0]]
            met += op("e%d" % i, spec["sched"], r, i, kinds[(i * 7 + int(u * 100)) % len(kinds)], sticky)
    for j, p in enumerate(spec["picks"]):
        r, name = p["rank"], "f%d" % j
        if p["t"] == "op":
            o = X.ops(base, r, (p["cls"],), [X.OPEN, X.READ])
            if o:
                i = X.pick(o, p["u"])
                met += op(name, p["sched"], r, i, X.pick(X.BY_OP[X.op(base, r, i)[0]], p["k"]), p["sticky"])
            continue
        d = ctx.dir(name)
        F.put(d)
        if p["t"] == "deck":
            os.unlink(os.path.join(d, c["base"] + ".in"))
            what = "deck missing"
        else:
            m = os.path.join(d, c["base"] + ".g" + C.suffix(c["nranks"], r))
            if p["t"] == "mesh":
                os.unlink(m)
                what = "mesh of rank %d missing" % r
            else:
                n = len(F.mesh[r])
                k = int(n * p["u"]) // 4 * 4 if p["k"] > 0.15 else 0
                os.truncate(m, k)
                what = "mesh of rank %d cut to %d of %d bytes" % (r, k, n)
        x = ctx.run(name, d, K.scen(c, p["sched"]))
        met += 1
        judge(ctx, c, d, x, what, canon, clean, probes, p["t"] != "cut")
    return {"nontrivial": met > 0, "probes": probes}
