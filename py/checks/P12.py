"""The contact surface is independent of the decomposition."""
import os
import re

import numpy as np

import case as C
import common as K
import out as O

ID = "P12"
LEVEL = "exploration"
RULE = ("a random problem with contact surfaces on random blocks - two bodies, or neighbouring blocks of one body - is run undivided and split over ranks under random schedules, with contact visualisation on; the union of the ranks' "
        "contact files must be, at every output, the skin of the undivided blocks computed by brute force, moved by the displacements of the result files, with unique ids equal to those of the undivided run, and the printed totals must be "
        "the undivided model's; non-trivial: a skin face or node lies on a rank boundary")
ASSUME = ["the contact forces are those of the default interface (none), so bodies are not pressed together", "primary and secondary blocks are disjoint", "the largest node id and the largest element id add up to less than 2^24 (the ids built from them are 32 bit and are not checked for overflow)"]


def gen(rng, idx, tier):
    two = rng.random() < 0.4
    while True:
        c = C.gen_case(rng, nranks=rng.choice([2, 2, 3, 3, 4, 5]), contact=two, maxel=18, maxsteps=4)
        c["fields"] = ["displacement"] + [f for f in c["fields"] if f != "displacement"]
        if not two and len(c["blocks"]) > 1:
            bl = [C.bname(b) for b in c["blocks"]]
            rng.shuffle(bl)
            k = rng.randint(1, len(bl) - 1)
            e = k + 1 if len(bl) > 2 and rng.random() < 0.5 else len(bl)
            c["contact"] = {"primary": bl[:k], "secondary": bl[k:e], "penalty": 1.0}
        if c["contact"]:
            break
    c["contact"]["vis"] = True
    return {"case": c, "scheds": [K.gen_sched(rng, c["nranks"]) for _ in range(2)]}


def skin(c, m, names):
    """Faces (tuples of node indices, with the element) that belong to exactly one element of the blocks."""
    bl = [i for i, b in enumerate(c["blocks"]) if C.bname(b) in names]
    f = {}
    for e in range(m.ne):
        if m.blk[e] in bl:
            for q in C.HEXF:
                n = tuple(int(m.conn[e][i]) for i in q)
                f.setdefault(tuple(sorted(n)), []).append((n, e))
    return [v[0] for v in f.values() if len(v) == 1]


def expected(c, m):
    """Facets: frozenset of the two node indices and the face -> (face nodes, element); contact nodes: node indices."""
    fac = {}
    for n, e in skin(c, m, c["contact"]["primary"]):
        for i in range(4):
            fac[(frozenset((n[i], n[(i + 1) % 4])), frozenset(n))] = (n, e)
    nodes = set(i for n, e in skin(c, m, c["contact"]["secondary"]) for i in n)
    return fac, nodes


def read(c, d, one):
    suf = [""] if one else [C.suffix(c["nranks"], r) for r in range(c["nranks"])]
    r = []
    for s in suf:
        p = os.path.join(d, c["base"] + ".contact.out.e" + s)
        if not os.path.exists(p):
            raise K.V("missing output", "no contact visualisation file %s" % os.path.basename(p))
        try:
            r.append(O.Out(p))
        except O.Bad as e:
            raise K.V("damaged output", "%s: %s" % (os.path.basename(p), e))
    return r


def surface(c, m, d, one, what):
    """Checks one run; returns id -> what it is, for facets and nodes."""
    fac, nodes = expected(c, m)
    h = min(b["h"] for b in c["bodies"])
    q = K.read_all(c, d, one)
    disp = []
    for s in range(q[0].nsteps):
        u = np.full((m.nn, 3), np.nan)
        for x in q:
            u[[K.nindex(m)[int(g)] for g in x.ids]] = x.vec("displacement", s)
        disp.append(u)
    at = {}
    for i in range(m.nn):
        at.setdefault(tuple(m.x[i]), []).append(i)

    def node_at(p, wh):
        k = at.get(tuple(p))
        if not k:
            raise K.V("wrong position", "%s: %s at %s, where no mesh node is" % (what, wh, list(map(float, p))))
        return k

    seenf, seenn, ids, vids = {}, {}, {}, {}
    files = read(c, d, one)
    for r, x in enumerate(files):
        if x.times() != q[0].times():
            raise K.V("output time", "%s: contact file of rank %d has times %s, the results %s" % (what, r, x.times(), q[0].times()))
        X = x.coords() if x.nn else np.zeros((0, 3))
        U = [x.vec("displacement", s) for s in range(x.nsteps)] if x.nn else []
        for g in x.ids:
            if int(g) in vids:
                raise K.V("ids not unique", "%s: node id %d twice in the contact files, ranks %d and %d" % (what, g, vids[int(g)], r))
            vids[int(g)] = r
        o = 0
        for b, cn in x.conn():
            for row in cn:
                eid = int(x.eids[o])
                o += 1
                if eid in ids:
                    raise K.V("ids not unique", "%s: entity id %d twice, on ranks %d and %d" % (what, eid, ids[eid][0], r))
                wh = "entity %d of rank %d" % (eid, r)
                if len(row) == 3:
                    a = node_at(X[row[0]], wh)
                    z = node_at(X[row[1]], wh)
                    hit = [(k, v) for k, v in fac.items() if any(k[0] == frozenset((i, j)) for i in a for j in z) and np.abs(m.x[list(v[0])].mean(axis=0) - X[row[2]]).max() <= 1e-12 * (1 + np.abs(X[row[2]]).max() / h) * h]
                    if not hit:
                        raise K.V("extra facet", "%s: %s is a facet that is not on the skin of the primary blocks" % (what, wh))
                    k, (fn, e) = next((t for t in hit if t[0] not in seenf), hit[0])
                    if k in seenf:
                        raise K.V("facet twice", "%s: the same facet is held by ranks %d and %d" % (what, seenf[k], r))
                    seenf[k] = r
                    out = np.dot(np.cross(X[row[1]] - X[row[0]], X[row[2]] - X[row[0]]), X[row[2]] - m.x[m.conn[e]].mean(axis=0))
                    if not out > 0:
                        raise K.V("facet turned", "%s: %s faces into the body" % (what, wh))
                    i = next(i for i in a if i in k[0])
                    j = next(j for j in z if j in k[0] and j != i)
                    ids[eid] = (r, "f", i, j, tuple(sorted(k[1])))
                    want = [lambda u, i=i: u[i], lambda u, j=j: u[j], lambda u, fn=fn: u[list(fn)].mean(axis=0)]
                else:
                    a = [i for i in node_at(X[row[0]], wh) if i in nodes]
                    if not a:
                        raise K.V("extra node", "%s: %s is a contact node that is not on the skin of the secondary blocks" % (what, wh))
                    i = next((i for i in a if i not in seenn), a[0])
                    if i in seenn:
                        raise K.V("node twice", "%s: mesh node %d is a contact node of ranks %d and %d" % (what, m.ids[i], seenn[i], r))
                    seenn[i] = r
                    ids[eid] = (r, "n", i)
                    want = [lambda u, i=i: u[i]]
                for s in range(x.nsteps):
                    for k2, w in enumerate(want):
                        y, z2 = U[s][row[k2]], w(disp[s])
                        t = 1e-13 * (np.abs(X[row[k2]]).max() + np.abs(z2).max() + h)
                        if not (np.abs(y - z2) <= t).all():
                            raise K.V("does not follow", "%s: %s is displaced by %s at output %d, the mesh there by %s" % (what, wh, y.tolist(), s, z2.tolist()))
    if len(seenf) != len(fac):
        k = next(k for k in fac if k not in seenf)
        raise K.V("facet missing", "%s: %d of the %d facets of the primary skin are in no rank's file, one on the face of mesh nodes %s" % (what, len(fac) - len(seenf), len(fac), sorted(int(m.ids[i]) for i in k[1])))
    if len(seenn) != len(nodes):
        k = next(k for k in nodes if k not in seenn)
        raise K.V("node missing", "%s: %d of the %d nodes of the secondary skin are in no rank's file, one of them mesh node %d" % (what, len(nodes) - len(seenn), len(nodes), m.ids[k]))
    t = open(os.path.join(d, "std.out.0"), errors="replace").read()
    for pat, n, w in ((r"contact facets \(primary blocks\): (\d+)", len(fac), "facets"), (r"contact nodes \(secondary blocks\): (\d+)", len(nodes), "nodes")):
        g = re.findall(pat, t)
        if len(g) > 1 or (g and int(g[0]) != n):
            raise K.V("wrong totals", "%s: reports %s contact %s, the undivided model has %d" % (what, g, w, n))
    return {k: v[1:] for k, v in ids.items()}


def trial(ctx, spec):
    c = spec["case"]
    F = K.setup(ctx, spec)
    d, r = K.run_one(ctx, F)
    K.expect_ok(r, "undivided run")
    ref = surface(c, F.m, d, True, "undivided run")
    for i, s in enumerate(spec["scheds"]):
        d, r = K.run_par(ctx, F, "p%d" % i, s)
        what = "run on %d ranks" % c["nranks"]
        K.expect_ok(r, what)
        got = surface(c, F.m, d, False, what)
        if got != ref:
            k = sorted(set(got.items()) ^ set(ref.items()))[0]
            raise K.V("other ids", "%s: entity %d is not the same as in the undivided run" % (what, k[0]))
    fac, nodes = expected(c, F.m)
    hold = {}
    for p, _ in F.parts:
        for i in p:
            hold[i] = hold.get(i, 0) + 1
    sk = nodes | set(i for k in fac for i in k[1])
    return {"nontrivial": any(hold.get(i, 0) > 1 for i in sk), "probes": {"facets": len(fac), "contact nodes": len(nodes), "contact nodes on rank boundaries": sum(1 for i in nodes if hold[i] > 1)}}
