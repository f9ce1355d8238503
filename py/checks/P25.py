"""The shipped example problems reproduce the reference results shipped with them."""
import glob
import os
import random
import re
import shutil

import numpy as np

import common as K
import out as O
import sim
from ncwrite import Writer

ID = "P25"
LEVEL = "exploration"
RULE = ("an example problem of the repository (deck, mesh, reference results and tolerances as shipped) is run on one rank, on the parts shipped with it, or on 2-8 parts cut at random (compact, stripes, single elements scattered), with either id map, "
        "with the shipped or another output frequency and list of fields, under a random schedule, at times after a first attempt was killed in the same directory; every reference value (fields of nodes, elements and contact entities) must be "
        "reproduced by every rank that holds it within the shipped tolerance, and nothing may be missing; non-trivial: more than one rank")
ASSUME = ["the reference results shipped with the examples are right", "a tolerance below 1e-8 of the largest value of a field is taken to be 1e-8 of it (rounding of sums over random decompositions)"]
TEST = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "test")
# name: (directory, parts shipped, weight)
EX = {
    "brick_with_fibers": ("dynamics/brick_with_fibers", [2, 4], 10),
    "wave_in_bar": ("dynamics/wave_in_bar", [2, 3, 4], 3),
    "notched_plate_native_hypoelastic": ("dynamics/notched_plate_native_hypoelastic", [2, 4], 2),
    "notched_plate_native_neohookean": ("dynamics/notched_plate_native_neohookean", [2, 4], 2),
    "single_elem_complex_displacement": ("dynamics/single_elem_complex_displacement", [], 2),
    "single_elem_native_neohookean": ("dynamics/single_elem_complex_displacement", [], 2),
    "rigid_body_motion": ("dynamics/rigid_body_motion", [2, 4], 1),
    "simple_deformation_modes": ("dynamics/simple_deformation_modes", [2, 4], 1),
    "contact_entity_creation": ("contact/contact_entity_creation", [2, 3, 4], 8),
}
LONG = ("rigid_body_motion", "simple_deformation_modes")
_gold = {}


def tolerances(path):
    """Sections of an exodiff command file -> {(n|e, variable): (kind, tolerance)}."""
    sec, r = None, {}
    for l in open(path):
        l = l.split("#")[0].rstrip()
        if not l:
            continue
        w = l.split()
        if l[0] not in " \t":
            sec = {"NODAL": "n", "ELEMENT": "e"}.get(w[0])
        elif sec:
            r[(sec, w[0])] = (w[1], float(w[2])) if len(w) > 2 else ("relative", 1e-6)
    return r


class Gold:
    """Reference values by global id."""

    def __init__(self, name):
        d = os.path.join(TEST, EX[name][0], name)
        g = self.g = O.Out(d + ".gold.e")
        t = tolerances(d + ".exodiff")
        self.times = g.times()
        self.ids, self.eids = g.ids, g.eids
        self.nidx = {int(x): i for i, x in enumerate(g.ids)}
        self.eidx = {int(x): i for i, x in enumerate(g.eids)}
        self.x = g.coords()
        self.vals = {}
        top = {}
        for k, names in (("n", g.nvars), ("e", g.evars)):
            for v in names:
                a = []
                for s in range(g.nsteps):
                    if k == "n":
                        a.append(g.node(v, s).astype(float))
                    else:
                        q = g.elem(v, s)
                        a.append(np.array([q[int(e)] for e in g.eids]))
                self.vals[(k, v)] = np.array(a)
                top[K.base(v)] = max(top.get(K.base(v), 0.0), float(np.abs(self.vals[(k, v)]).max()))
        self.tol = {}
        for (k, v) in self.vals:
            if (k, v) in t:
                kind, x = t[(k, v)]
                m = top[K.base(v)]
                self.tol[(k, v)] = max(x if kind == "absolute" else x * m, 1e-8 * m)


def gold(name):
    if name not in _gold:
        _gold[name] = Gold(name)
    return _gold[name]


def deck_of(name):
    with open(os.path.join(TEST, EX[name][0], name + ".in")) as f:
        return f.read()


def key(deck, k):
    m = re.search(r"^%s:\s*(.*?)\s*$" % k, deck, re.M)
    return m.group(1) if m else None


# ------------------------------------------------------------------ meshes cut anew
class Genesis:
    def __init__(self, path):
        o = self.o = O.Out(path)
        nc = o.nc
        self.x = o.coords()
        self.ids, self.eids = o.ids, o.eids
        self.blkids = o.blkids
        self.blk, self.conn = [], []
        for b, n in enumerate(o.blkn):
            if n:
                c = nc.get("connect%d" % (b + 1)).astype(int) - 1
                self.conn += [list(r) for r in c]
                self.blk += [b] * n
        d = dict(nc.dims)
        self.sets = []
        for s in range(d.get("num_node_sets", 0)):
            v = "node_ns%d" % (s + 1)
            self.sets.append((int(nc.get("ns_prop1")[s]), (nc.get(v).astype(int) - 1).tolist() if v in nc.vars else []))
        self.cen = np.array([self.x[c].mean(axis=0) for c in self.conn])


def cut(m, n, how, seed):
    """Element lists of n parts, none of them empty."""
    r = random.Random(seed)
    ne = len(m.conn)
    if how == "scatter":
        own = [r.randrange(n) for _ in range(ne)]
    elif how == "stripes":
        a = np.argsort(m.cen @ np.array([r.gauss(0, 1) for _ in range(3)]), kind="stable")
        own = [0] * ne
        cuts = sorted(r.sample(range(1, ne), n - 1))
        for p, e in enumerate(a):
            own[e] = sum(p >= c for c in cuts)
    else:
        seeds = m.cen[r.sample(range(ne), n)]
        own = [int(np.argmin(((seeds - c) ** 2).sum(axis=1))) for c in m.cen]
    for p, e in enumerate(r.sample(range(ne), n)):      # every part has an element
        if p not in own:
            own[e] = p
    for p in range(n):
        if p not in own:
            own[r.randrange(ne)] = p
    parts = [[e for e in range(ne) if own[e] == p] for p in range(n)]
    return [q for q in parts if q] if all(parts) else [[e for e in range(ne) if e * n // ne == p] for p in range(n)]


def write_part(path, m, el, orig, order):
    r = random.Random(order)
    el = list(el)
    nodes = sorted({n for e in el for n in m.conn[e]})
    if order:
        r.shuffle(el)
        r.shuffle(nodes)
    loc = {n: i + 1 for i, n in enumerate(nodes)}
    nb = len(m.blkids)
    per = [[e for e in el if m.blk[e] == b] for b in range(nb)]
    sets = [(i, [n for n in s if n in loc]) for i, s in m.sets]
    f = Writer()
    f.att("api_version", np.float32(5.14)); f.att("version", np.float32(5.14))
    f.att("floating_point_word_size", np.int32(8)); f.att("file_size", np.int32(1))
    f.att("maximum_name_length", np.int32(32)); f.att("int64_status", np.int32(0)); f.att("title", "cut")
    D, V = f.dim, f.var
    D("time_step", None); D("len_string", 33); D("len_line", 81); D("four", 4); D("len_name", 33); D("num_dim", 3)
    D("num_nodes", len(nodes)); D("num_elem", len(el)); D("num_el_blk", nb)
    if sets:
        D("num_node_sets", len(sets))
    if orig:
        D("num_node_maps", 1); D("num_elem_maps", 1)
    for b in range(nb):
        if per[b]:
            D("num_el_in_blk%d" % (b + 1), len(per[b])); D("num_nod_per_el%d" % (b + 1), 8)
    for i, (_, l) in enumerate(sets):
        if l:
            D("num_nod_ns%d" % (i + 1), len(l))

    def names(l):
        a = np.zeros((len(l), 33), dtype="S1")
        for i, s in enumerate(l):
            for j, ch in enumerate(s):
                a[i, j] = ch
        return a

    V("time_whole", "d", ("time_step",), [])
    V("eb_status", "i", ("num_el_blk",), [1 if q else 0 for q in per])
    V("eb_prop1", "i", ("num_el_blk",), list(m.blkids), {"name": "ID"})
    if sets:
        V("ns_status", "i", ("num_node_sets",), [1 if l else 0 for _, l in sets])
        V("ns_prop1", "i", ("num_node_sets",), [i for i, _ in sets], {"name": "ID"})
        V("ns_names", "c", ("num_node_sets", "len_name"), names([""] * len(sets)))
    for a in range(3):
        V("coord" + "xyz"[a], "d", ("num_nodes",), [m.x[n, a] for n in nodes])
    V("eb_names", "c", ("num_el_blk", "len_name"), names([""] * nb))
    V("coor_names", "c", ("num_dim", "len_name"), names(list("xyz")))
    for b in range(nb):
        if per[b]:
            V("connect%d" % (b + 1), "i", ("num_el_in_blk%d" % (b + 1), "num_nod_per_el%d" % (b + 1)), [[loc[n] for n in m.conn[e]] for e in per[b]], {"elem_type": "HEX8"})
    gn, ge = [int(m.ids[n]) for n in nodes], [int(m.eids[e]) for q in per for e in q]
    V("elem_num_map", "i", ("num_elem",), list(range(1, len(ge) + 1)) if orig else ge)
    V("node_num_map", "i", ("num_nodes",), list(range(1, len(gn) + 1)) if orig else gn)
    if orig:
        V("nm_prop1", "i", ("num_node_maps",), [1], {"name": "ID"})
        V("nmap_names", "c", ("num_node_maps", "len_name"), names(["original_global_id_map"]))
        V("node_map1", "i", ("num_nodes",), gn)
        V("em_prop1", "i", ("num_elem_maps",), [1], {"name": "ID"})
        V("emap_names", "c", ("num_elem_maps", "len_name"), names(["original_global_id_map"]))
        V("elem_map1", "i", ("num_elem",), ge)
    for i, (_, l) in enumerate(sets):
        if l:
            V("node_ns%d" % (i + 1), "i", ("num_nod_ns%d" % (i + 1),), [loc[n] for n in l])
    with open(path, "wb") as g:
        g.write(f.bytes())


# ------------------------------------------------------------------ trials
def gen(rng, idx, tier):
    names = sorted(EX)
    w = [EX[n][2] * (3 if tier != "quick" and n in LONG else 1) for n in names]
    name = rng.choices(names, w)[0]
    shipped = EX[name][1]
    s = {"example": name}
    u = rng.random()
    if not shipped or u < 0.08:
        s["n"], s["cut"] = 1, None
    elif u < 0.4:
        s["n"], s["cut"] = rng.choice(shipped), None
    else:
        s["n"] = rng.choice([2, 2, 3, 3, 4, 5, 8] if name not in LONG else [2, 3, 4])
        s["cut"] = {"how": rng.choice(["near", "near", "stripes", "scatter"]), "seed": rng.randrange(1 << 30), "orig": rng.random() < 0.3, "order": rng.choice([0, rng.randrange(1, 1 << 30)])}
    s["tpetra"] = rng.random() < 0.15
    s["freq"] = rng.choice([None, None, rng.randint(1, 7)]) if name not in LONG else None
    s["keep"] = rng.choice([None, None, rng.randrange(1 << 30)])      # a random subset of the fields
    s["sched"] = K.gen_sched(rng, s["n"])
    if name in LONG and "slow" in s["sched"]:
        s["sched"].pop("slow")
    s["first"] = {"rank": rng.randrange(s["n"]), "u": rng.random(), "sched": K.gen_sched(rng, s["n"])} if rng.random() < 0.2 and name not in LONG else None
    return s


def shrinks(spec):
    for k in ("first", "freq", "keep", "cut"):
        if spec[k] is not None and (k != "cut" or spec["n"] in EX[spec["example"]][1]):
            yield dict(spec, **{k: None})
    if spec["tpetra"]:
        yield dict(spec, tpetra=False)
    if spec["cut"]:
        c = spec["cut"]
        for k, v in (("orig", False), ("order", 0), ("how", "stripes")):
            if c[k] != v:
                yield dict(spec, cut=dict(c, **{k: v}))


def suffix(n, r):
    return "" if n == 1 else ".%d.%0*d" % (n, len(str(n - 1)), r)


def trial(ctx, spec):
    name, n = spec["example"], spec["n"]
    src = os.path.join(TEST, EX[name][0])
    G = gold(name)
    d = ctx.dir("run")
    deck = deck_of(name)
    mesh = key(deck, "genesis input file")
    if spec["cut"]:
        m = Genesis(os.path.join(src, mesh))
        c = spec["cut"]
        for r, el in enumerate(cut(m, n, c["how"], c["seed"])):
            write_part(os.path.join(d, mesh + suffix(n, r)), m, el, c["orig"], c["order"] and c["order"] + r)
    else:
        for r in range(n):
            shutil.copyfile(os.path.join(src, mesh + suffix(n, r)), os.path.join(d, mesh + suffix(n, r)))
    steps = int(key(deck, "number of load steps"))
    freq = int(key(deck, "output frequency") or 1)
    if spec["freq"]:
        if key(deck, "output frequency"):
            deck = re.sub(r"(?m)^output frequency:.*$", "output frequency: %d" % spec["freq"], deck)
            freq = spec["freq"]
    if spec["keep"] is not None:
        r = random.Random(spec["keep"])
        fields = key(deck, "output fields").split()
        fields = sorted(set(r.sample(fields, r.randint(1, len(fields)))), key=fields.index)
        deck = re.sub(r"(?m)^output fields:.*$", "output fields: " + " ".join(fields), deck)
    with open(os.path.join(d, name + ".in"), "w") as f:
        f.write(deck)
    sc = {"nranks": n, "args": [name + ".in"] + (["--use_tpetra"] if spec["tpetra"] else []), "cpulimit": 100, "walllimit": 300, "rpclimit": 20000000}
    probes = {"runs of " + name: 1}
    f = spec["first"]
    if f:
        nr = max(1, int(f["u"] * 40 * steps / 3))
        res = ctx.run("first", d, dict(sc, kills=[[f["rank"], nr]], **f["sched"]))
        probes["attempts killed first"] = int(any(q["killed"] or q["sig"] for q in res["ranks"]))
    res = ctx.run("run", d, dict(sc, **spec["sched"]))
    K.expect_ok(res, "%s on %d ranks" % (name, n))
    vis = name == "contact_entity_creation"
    outs = []
    ob = (name if vis or key(deck, "exodus output file") == name + ".e" else key(deck, "exodus output file")[:-2]) + ".out.e"
    for r in range(n):
        p = os.path.join(d, ob + suffix(n, r))
        try:
            outs.append(O.Out(p))
        except OSError:
            raise K.V("missing output", "no result file %s" % os.path.basename(p))
        except O.Bad as e:
            raise K.V("damaged output", "%s: %s" % (os.path.basename(p), e))
    probes["values compared"] = compare(G, outs, spec, deck, steps, freq, vis)
    return {"nontrivial": n > 1, "probes": probes}


def compare(G, outs, spec, deck, steps, freq, vis):
    name = spec["example"]
    T = float(key(deck, "final time"))
    want = [0] + [k + 1 for k in range(steps) if k % freq == 0 or k == steps - 1]
    fields = set(key(deck, "output fields").split())
    seen, eseen, cnt = set(), set(), 0
    gt = np.array(G.times)
    for r, q in enumerate(outs):
        who = "%s, rank %d of %d" % (name, r, len(outs))
        ids, eids = q.ids.tolist(), q.eids.tolist()
        for a, idx, w in ((ids, G.nidx, "node"), (eids, G.eidx, "element")):
            for i in a:
                if i not in idx:
                    raise K.V("entities", "%s: %s %d is not in the reference" % (who, w, i))
        seen.update(ids)
        if eseen & set(eids):
            raise K.V("entities", "%s: element %d is written by two ranks" % (who, min(eseen & set(eids))))
        eseen.update(eids)
        p = np.array([G.nidx[i] for i in ids], dtype=int)
        e = np.abs(q.coords() - G.x[p]) if len(p) else np.zeros((1, 3))
        if e.max() > 1e-6 * max(1e-30, np.abs(G.x).max()):
            raise K.V("coordinates", "%s: node %d is not where the reference has it" % (who, ids[int(e.max(axis=1).argmax())]))
        if q.nsteps != len(want):
            raise K.V("output steps", "%s: %d output steps, expected %d" % (who, q.nsteps, len(want)))
        for (k, v), ref in G.vals.items():
            if (k, v) not in G.tol or not (vis or K.base(v) in fields):
                continue
            if not len(p if k == "n" else eids):
                continue
            if v not in (q.nvars if k == "n" else q.evars):
                raise K.V("missing field", "%s: %s is not written" % (who, v))
            for s, ks in enumerate(want):
                t = q.time(s)
                if abs(t - ks * T / steps) > 1e-9 * T:
                    raise K.V("output time", "%s: output %d is at time %r, expected %r" % (who, s, t, ks * T / steps))
                j = int(np.argmin(np.abs(gt - t)))
                if abs(gt[j] - t) > 1e-9 * T:
                    continue
                if k == "n":
                    y, x, lab = q.node(v, s).astype(float), ref[j][p], ids
                else:
                    z = q.elem(v, s)
                    y, x, lab = np.array([z[i] for i in eids]), np.array([ref[j][G.eidx[i]] for i in eids]), eids
                err = np.abs(y - x)
                if len(y) and not (err <= G.tol[(k, v)]).all():
                    i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
                    raise K.V("wrong value", "%s: %s of %s %d at time %r is %r, the reference has %r" % (who, v, "node" if k == "n" else "element", lab[i], t, float(y[i]), float(x[i])))
                cnt += len(y)
    for a, b, w in ((seen, G.nidx, "node"), (eseen, G.eidx, "element")):
        if len(a) != len(b):
            raise K.V("entities", "%s on %d ranks: %s %d of the reference is in no result file" % (name, len(outs), w, min(set(b) - a)))
    return cnt
