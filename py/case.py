"""Generated problems: a small hexahedral mesh, its split over ranks, the input
deck.  A problem is a plain JSON-able dict; everything else is derived from it."""
import math
import os
import random
import re

import numpy as np
import expr
from ncwrite import Writer

AX = "xyz"
HEXF = [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (0, 3, 2, 1), (4, 5, 6, 7)]


class Mesh:
    """Undivided mesh derived from a case: coordinates, connectivity, block of each element."""

    def __init__(self, case):
        pts, conn, blk = [], [], []
        index = {}
        for bi, body in enumerate(case["bodies"]):
            nx, ny, nz = body["grid"]
            r = random.Random(body["seed"])
            h = body["h"]
            lines = []
            for n in (nx, ny, nz):
                x = [0.0]
                for _ in range(n):
                    x.append(x[-1] + h * (1.0 + (r.uniform(-0.2, 0.2) if body["jit"] else 0.0)))
                lines.append(x)
            drop = set(body["drop"])
            e = 0
            for k in range(nz):
                for j in range(ny):
                    for i in range(nx):
                        if e not in drop:
                            c = []
                            for (a, b, d) in [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]:
                                c.append((bi, i + a, j + b, k + d))
                            rot = body.get("rot", 0)
                            if rot:   # other, equally right-handed, local numberings of the same cube
                                q = random.Random(body["seed"] * 31 + e).randrange(4)
                                c = c[q:4] + c[:q] + c[4 + q:8] + c[4:4 + q]
                            conn.append(c)
                            blk.append(body["blk"][e])
                        e += 1
            for c in [x for x in conn if x[0][0] == bi]:
                for p in c:
                    index.setdefault(p, None)
            rr = random.Random(body["seed"] ^ 0x55aa)
            for p in sorted(q for q in index if q[0] == bi):
                _, i, j, k = p
                xyz = [lines[0][i], lines[1][j], lines[2][k]]
                for a in range(3):
                    if body["jit"]:
                        xyz[a] += rr.uniform(-0.12, 0.12) * h
                    xyz[a] += body["off"][a]
                index[p] = len(pts)
                pts.append(xyz)
        self.x = np.array(pts)
        self.conn = np.array([[index[p] for p in c] for c in conn], dtype=int)
        self.blk = np.array(blk, dtype=int)
        self.nn, self.ne = len(self.x), len(self.conn)
        r = random.Random(case["idseed"])
        ids = list(range(1, self.nn + 1))
        eids = list(range(1, self.ne + 1))
        if case["idmode"] in ("perm", "sparse", "orig"):
            r.shuffle(ids)
            r.shuffle(eids)
        if case["idmode"] == "sparse" or (case["idmode"] == "orig" and r.random() < 0.5):
            step = r.choice([2, 3, 7, 1000])
            base = r.choice([0, 5, 100000])
            ids = [base + i * step for i in ids]
            if r.random() < 0.5:
                step = r.choice([2, 5, 1000])
                base = r.choice([0, 3, 70000])
                eids = [base + i * step for i in eids]
        if case["idmode"] == "huge":     # up to the largest there are; contact builds ids of its own from them, which have to fit
            top = 2147483646 if not case.get("contact") else (1 << 23) - 100
            for l in (ids, eids):
                l[:] = [top - r.randrange(3)] + r.sample(range(1, top - 3), len(l) - 1)
                r.shuffle(l)
        self.ids = np.array(ids)
        self.eids = np.array(eids)
        self.ns = case["nodesets"]
        self.ss = case.get("sidesets", [])

    def part(self, owner, rank, shuffle=0):
        """Local node list and local element list of one rank."""
        el = [e for e in range(self.ne) if owner[e] == rank]
        nodes = sorted(set(int(n) for e in el for n in self.conn[e]), key=lambda n: self.ids[n])
        if shuffle:
            rr = random.Random(shuffle * 101 + rank)
            rr.shuffle(nodes)
            rr.shuffle(el)
        return nodes, el


def write_mesh(path, case, m, nodes, el, name_len=33):
    nblk = len(case["blocks"])
    loc = {n: i + 1 for i, n in enumerate(nodes)}
    per = [[e for e in el if m.blk[e] == b] for b in range(nblk)]
    f = Writer()
    orig = case["idmode"] == "orig"
    f.att("api_version", np.float32(5.14))
    f.att("version", np.float32(5.14))
    f.att("floating_point_word_size", np.int32(8))
    f.att("file_size", np.int32(1))
    f.att("maximum_name_length", np.int32(32))
    f.att("int64_status", np.int32(0))
    f.att("title", "generated")
    D = f.dim
    D("time_step", None); D("len_string", 33); D("len_line", 81); D("four", 4); D("len_name", name_len)
    D("num_dim", 3); D("num_nodes", len(nodes)); D("num_elem", len(el)); D("num_el_blk", nblk)
    if m.ns:
        D("num_node_sets", len(m.ns))
    if m.ss:
        D("num_side_sets", len(m.ss))
    if orig:
        D("num_node_maps", 1); D("num_elem_maps", 1)
    for b in range(nblk):
        if per[b]:
            D("num_el_in_blk%d" % (b + 1), len(per[b]))
            D("num_nod_per_el%d" % (b + 1), 8)
    nsl = []
    for i, s in enumerate(m.ns):
        l = [n for n in s["nodes"] if n in loc]
        nsl.append(l)
        if l:
            D("num_nod_ns%d" % (i + 1), len(l))
            if s["df"]:
                D("num_df_ns%d" % (i + 1), len(l))
    order = {e: i + 1 for i, e in enumerate(x for b in per for x in b)}
    ssl = []
    for i, s in enumerate(m.ss):
        l = [(order[e], k + 1) for e, k in s["sides"] if e in order]
        ssl.append(l)
        if l:
            D("num_side_ss%d" % (i + 1), len(l))
            if s["df"]:
                D("num_df_ss%d" % (i + 1), s["df"] * len(l))
    cv = f.var

    def names(dim, lst):
        a = np.zeros((len(lst), name_len), dtype="S1")
        for i, s in enumerate(lst):
            for j, ch in enumerate(s):
                a[i, j] = ch
        return a

    cv("time_whole", "d", ("time_step",), [])
    cv("eb_status", "i", ("num_el_blk",), [1 if per[b] else 0 for b in range(nblk)])
    cv("eb_prop1", "i", ("num_el_blk",), [b["id"] for b in case["blocks"]], {"name": "ID"})
    if m.ns:
        cv("ns_status", "i", ("num_node_sets",), [1 if l else 0 for l in nsl])
        cv("ns_prop1", "i", ("num_node_sets",), [s["id"] for s in m.ns], {"name": "ID"})
    if m.ss:
        cv("ss_status", "i", ("num_side_sets",), [1 if l else 0 for l in ssl])
        cv("ss_prop1", "i", ("num_side_sets",), [s["id"] for s in m.ss], {"name": "ID"})
    for a in range(3):
        cv("coord" + AX[a], "d", ("num_nodes",), [m.x[n, a] for n in nodes])
    cv("eb_names", "c", ("num_el_blk", "len_name"), names(nblk, [b["name"] for b in case["blocks"]]))
    if m.ns:
        cv("ns_names", "c", ("num_node_sets", "len_name"), names(len(m.ns), [s["name"] for s in m.ns]))
    if m.ss:
        cv("ss_names", "c", ("num_side_sets", "len_name"), names(len(m.ss), [s["name"] for s in m.ss]))
    cv("coor_names", "c", ("num_dim", "len_name"), names(3, list(AX)))
    for b in range(nblk):
        if per[b]:
            cv("connect%d" % (b + 1), "i", ("num_el_in_blk%d" % (b + 1), "num_nod_per_el%d" % (b + 1)), [[loc[n] for n in m.conn[e]] for e in per[b]], {"elem_type": "HEX8"})
    if orig:      # ids in auxiliary maps, as the seacas decomposition tools leave them
        cv("elem_num_map", "i", ("num_elem",), list(range(1, len(el) + 1)))
        cv("node_num_map", "i", ("num_nodes",), list(range(1, len(nodes) + 1)))
        cv("nm_prop1", "i", ("num_node_maps",), [1], {"name": "ID"})
        cv("nmap_names", "c", ("num_node_maps", "len_name"), names("num_node_maps", ["original_global_id_map"]))
        cv("node_map1", "i", ("num_nodes",), [m.ids[n] for n in nodes])
        cv("em_prop1", "i", ("num_elem_maps",), [1], {"name": "ID"})
        cv("emap_names", "c", ("num_elem_maps", "len_name"), names("num_elem_maps", ["original_global_id_map"]))
        cv("elem_map1", "i", ("num_elem",), [m.eids[e] for b in per for e in b])
    else:
        cv("elem_num_map", "i", ("num_elem",), [m.eids[e] for b in per for e in b])
        cv("node_num_map", "i", ("num_nodes",), [m.ids[n] for n in nodes])
    for i, s in enumerate(m.ns):
        if nsl[i]:
            cv("node_ns%d" % (i + 1), "i", ("num_nod_ns%d" % (i + 1),), [loc[n] for n in nsl[i]])
            if s["df"]:
                cv("dist_fact_ns%d" % (i + 1), "d", ("num_df_ns%d" % (i + 1),), [1.0] * len(nsl[i]))
    for i, s in enumerate(m.ss):
        if ssl[i]:
            cv("elem_ss%d" % (i + 1), "i", ("num_side_ss%d" % (i + 1),), [e for e, k in ssl[i]])
            cv("side_ss%d" % (i + 1), "i", ("num_side_ss%d" % (i + 1),), [k for e, k in ssl[i]])
            if s["df"]:
                cv("dist_fact_ss%d" % (i + 1), "d", ("num_df_ss%d" % (i + 1),), [1.0] * (s["df"] * len(ssl[i])))
    with open(path, "wb") as g:
        g.write(f.bytes())


def D(v):
    """Decimal literal without an exponent: the expression language has none."""
    s = "%.*f" % (max(1, 6 - int(math.floor(math.log10(abs(v)))) if v else 1), v)
    return s if not s.startswith("-") else "(0.0%s)" % s


def num(v):
    return repr(float(v))


def deck_text(case):
    L = ["genesis input file: %s.g" % case.get("gbase", case["base"]), "exodus output file: %s.e" % case["base"]]
    if case["t0"] != 0.0 or case.get("t0_explicit"):
        L.append("initial time: " + num(case["t0"]))
    L.append("final time: " + num(case["t1"]))
    L.append("number of load steps: %d" % case["nsteps"])
    L.append("output frequency: %d" % case["freq"])
    L.append("output fields: " + " ".join(case["fields"]))
    for mt in case["mats"]:
        L.append("material parameters: %s %s density %s shear_modulus %s bulk_modulus %s" % (mt["name"], mt["kind"], num(mt["rho"]), num(mt["G"]), num(mt["K"])))
    for b in case["blocks"]:
        L.append("element block: block_%d %s" % (b["id"], case["mats"][b["mat"]]["name"]))
    for bc in case["bcs"]:
        val = bc["val"]
        L.append("boundary condition: %s %s %s %s" % (bc["type"], bc["set"], AX[bc["axis"]], ('"%s"' % val) if isinstance(val, str) else num(val)))
    c = case.get("contact")
    if c:
        L.append("contact: primary_blocks %s secondary_blocks %s penalty_parameter %s" % (" ".join(c["primary"]), " ".join(c["secondary"]), num(c["penalty"])))
        if c.get("vis"):
            L.append("contact visualization: visualize_contact_entities on visualize_bounding_boxes off file_name %s.contact.e" % case["base"])
    if case.get("timing"):
        L.append("write timing data file: true")
    if case.get("comments"):
        r = random.Random(case["comments"])
        out = []
        for l in L:
            if r.random() < 0.3:
                out.append("# comment " + "x" * r.randrange(5))
            if r.random() < 0.2:
                out.append("")
            out.append(l)
        L = out
    return "\n".join(L) + "\n"


def bname(b):
    return b["name"] or "block_%d" % b["id"]


def nsname(s):
    return s["name"] or "nodelist_%d" % s["id"]


def suffix(n, r):
    return "" if n == 1 else ".%d.%0*d" % (n, len(str(n)), r)


def expr_value(val, x, t):
    """Value of a boundary condition, by an evaluator of our own, at one node."""
    return expr.value(val, x, t)[0]


def steps_of(c):
    """Steps after which a state is written, the initial one first."""
    if not c["freq"]:
        return [0]
    return [0] + [k + 1 for k in range(c["nsteps"]) if k % c["freq"] == 0 or k == c["nsteps"] - 1]


class Files:
    """The input files of a case, as bytes, for the split and the undivided problem."""

    def __init__(self, case, scratch):
        self.case = case
        self.m = Mesh(case)
        self.n = case["nranks"]
        self.parts = [self.m.part(case["owner"], r, case["shuffle"]) for r in range(self.n)]
        os.makedirs(scratch, exist_ok=True)
        self.deck = deck_text(case).encode()
        self.mesh = []
        p = os.path.join(scratch, "tmpmesh")
        for r in range(self.n):
            write_mesh(p, case, self.m, *self.parts[r], name_len=33 if self.n == 1 else 256)
            self.mesh.append(open(p, "rb").read())
        self._one = None
        self._p = p

    def one(self):
        if self._one is None:
            nodes, el = self.m.part([0] * self.m.ne, 0, 0)
            self.onepart = (nodes, el)
            write_mesh(self._p, self.case, self.m, nodes, el)
            self._one = open(self._p, "rb").read()
        return self._one

    def put(self, d, one=False):
        os.makedirs(d, exist_ok=True)
        b = self.case["base"]
        with open(os.path.join(d, b + ".in"), "wb") as f:
            f.write(self.deck)
        if one:
            with open(os.path.join(d, self.case.get("gbase", b) + ".g"), "wb") as f:
                f.write(self.one())
            return
        for r in range(self.n):
            with open(os.path.join(d, self.case.get("gbase", b) + ".g" + suffix(self.n, r)), "wb") as f:
                f.write(self.mesh[r])


# --------------------------------------------------------------------------- generator
NODE_FIELDS = ["displacement", "velocity", "acceleration", "internal_force", "lumped_mass"]
ELEM_FIELDS = ["volume", "stress", "deformation_gradient"]


def gen_case(rng, nranks=None, contact=None, maxel=18, bcs=True, tpetra=None, maxsteps=10, minsteps=1, fields=None, kinds=("initial_velocity", "prescribed_velocity", "prescribed_displacement"), mat=None, timing=None):
    n = nranks or rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
    large = maxel >= 12 and rng.random() < 0.03 or n > 16      # many nodes shared by two ranks
    if large:
        maxsteps, minsteps = max(minsteps, 2), min(minsteps, 2)
    nb = 1
    bodies = []
    two = contact if contact is not None else rng.random() < 0.15
    nblocks = rng.choice([1, 1, 2, 3])
    if two:
        nblocks = rng.choice([2, 2, 3, 4, 5])
    many = maxel >= 8 and rng.random() < 0.05      # many blocks, materials, sets and conditions
    if many:
        nblocks = rng.randint(4, 14)
    h = rng.choice([1.0, 0.1, 0.25, 2.0e-3, 40.0])
    total = 0
    while True:
        bodies = []
        total = 0
        for b in range(2 if two else 1):
            g = [rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)] if not large else [rng.randint(6, 12), rng.randint(4, 8), rng.randint(1, 3)]
            rng.shuffle(g)
            ne = g[0] * g[1] * g[2]
            if ne > maxel and not large:
                g = [rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2)]
                ne = g[0] * g[1] * g[2]
            drop = []
            if ne >= 4 and rng.random() < 0.3:
                drop = sorted(rng.sample(range(ne), rng.randint(1, ne // 3)))
            mode = rng.choice(["slab", "random", "one"])
            if two:
                opts = list(range(nblocks))[b::2]
            else:
                opts = list(range(nblocks))
            if mode == "one":
                blk = [rng.choice(opts)] * ne
            elif mode == "slab":
                blk = [opts[min(len(opts) - 1, e * len(opts) // ne)] for e in range(ne)]
            else:
                blk = [rng.choice(opts) for _ in range(ne)]
            off = [0.0, 0.0, 0.0]
            if b == 1:
                off = [rng.uniform(-0.2, 0.2) * h, rng.uniform(-0.2, 0.2) * h, -h * 1.3 * g[2] - rng.choice([0.3, 0.2]) * h]
            bodies.append({"grid": g, "h": h, "seed": rng.randrange(1 << 30), "jit": rng.random() < 0.6, "drop": drop, "blk": blk, "off": off, "rot": rng.random() < 0.3})
            total += ne - len(drop)
        if total >= n:
            break
    case = {"base": rng.choice(["m", "model", "a.b", "run-1"]), "bodies": bodies, "nranks": n}
    used = sorted(set(b for body in bodies for e, b in enumerate(body["blk"]) if e not in body["drop"]))
    remap = {b: i for i, b in enumerate(used)}
    for body in bodies:
        body["blk"] = [remap.get(b, 0) for b in body["blk"]]
    nblocks = len(used)
    ids = rng.sample([1, 2, 3, 4, 7, 10, 55, 100] + ([11, 12, 20, 21, 99, 101, 1000, 65536, 123456789] if many or rng.random() < 0.1 else []), nblocks)
    if rng.random() < 0.5:
        ids = list(range(1, nblocks + 1))
    nm = rng.choice([1, nblocks])
    case["mats"] = []
    kind0 = mat or rng.choice(["neohookean", "elastic", "mixed"])
    K = rng.choice([1.0e3, 160.0e9, 5.0])
    G = K * rng.choice([0.3, 0.5, 0.8])
    rho = rng.choice([7800.0, 1.0, 0.02, 2.7e-9])
    for i in range(nm):
        kind = kind0 if kind0 != "mixed" else rng.choice(["neohookean", "elastic"])
        f = rng.choice([1.0, 0.6, 1.7]) if i else 1.0
        case["mats"].append({"name": "material_%d" % (i + 1) if rng.random() < 0.7 else "steel%d" % i, "kind": kind, "rho": rho * rng.choice([1.0, 1.5]), "G": G * f, "K": K * f})
    custom = rng.random() < 0.3
    case["blocks"] = [{"id": ids[i], "name": rng.choice(["", "block_%d" % ids[i]]) if not custom else "part%d" % i, "mat": i % nm} for i in range(nblocks)]
    case["idmode"] = rng.choice(["seq", "perm", "sparse", "orig"]) if rng.random() < 0.92 else "huge"
    case["idseed"] = rng.randrange(1 << 30)
    case["nodesets"] = []
    m = Mesh(case)
    # owner
    mode = rng.choice(["slab", "random", "stripe", "lump", "rcb", "byblock"])
    cen = m.x[m.conn].mean(axis=1)
    if mode == "random":
        ow = [rng.randrange(n) for _ in range(m.ne)]
    elif mode == "stripe":
        ow = [e % n for e in range(m.ne)]
    elif mode == "lump":
        ow = [0] * m.ne
        for r in range(1, n):
            ow[rng.randrange(m.ne)] = r
    elif mode == "byblock":
        ow = [int(m.blk[e]) % n for e in range(m.ne)]
    else:
        ax = rng.randrange(3)
        order = sorted(range(m.ne), key=lambda e: (cen[e, ax], e))
        ow = [0] * m.ne
        for i, e in enumerate(order):
            ow[e] = i * n // m.ne
    # every rank holds at least one element
    for r in range(n):
        if r not in ow:
            from collections import Counter
            c = Counter(ow)
            e = rng.choice([e for e in range(m.ne) if c[ow[e]] > 1])
            ow[e] = r
    perm = list(range(n))
    rng.shuffle(perm)
    case["owner"] = [perm[o] for o in ow]
    case["shuffle"] = rng.choice([0, 0, rng.randrange(1, 1 << 20)])
    # node sets
    sets = []
    for i in range((rng.choice([1, 1, 2, 2, 3]) if not many and rng.random() < 0.95 else rng.randint(4, 16) if many else 0) if bcs else rng.choice([0, 1])):
        k = rng.choice(["side", "side", "random", "one", "all"] if not many else ["few", "few", "few", "one", "side"])
        if k == "side":
            ax = rng.randrange(3)
            v = np.quantile(m.x[:, ax], 0.25) if rng.random() < 0.5 else None
            s = [j for j in range(m.nn) if (m.x[j, ax] <= v if v is not None else m.x[j, ax] >= np.quantile(m.x[:, ax], 0.75))]
        elif k == "random":
            s = sorted(rng.sample(range(m.nn), rng.randint(1, m.nn)))
        elif k == "one":
            s = [rng.randrange(m.nn)]
        elif k == "few":
            s = sorted(rng.sample(range(m.nn), rng.randint(1, min(4, m.nn))))
        else:
            s = list(range(m.nn))
        if rng.random() < 0.3:
            rng.shuffle(s)
        sid = [1, 2, 5, 20][i] if i < 4 and rng.random() < 0.5 else i + 1
        if sid in [q["id"] for q in sets]:
            sid = 30 + i
        if many and rng.random() < 0.1:
            sid = rng.choice([1000, 65536, 123456789]) + i
        name = rng.choice(["", "nodelist_%d" % sid, "face%d" % i, "face" + "1" * (3 - i), "face" + "1" * i])      # some a prefix of others
        sets.append({"id": sid, "name": name if name not in [q["name"] for q in sets] else "", "nodes": s, "df": rng.random() < 0.8})
    if sets and rng.random() < 0.1:      # a set that has no nodes at all
        sets.append({"id": 77, "name": rng.choice(["", "nothing"]), "nodes": [], "df": False})
    case["nodesets"] = sets
    case["sidesets"] = []
    for i in range(rng.choice([0, 0, 0, 1, 2])):
        sides = [[e, k] for e in range(m.ne) for k in range(6) if rng.random() < 0.15]
        rng.shuffle(sides)
        case["sidesets"].append({"id": [1, 3, 50][i] if rng.random() < 0.5 else i + 1, "name": rng.choice(["", "sideset_9", "surf%d" % i]), "sides": sides, "df": rng.choice([0, 1, 4, 4])})
    # time step within the stable range
    hmin = h * 0.5
    dt = 1e30
    for mt in case["mats"]:
        dt = min(dt, hmin / math.sqrt((mt["K"] + 4.0 / 3.0 * mt["G"]) / mt["rho"]))
    dt *= rng.choice([0.05, 0.2, 0.4])
    case["nsteps"] = rng.randint(minsteps, maxsteps)
    T = dt * case["nsteps"]
    case["t0"] = float("%.5g" % (T * rng.choice([0.5, 1.0, 3.0]))) if rng.random() < 0.15 else 0.0
    case["t1"] = float("%.6g" % (case["t0"] + T))
    case["freq"] = rng.choice([1, 1, 2, 3, case["nsteps"], case["nsteps"] + 3])
    # boundary conditions
    case["bcs"] = []
    V = h / T * rng.choice([0.05, 0.02])        # a velocity moving about 5 % of an element over the run
    if bcs:
        taken = {}
        for s in [q for q in sets if q["nodes"]]:
            for ax in range(3):
                if rng.random() < 0.5 and not (s is sets[-1] and ax == 2 and not case["bcs"]):
                    continue
                kind = rng.choice(list(kinds))
                if kind != "initial_velocity":
                    # one prescription per node and axis, so that the right value is unambiguous
                    if any(ax == a and set(s["nodes"]) & set(q["nodes"]) for (q, a) in taken.get("p", [])):
                        kind = "initial_velocity" if "initial_velocity" in kinds else None
                    else:
                        taken.setdefault("p", []).append((s, ax))
                if kind is None:
                    continue
                if kind == "initial_velocity":
                    if any(ax == a and set(s["nodes"]) & set(q["nodes"]) for (q, a) in taken.get("p", []) + taken.get("i", [])):
                        continue
                    taken.setdefault("i", []).append((s, ax))
                e = rng.random()
                q = rng.uniform(-1, 1)
                w = D(3.0 / T)
                if e < 0.4:
                    val = float("%.5g" % (V * q)) if kind != "prescribed_displacement" else float("%.5g" % (0.02 * h * q))
                    if rng.random() < 0.2:
                        val = 0.0
                elif kind == "prescribed_displacement":
                    a = D(V * q)
                    val = rng.choice(["%s*t" % a, "%s*sin(%s*t)" % (D(0.02 * h), w), "%s*t*(1.0+%s*x)" % (a, D(0.3 / h)), "0.02*x*t*%s" % D(1.0 / T), "0.01*(x-y+z)*sin(%s*t)" % w])
                elif kind == "prescribed_velocity":
                    val = rng.choice(["%s*cos(%s*t)" % (D(V), w), "%s*x*t*%s" % (D(V / h * 0.3), D(1.0 / T)), "%s*(y-z)" % D(0.3 * V / h), "%s*t+%s" % (D(V / T * 0.5), D(V * 0.1))])
                else:
                    val = rng.choice(["%s*x" % D(0.3 * V / h), "%s*(y-z)+%s" % (D(0.3 * V / h), D(V * 0.2)), "%s*x*y" % D(0.1 * V / h / h)])
                if e >= 0.6:
                    dt1 = (case["t1"] - case["t0"]) / case["nsteps"]
                    g = expr.Gen(rng, float(np.abs(m.x).max()), case["t0"], T, dt1, kind != "initial_velocity" or not case["t0"])
                    at = [case["t0"] + dt1 * k for k in sorted({0, 1, case["nsteps"] // 2, case["nsteps"]})]
                    val = g.make([m.x[j] for j in s["nodes"]], at if kind != "initial_velocity" else at[:1], 0.02 * h if kind == "prescribed_displacement" else V * rng.choice([0.5, 1.0]))
                elif isinstance(val, str) and kind == "prescribed_displacement" and case["t0"]:
                    val = re.sub(r"\bt\b", "(t-%s)" % D(case["t0"]), val)
                case["bcs"].append({"type": kind, "set": nsname(s), "axis": ax, "val": val})
    if fields is None:
        fl = [f for f in NODE_FIELDS + ELEM_FIELDS if rng.random() < 0.7]
        for i in range(1, 9):
            if rng.random() < 0.05:
                fl.append("ipt%02d_stress" % i)
            if rng.random() < 0.05:
                fl.append("ipt%02d_deformation_gradient" % i)
        if rng.random() < 0.5:
            rng.shuffle(fl)
        if not fl:
            fl = ["displacement"]
    else:
        fl = list(fields)
    case["fields"] = fl
    case["contact"] = None
    if two:
        bl = [bname(b) for b in case["blocks"]]
        p = [bl[i] for i in range(nblocks) if any(int(b) == i for e, b in enumerate(m.blk) if m.conn[e][0] >= 0 and body_of(case, m, e) == 0)]
        s = [x for x in bl if x not in p]
        if rng.random() < 0.4:      # blocks that take no part, or blocks of one body on either side
            if rng.random() < 0.4 and len(bl) > 1:
                rng.shuffle(bl)
                k = rng.randrange(1, len(bl))
                p, s = bl[:k], bl[k:]
            p = rng.sample(p, rng.randint(1, len(p))) if p else p
            s = rng.sample(s, rng.randint(1, len(s))) if s else s
        if p and s:
            case["contact"] = {"primary": p, "secondary": s, "penalty": 1.0e-3 * K * h, "vis": rng.random() < 0.5}
    case["timing"] = (rng.random() < 0.1) if timing is None else timing
    case["tpetra"] = (rng.random() < 0.3) if tpetra is None else tpetra
    case["comments"] = rng.choice([0, 0, 0, rng.randrange(1, 1 << 20)])
    return case


def body_of(case, m, e):
    n = 0
    for i, b in enumerate(case["bodies"]):
        n += b["grid"][0] * b["grid"][1] * b["grid"][2] - len(b["drop"])
        if e < n:
            return i
    return len(case["bodies"]) - 1
