"""What the checks share: schedules, running a generated problem, comparing results."""
import json
import os

import numpy as np

import case as C
import out as O
import ref as R


class V(Exception):
    """A violation: `kind` is its class (kept while minimising), `text` what was seen."""

    def __init__(self, kind, text):
        super().__init__(text)
        self.kind, self.text = kind, text


PROFILES = [
    [0, 0, 0, 0, 0, 0],
    [100, 200, 200, 500, 500, 200],
    [300, 300, 600, 1000, 0, 400],
    [50, 700, 700, 0, 1000, 0],
    [600, 0, 0, 300, 300, 600],
    [20, 20, 300, 800, 200, 50],
    [0, 0, 900, 500, 1000, 0],
]


def gen_sched(rng, nranks):
    s = {"seed": rng.randrange(1 << 40), "profile": rng.choice(PROFILES[1:])}
    if rng.random() < 0.5:
        s["perturb"] = rng.randrange(1, 1 << 16)
    if nranks > 1 and rng.random() < 0.3:
        s["slow"] = [rng.randrange(nranks), rng.choice([10, 1000, 50000])]
    return s


def args_of(case):
    return [case["base"] + ".in"] + (["--use_tpetra"] if case["tpetra"] else [])


def scen(case, sched, one=False, **kw):
    s = {"nranks": 1 if one else case["nranks"], "args": args_of(case)}
    s.update(sched)
    s.update(kw)
    return s


def outfile(case, d, r, one=False):
    return os.path.join(d, case["base"] + ".out.e" + ("" if one else C.suffix(case["nranks"], r)))


def outfiles(case, d, one=False):
    return [outfile(case, d, r, one) for r in range(1 if one else case["nranks"])]


def problem_of_run(res, want_ok=True):
    """Violation text of the message layer or of termination, if any."""
    for v in res["viol"]:
        return v
    if want_ok and not res["ok"]:
        return "the run failed: " + res["why"]
    return None


def expect_ok(res, what, d=None):
    p = problem_of_run(res)
    if p:
        raise V(p.split(":")[0] if p.split(":")[0] in ("deadlock", "livelock", "hang", "usage", "collective mismatch") else "failed", what + ": " + p)


def read_all(case, d, one=False):
    r = []
    for p in outfiles(case, d, one):
        try:
            r.append(O.Out(p))
        except OSError:
            raise V("missing output", "no result file %s" % os.path.basename(p))
        except O.Bad as e:
            raise V("damaged output", "%s: %s" % (os.path.basename(p), e))
    return r


def canon_all(case, d, one=False):
    r = []
    for p in outfiles(case, d, one):
        try:
            r.append(O.canon(p))
        except OSError:
            raise V("missing output", "no result file %s" % os.path.basename(p))
        except O.Bad as e:
            raise V("damaged output", "%s: %s" % (os.path.basename(p), e))
    return r


def same(a, b, kind, what):
    for r, (x, y) in enumerate(zip(a, b)):
        d = O.diff(x, y)
        if d:
            raise V(kind, "%s: rank %d: %s" % (what, r, d))


def jkey(x):
    return json.dumps(x, sort_keys=True)


# ------------------------------------------------------------------ numbers
import re

_suf = re.compile(r"_(x|y|z|xx|yy|zz|xy|yz|zx|yx|zy|xz)$")


def base(n):
    return _suf.sub("", n)


class Tol:
    """Absolute tolerance per field: relative to the largest value of the field in
    the run, plus the round-off of the quantities it is computed from."""

    def __init__(self, case, ref, hist, rel=1e-9):
        K = max(m["K"] for m in case["mats"]) * 2.5
        h = max(b["h"] for b in case["bodies"])
        n = case["nsteps"]
        T = case["t1"] - case["t0"]
        X = float(np.abs(ref.m.x).max())
        mm = float(ref.mass.min())
        mx = lambda k: max(float(np.abs(o[k]).max()) for o in hist)
        U, Vv = mx("u"), mx("v")
        f = 1e-12 * K * h * h * (1 + (X + U) / h)
        a = f / mm
        v = a * T + 1e-13 * Vv + 1e-13 * (U + X * 0) / (T / n)
        u = v * T + 1e-14 * (U + h)
        self.abs = {"internal_force": f + rel * mx("f"), "acceleration": a + rel * mx("a"), "velocity": v + rel * Vv, "displacement": u + rel * U,
                    "lumped_mass": 1e-12 * float(ref.mass.max()), "volume": 1e-11 * float(ref.vol0.max()) * (1 + X / h)}
        self.s = 1e-12 * K * (1 + (X + U) / h) + rel * mx("s")
        self.F = 1e-12 * (1 + (X + U) / h) + rel

    def __call__(self, name):
        b = base(name)
        if b in self.abs:
            return self.abs[b]
        if b.endswith("stress"):
            return self.s
        return self.F


SYM = {"xx": (0, 0), "yy": (1, 1), "zz": (2, 2), "xy": (0, 1), "yz": (1, 2), "zx": (2, 0)}
FULL = {"xx": (0, 0), "yy": (1, 1), "zz": (2, 2), "xy": (0, 1), "yz": (1, 2), "zx": (2, 0), "yx": (1, 0), "zy": (2, 1), "xz": (0, 2)}


def ref_value(o, ref, name):
    """Array of reference values of one output variable: per node or per element."""
    b = base(name)
    c = name[len(b) + 1:]
    key = {"displacement": "u", "velocity": "v", "acceleration": "a", "internal_force": "f"}
    if b in key:
        return "n", o[key[b]][:, "xyz".index(c)]
    if name == "lumped_mass":
        return "n", ref.mass
    if name == "volume":
        return "e", o["vol"]
    m = re.match(r"ipt(\d\d)_(stress|deformation_gradient)$", b)
    if b in ("stress", "deformation_gradient"):
        w = o["d"] / o["d"].sum(axis=1, keepdims=True)
        i, j = FULL[c]
        return "e", np.einsum("eq,eq->e", w, o["s" if b == "stress" else "F"][:, :, i, j])
    if m:
        i, j = FULL[c]
        return None, None          # the numbering of points is the code's own
    return None, None


def compare_ref(case, outs, ref, hist, tol, what):
    m = ref.m
    nidx = {int(g): k for k, g in enumerate(m.ids)}
    eidx = {int(g): k for k, g in enumerate(m.eids)}
    n = 0
    for r, q in enumerate(outs):
        if q.nsteps != len(hist):
            raise V("output steps", "%s: rank %d wrote %d output steps, expected %d" % (what, r, q.nsteps, len(hist)))
        p = np.array([nidx[int(g)] for g in q.ids])
        for s, o in enumerate(hist):
            t = q.time(s)
            if abs(t - o["t"]) > 1e-12 * (abs(case["t1"]) + abs(case["t0"])):
                raise V("output time", "%s: rank %d output %d is at time %r, expected %r" % (what, r, s, t, o["t"]))
            for name in q.nvars:
                k, x = ref_value(o, ref, name)
                if k is None:
                    continue
                y = q.node(name, s).astype(float)
                e = np.abs(y - x[p])
                if not (e <= tol(name)).all():
                    i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
                    raise V("wrong value", "%s: %s of node %d on rank %d at output %d is %r, the undivided problem has %r" % (what, name, q.ids[i], r, s, float(y[i]), float(x[p[i]])))
                n += len(y)
            for name in q.evars:
                k, x = ref_value(o, ref, name)
                if k is None:
                    continue
                for g, y in q.elem(name, s).items():
                    if not abs(y - x[eidx[g]]) <= tol(name):
                        raise V("wrong value", "%s: %s of element %d on rank %d at output %d is %r, the undivided problem has %r" % (what, name, g, r, s, y, float(x[eidx[g]])))
                    n += 1
    return n


def compare_outs(a, b, tol, what):
    """Rank files `a` against the single file `b` of the undivided run."""
    q = b[0]
    nidx = {int(g): k for k, g in enumerate(q.ids)}
    seen_n, seen_e = set(), []
    for r, x in enumerate(a):
        if x.nsteps != q.nsteps:
            raise V("output steps", "%s: rank %d wrote %d output steps, the undivided run %d" % (what, r, x.nsteps, q.nsteps))
        if sorted(x.nvars) != sorted(q.nvars):
            raise V("output fields", "%s: rank %d wrote nodal fields %s, the undivided run %s" % (what, r, x.nvars, q.nvars))
        if len(x.eids) and sorted(x.evars) != sorted(q.evars):
            raise V("output fields", "%s: rank %d wrote element fields %s, the undivided run %s" % (what, r, x.evars, q.evars))
        seen_n |= set(int(g) for g in x.ids)
        seen_e += [int(g) for g in x.eids]
        p = np.array([nidx[int(g)] for g in x.ids])
        if not np.array_equal(x.coords(), q.coords()[p]):
            raise V("wrong value", "%s: rank %d's result file has other coordinates than the undivided run" % (what, r))
        for s in range(q.nsteps):
            if x.time(s) != q.time(s):
                raise V("output time", "%s: rank %d output %d is at time %r, undivided %r" % (what, r, s, x.time(s), q.time(s)))
            for name in q.nvars:
                y, z = x.node(name, s).astype(float), q.node(name, s).astype(float)[p]
                e = np.abs(y - z)
                if not (e <= tol(name)).all():
                    i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
                    raise V("wrong value", "%s: %s of node %d on rank %d at output %d is %r, in the undivided run %r" % (what, name, x.ids[i], r, s, float(y[i]), float(z[i])))
            for name in q.evars:
                z = q.elem(name, s)
                for g, y in x.elem(name, s).items():
                    if not abs(y - z[g]) <= tol(name):
                        raise V("wrong value", "%s: %s of element %d on rank %d at output %d is %r, in the undivided run %r" % (what, name, g, r, s, y, z[g]))
    if seen_n != set(nidx) or sorted(seen_e) != sorted(int(g) for g in q.eids):
        raise V("output entities", "%s: the rank files together do not hold exactly the nodes and elements of the undivided problem" % what)


def setup(ctx, spec):
    """Input files of the spec's problem."""
    return C.Files(spec["case"], ctx.dir("w"))


def run_par(ctx, F, name, sched, **kw):
    d = ctx.dir(name)
    F.put(d)
    return d, ctx.run(name, d, scen(F.case, sched, **kw))


def run_one(ctx, F, name="one", **kw):
    d = ctx.dir(name)
    F.put(d, one=True)
    return d, ctx.run(name, d, scen(F.case, {}, one=True, **kw))


def shared_nodes(F):
    n = {}
    for nodes, _ in F.parts:
        for i in nodes:
            n[i] = n.get(i, 0) + 1
    return sum(1 for v in n.values() if v > 1)


# ------------------------------------------------------------------ more observations
def contact_files(case, d):
    c = case.get("contact")
    if not (c and c.get("vis")):
        return []
    return [os.path.join(d, case["base"] + ".contact.out.e" + C.suffix(case["nranks"], r)) for r in range(case["nranks"])]


def contact_canon(case, d):
    r = []
    for p in contact_files(case, d):
        try:
            r.append(O.canon(p))
        except OSError:
            raise V("missing output", "no contact visualisation file %s" % os.path.basename(p))
    return r


def replicas(outs):
    """All copies of a node agree bit for bit at every output; number of values compared."""
    ns = outs[0].nsteps
    n = 0
    for q in outs:
        if q.nsteps != ns:
            raise V("output steps", "ranks wrote different numbers of output steps")
    owners = {}
    for r, q in enumerate(outs):
        for i, g in enumerate(q.ids):
            owners.setdefault(int(g), []).append((r, i))
    sh = [(g, o) for g, o in owners.items() if len(o) > 1]
    for s in range(ns):
        for name in outs[0].nvars:
            a = [q.node(name, s) for q in outs]
            for g, o in sh:
                x = a[o[0][0]][o[0][1]].tobytes()
                for r, i in o[1:]:
                    n += 1
                    if a[r][i].tobytes() != x:
                        raise V("replicas diverge", "%s of node %d at output %d: %r on rank %d, %r on rank %d" % (name, g, s, float(a[o[0][0]][o[0][1]]), o[0][0], float(a[r][i]), r))
    return n


def history_one(case, q, what):
    want = C.steps_of(case)
    t = q.times()
    if len(t) != len(want):
        raise V("output steps", "%s: %d output steps, expected %d (steps %s)" % (what, len(t), len(want), want))
    dt = (case["t1"] - case["t0"]) / case["nsteps"]
    for i, s in enumerate(want):
        e = case["t0"] + dt * s
        if not abs(t[i] - e) <= 1e-12 * (abs(case["t1"]) + abs(case["t0"])) * (1 + s):
            raise V("output time", "%s: output %d is at time %r, expected %r" % (what, i, t[i], e))
    if any(not b > a for a, b in zip(t, t[1:])):
        raise V("output time", "%s: times are not increasing: %s" % (what, t))
    return t


def history(case, outs, what):
    ts = [history_one(case, q, "%s, rank %d" % (what, r)) for r, q in enumerate(outs)]
    for r, t in enumerate(ts):
        if t != ts[0]:
            raise V("output time", "%s: ranks 0 and %d have different output times" % (what, r))


def complete_steps(q):
    """Number of leading output steps whose every value can be read."""
    for s in range(q.nsteps):
        try:
            q.record(s)
        except O.Bad:
            return s
    return q.nsteps


def nindex(m):
    if not hasattr(m, "_nidx"):
        m._nidx = {int(g): k for k, g in enumerate(m.ids)}
    return m._nidx


def distinct(outs, s):
    """Nodal fields of the distinct nodes of all ranks (first holder's copy)."""
    ids, rows = [], []
    seen = set()
    res = {k: [] for k in ("displacement", "velocity", "acceleration", "internal_force", "lumped_mass")}
    for q in outs:
        sel = [i for i, g in enumerate(q.ids) if int(g) not in seen]
        seen.update(int(g) for g in q.ids)
        ids += [int(q.ids[i]) for i in sel]
        for k in res:
            if k == "lumped_mass":
                res[k].append(q.node(k, s).astype(float)[sel])
            else:
                res[k].append(q.vec(k, s)[sel])
    res = {k: np.concatenate(v) for k, v in res.items()}
    res["id"] = ids
    return res
