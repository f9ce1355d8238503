"""Helpers for demonstrations: a small problem, the built NimbleSM under mpirun, its results."""
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import case as C
import out as O

EXE = os.path.abspath("_build/src/NimbleSM")
TMP = tempfile.mkdtemp(prefix="demo.")


def bad(msg):
    print("DEMO: " + msg)
    done(1)


def done(rc=0):
    shutil.rmtree(TMP, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def problem(grid=(2, 2, 1), n=2, owner=None, blk=None, nblocks=1, nodesets=(), bcs=(), steps=6, dtf=0.2, freq=1, fields=None, kind="neohookean", base="m", tpetra=False, two=None, contact=None, ids="seq", jit=True, timing=False, t0=0.0, K=1000.0, G=500.0, rho=1.0, mats=None, idseed=7, shuffle=0, names=None, blkids=None, grid2=None, off2=(0.1, 0.05, -3.0), drop=()):
    """owner: function of the element centre (x,y,z in units of the element size) or list."""
    ne = grid[0] * grid[1] * grid[2]
    bodies = [{"grid": list(grid), "h": 1.0, "seed": 5, "jit": jit, "drop": list(drop), "blk": list(blk) if blk else [0] * ne, "off": [0.0, 0.0, 0.0], "rot": 0}]
    if grid2:
        n2 = grid2[0] * grid2[1] * grid2[2]
        bodies.append({"grid": list(grid2), "h": 1.0, "seed": 6, "jit": jit, "drop": [], "blk": [nblocks - 1] * n2, "off": list(off2), "rot": 0})
    nb = nblocks
    bi = blkids or list(range(1, nb + 1))
    c = {"base": base, "bodies": bodies, "nranks": n, "mats": mats or [{"name": "material_1", "kind": kind, "rho": rho, "G": G, "K": K}],
         "blocks": [{"id": bi[i], "name": (names[i] if names else ""), "mat": i % len(mats) if mats else 0} for i in range(nb)], "idmode": ids, "idseed": idseed, "nodesets": [], "shuffle": shuffle}
    m = C.Mesh(c)
    sets = []
    for i, f in enumerate(nodesets):
        sets.append({"id": i + 1, "name": "", "nodes": [j for j in range(m.nn) if f(m.x[j])], "df": True})
    c["nodesets"] = sets
    cen = m.x[m.conn].mean(axis=1)
    if owner is None:
        order = sorted(range(m.ne), key=lambda e: (cen[e, 0], e))
        ow = [0] * m.ne
        for i, e in enumerate(order):
            ow[e] = i * n // m.ne
        c["owner"] = ow
    elif callable(owner):
        c["owner"] = [int(owner(*cen[e])) for e in range(m.ne)]
    else:
        c["owner"] = list(owner)
    dt = dtf * 0.5 / np.sqrt((K + 4 * G / 3) / rho)
    c["nsteps"] = steps
    c["t0"] = t0
    c["t1"] = float("%.6g" % (t0 + dt * steps))
    c["freq"] = freq
    c["bcs"] = [{"type": t, "set": "nodelist_%d" % s, "axis": "xyz".index(a), "val": v} for (t, s, a, v) in bcs]
    c["fields"] = fields or ["displacement", "velocity", "acceleration", "internal_force", "lumped_mass", "volume", "stress", "deformation_gradient"]
    c["contact"] = contact
    c["timing"] = timing
    c["tpetra"] = tpetra
    c["comments"] = 0
    return c


_shim = None


def shim():
    global _shim
    if _shim is None:
        _shim = os.path.join(TMP, "shim.so")
        subprocess.run(["mpicc", "-shared", "-fPIC", "-O1", "-w", "-fexceptions", "-o", _shim, os.path.join(HERE, "shim.c"), "-ldl"], check=True)
    return _shim


def mpirun(n, cmd, cwd, env=None, timeout=60, preload=False):
    """Exit status (None: did not end in time), output."""
    e = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_plm_rsh_agent="/bin/false", OMPI_MCA_btl="self,vader", OMPI_MCA_mpi_yield_when_idle="1")
    x = []
    if env or preload:
        for k, v in (env or {}).items():
            x += ["-x", "%s=%s" % (k, v)]
        x += ["-x", "LD_PRELOAD=" + shim()]
    p = subprocess.Popen(["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(n)] + x + cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        t, _ = p.communicate(timeout=timeout)
        return p.returncode, t
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGTERM)
        try:
            t, _ = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            t, _ = p.communicate()
        return None, t


class Run:
    pass


def prepare(c, name, one=False):
    d = os.path.join(TMP, name)
    F = C.Files(c, os.path.join(TMP, "files"))
    F.put(d, one=one)
    return F, d


def run(c, name="run", one=False, env=None, timeout=60, d=None, F=None, args=None):
    """Runs the problem; returns an object with rc, text, outs (lazily), F, dir."""
    if d is None:
        F, d = prepare(c, name, one)
    n = 1 if one else c["nranks"]
    r = Run()
    r.rc, r.text = mpirun(n, [EXE] + (["--use_tpetra"] if c["tpetra"] else []) + [c["base"] + ".in"], d, env, timeout)
    r.F, r.dir, r.c, r.n = F, d, c, n
    r.files = [os.path.join(d, c["base"] + ".out.e" + C.suffix(n, k)) for k in range(n)]
    return r


def outs(r):
    return [O.Out(p) for p in r.files]


def must(r, what="run"):
    if r.rc is None:
        bad(what + " did not end")
    if r.rc:
        bad(what + " failed with status %s:\n%s" % (r.rc, r.text[-1500:]))
    return outs(r)


def nodal(q, name, s):
    return dict(zip((int(g) for g in q.ids), q.node(name, s).astype(float)))


def compare(par, one, tol=1e-6):
    """First difference between the rank files and the undivided run, relative to the field's size."""
    q = one[0]
    for r, x in enumerate(par):
        if x.nsteps != q.nsteps:
            return "rank %d has %d output steps, the undivided run %d" % (r, x.nsteps, q.nsteps)
        for s in range(q.nsteps):
            if abs(x.time(s) - q.time(s)) > 1e-12 * (1 + abs(q.time(s))):
                return "rank %d output %d is at time %r, undivided %r" % (r, s, x.time(s), q.time(s))
            for name in q.nvars:
                a, b = nodal(x, name, s), nodal(q, name, s)
                z = max(max(abs(v) for v in nodal(q, nm, t).values()) for nm in q.nvars if nm[:4] == name[:4] for t in range(q.nsteps))
                for g in a:
                    if not abs(a[g] - b[g]) <= tol * z + 1e-30:
                        return "%s of node %d on rank %d at output %d is %r, undivided %r" % (name, g, r, s, a[g], b[g])
            for name in q.evars:
                a, b = x.elem(name, s), q.elem(name, s)
                z = max([abs(v) for v in b.values()] + [1e-12])
                for g in a:
                    if not abs(a[g] - b[g]) <= tol * max(z, 1.0):
                        return "%s of element %d on rank %d at output %d is %r, undivided %r" % (name, g, r, s, a[g], b[g])
    return None


def same_bits(a, b):
    for p, q in zip(a.files, b.files):
        d = O.diff(O.canon(p), O.canon(q))
        if d:
            return os.path.basename(p) + ": " + d
    return None


def replicas(qs):
    for s in range(qs[0].nsteps):
        for name in qs[0].nvars:
            seen = {}
            for r, q in enumerate(qs):
                for g, v in nodal(q, name, s).items():
                    if g in seen and seen[g][1] != v:
                        return "%s of node %d at output %d: %r on rank %d, %r on rank %d" % (name, g, s, seen[g][1], seen[g][0], v, r)
                    seen.setdefault(g, (r, v))
    return None


def program(src, cwd="."):
    """Builds a C++ program against the built library; returns its path."""
    exe = os.path.join(TMP, "prog")
    lib = next(p for p in ("_build/src/libnimble.a", "_build/libnimble.a") if os.path.exists(p)) if any(os.path.exists(p) for p in ("_build/src/libnimble.a", "_build/libnimble.a")) else None
    t = open("_build/build.ninja").read()
    m = re.search(r"build src/NimbleSM: [^\n]*\n((?:  [^\n]*\n)+)", t)
    ll = re.search(r"LINK_LIBRARIES = ([^\n]*)", m.group(1)).group(1)
    inc = re.search(r"\n  INCLUDES = ([^\n]*)", t).group(1)
    df = re.search(r"\n  DEFINES = ([^\n]*)", t).group(1)
    cmd = "g++ -O1 -w -std=c++14 -fno-lto %s %s -o %s %s %s" % (df, inc, exe, os.path.join(HERE, src), ll)
    p = subprocess.run(cmd, shell=True, cwd="_build", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(cmd)
        print(p.stdout[-3000:])
        bad("the demonstration does not compile")
    return exe
