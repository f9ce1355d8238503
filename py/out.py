"""Reading result files: an own small reader of the classic netCDF container
(so that a damaged tail does not hide the undamaged part), and the exodus view."""
import struct

import numpy as np

TY = {1: ("b", 1), 2: ("S1", 1), 3: (">i2", 2), 4: (">i4", 4), 5: (">f4", 4), 6: (">f8", 8), 7: ("u1", 1), 8: (">u2", 2), 9: (">u4", 4), 10: (">i8", 8), 11: (">u8", 8)}


class Bad(Exception):
    pass


class NC:
    def __init__(self, data):
        self.d = data
        self.p = 0
        if data[:3] != b"CDF" or len(data) < 8 or data[3] not in (1, 2, 5):
            raise Bad("not a result file (%d bytes)" % len(data))
        self.ver = data[3]
        self.p = 4
        try:
            self.numrecs = self.nn()
            self.dims = []
            if self.tag(10):
                for _ in range(self.nn()):
                    nm = self.name(); self.dims.append((nm, self.nn()))
            self.atts = self.attlist()
            self.vars = {}
            self.reclen = 0
            if self.tag(11):
                for _ in range(self.nn()):
                    nm = self.name()
                    di = [self.nn() for _ in range(self.nn())]
                    at = self.attlist()
                    ty = self.u4()
                    vs = self.nn()
                    begin = self.u4() if self.ver == 1 else self.u8()
                    rec = bool(di) and self.dims[di[0]][1] == 0
                    shape = [self.dims[i][1] for i in di]
                    cnt = 1
                    for s in (shape[1:] if rec else shape):
                        cnt *= s
                    size = cnt * TY[ty][1]
                    self.vars[nm] = dict(ty=ty, shape=shape, rec=rec, begin=begin, cnt=cnt, size=size, att=at)
        except (struct.error, IndexError, KeyError, UnicodeDecodeError) as e:
            raise Bad("damaged header: %r" % (e,))
        rv = [v for v in self.vars.values() if v["rec"]]
        if len(rv) == 1:
            self.reclen = rv[0]["size"]
        else:
            self.reclen = sum((v["size"] + 3) // 4 * 4 for v in rv)
        self.hdr_end = self.p

    def u4(self):
        v = struct.unpack_from(">I", self.d, self.p)[0]; self.p += 4; return v

    def u8(self):
        v = struct.unpack_from(">Q", self.d, self.p)[0]; self.p += 8; return v

    def nn(self):
        return self.u8() if self.ver == 5 else self.u4()

    def name(self):
        n = self.nn()
        if n > 4096:
            raise Bad("damaged header")
        s = self.d[self.p:self.p + n].decode(); self.p += (n + 3) // 4 * 4
        return s

    def tag(self, want):
        t = self.u4()
        if t == 0:
            self.nn(); return False
        if t != want:
            raise Bad("damaged header")
        return True

    def attlist(self):
        r = {}
        if self.tag(12):
            for _ in range(self.nn()):
                nm = self.name(); ty = self.u4(); n = self.nn()
                sz = n * TY[ty][1]
                r[nm] = (ty, self.d[self.p:self.p + sz]); self.p += (sz + 3) // 4 * 4
        return r

    def get(self, name, rec=None):
        """A fixed variable, or one record of a record variable."""
        v = self.vars[name]
        o = v["begin"] + (self.reclen * rec if v["rec"] else 0)
        if rec is not None and v["rec"] and rec >= self.numrecs:
            raise Bad("record %d of %s does not exist (%d records)" % (rec, name, self.numrecs))
        raw = self.d[o:o + v["size"]]
        if len(raw) < v["size"]:
            raise Bad("%s%s is cut off" % (name, "" if rec is None else " record %d" % rec))
        a = np.frombuffer(raw, dtype=TY[v["ty"]][0])
        return a.reshape(v["shape"][1:] if v["rec"] else v["shape"])

    def strings(self, name):
        a = self.get(name)
        return [r.tobytes().split(b"\0")[0].decode("latin1").rstrip() for r in a]


class Out:
    """Exodus view of one result file."""

    def __init__(self, path, lenient=False):
        with open(path, "rb") as f:
            self.nc = NC(f.read())
        nc = self.nc
        self.nsteps = nc.numrecs
        self.nn = dict(nc.dims).get("num_nodes", 0)
        self.ne = dict(nc.dims).get("num_elem", 0)
        self.ids = nc.get("node_num_map").astype(int) if "node_num_map" in nc.vars else np.arange(1, self.nn + 1)
        self.eids = nc.get("elem_num_map").astype(int) if "elem_num_map" in nc.vars else np.arange(1, self.ne + 1)
        self.blkids = nc.get("eb_prop1").astype(int) if "eb_prop1" in nc.vars else np.array([], dtype=int)
        self.nvars = nc.strings("name_nod_var") if "name_nod_var" in nc.vars else []
        self.evars = nc.strings("name_elem_var") if "name_elem_var" in nc.vars else []
        self.blkn = []
        d = dict(nc.dims)
        for b in range(len(self.blkids)):
            self.blkn.append(d.get("num_el_in_blk%d" % (b + 1), 0))

    def coords(self):
        return np.stack([self.nc.get("coord" + a) for a in "xyz"], axis=1).astype(float)

    def time(self, s):
        return float(self.nc.get("time_whole", s)) if self.nc.vars["time_whole"]["shape"][1:] == [] else float(self.nc.get("time_whole", s).ravel()[0])

    def times(self):
        return [self.time(s) for s in range(self.nsteps)]

    def node(self, name, s):
        return self.nc.get("vals_nod_var%d" % (self.nvars.index(name) + 1), s)

    def vec(self, name, s):
        return np.stack([self.node(name + c, s) for c in ("_x", "_y", "_z")], axis=1).astype(float)

    def has(self, name):
        return name in self.nvars or name + "_x" in self.nvars

    def elem(self, name, s):
        """dict element id -> value, over all blocks that carry the variable."""
        k = self.evars.index(name) + 1
        r, o = {}, 0
        for b, n in enumerate(self.blkn):
            v = "vals_elem_var%deb%d" % (k, b + 1)
            if n and v in self.nc.vars:
                a = self.nc.get(v, s)
                for i in range(n):
                    r[int(self.eids[o + i])] = float(a[i])
            o += n
        return r

    def conn(self):
        """Per block: (block id, array of local node numbers, 0-based)."""
        r = []
        for b, n in enumerate(self.blkn):
            if n:
                r.append((int(self.blkids[b]), self.nc.get("connect%d" % (b + 1)).astype(int) - 1))
        return r

    def record(self, s):
        """All values of one output step, as bytes per variable."""
        return {n: self.nc.get(n, s).tobytes() for n, v in self.nc.vars.items() if v["rec"]}


VOLATILE = ("qa_records", "info_records")


def canon(path):
    """Everything a result file says except when it was written."""
    with open(path, "rb") as f:
        nc = NC(f.read())
    r = {"dims": [(a, b) for a, b in nc.dims], "numrecs": nc.numrecs}
    for n, v in nc.vars.items():
        if n in VOLATILE:
            continue
        if v["rec"]:
            r[n] = tuple(nc.get(n, s).tobytes() for s in range(nc.numrecs))
        else:
            r[n] = nc.get(n).tobytes()
        r[n + "@"] = sorted((k, t, bytes(x)) for k, (t, x) in v["att"].items())
    return r


def diff(a, b):
    """First difference between two canon() results, as text; None if equal."""
    if a == b:
        return None
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "%s present in only one of the files" % k
        if a[k] != b[k]:
            if k == "numrecs":
                return "number of output steps differs: %d and %d" % (a[k], b[k])
            if isinstance(a[k], tuple) and isinstance(b[k], tuple):
                for s, (x, y) in enumerate(zip(a[k], b[k])):
                    if x != y:
                        fx, fy = np.frombuffer(x, dtype=">f8"), np.frombuffer(y, dtype=">f8")
                        if len(fx) == len(fy):
                            i = int(np.argmax([p != q for p, q in zip(fx.tolist(), fy.tolist())]))
                            return "%s differs at output %d entry %d: %r and %r" % (k, s, i, float(fx[i]), float(fy[i]))
                        return "%s differs at output %d" % (k, s)
                return "%s has %d and %d records" % (k, len(a[k]), len(b[k]))
            return "%s differs" % k
    return "differs"


def merge(paths):
    """All rank files of a run -> {times, node: {id: rank,idx list}}, replicas kept."""
    return [Out(p) for p in paths]
