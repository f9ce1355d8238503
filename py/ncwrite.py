"""A minimal writer of the classic netCDF container (64-bit offsets)."""
import struct

import numpy as np

T = {"i": (4, ">i4"), "d": (6, ">f8"), "c": (2, "S1"), "f": (5, ">f4")}


def _pad(b):
    return b + b"\0" * (-len(b) % 4)


def _name(s):
    b = s.encode()
    return struct.pack(">I", len(b)) + _pad(b)


class Writer:
    def __init__(self):
        self.dims, self.atts, self.vars = [], [], []

    def dim(self, name, n):
        self.dims.append((name, 0 if n is None else n))

    def att(self, name, v):
        self.atts.append((name, v))

    def var(self, name, t, dims, data, atts=None):
        a = np.array(data, dtype=T[t][1])
        self.vars.append((name, t, dims, a.tobytes(), list((atts or {}).items())))

    @staticmethod
    def _atts(l):
        if not l:
            return struct.pack(">II", 0, 0)
        o = struct.pack(">II", 12, len(l))
        for n, v in l:
            o += _name(n)
            if isinstance(v, str):
                b = v.encode(); o += struct.pack(">II", 2, len(b)) + _pad(b)
            elif isinstance(v, np.float32):
                o += struct.pack(">IIf", 5, 1, v)
            else:
                o += struct.pack(">IIi", 4, 1, int(v))
        return o

    def bytes(self):
        ix = {n: i for i, (n, _) in enumerate(self.dims)}
        sz = dict(self.dims)

        def header(begins):
            o = b"CDF\x02" + struct.pack(">I", 0)
            o += struct.pack(">II", 10, len(self.dims))
            for n, v in self.dims:
                o += _name(n) + struct.pack(">I", v)
            o += self._atts(self.atts)
            o += struct.pack(">II", 11, len(self.vars))
            for k, (n, t, d, b, at) in enumerate(self.vars):
                o += _name(n) + struct.pack(">I", len(d)) + b"".join(struct.pack(">I", ix[x]) for x in d)
                o += self._atts(at)
                vs = len(b)
                if d and sz[d[0]] == 0:
                    vs = np.dtype(T[t][1]).itemsize * int(np.prod([sz[x] for x in d[1:]], dtype=int))
                o += struct.pack(">IIQ", T[t][0], (vs + 3) // 4 * 4, begins[k])
            return o

        h = len(header([0] * len(self.vars)))
        pos, begins = h, []
        for (n, t, d, b, at) in self.vars:
            begins.append(pos)
            if not (d and sz[d[0]] == 0):
                pos += len(_pad(b))
        for k, (n, t, d, b, at) in enumerate(self.vars):
            if d and sz[d[0]] == 0:
                begins[k] = pos
        return header(begins) + b"".join(_pad(b) for (n, t, d, b, at) in self.vars if not (d and sz[d[0]] == 0))
