"""Reference model of the undivided problem, written from the documented
equations: lumped mass, one point per 2x2x2 Gauss rule, velocity Verlet."""
import numpy as np

from case import expr_value, nsname

_g = 1.0 / np.sqrt(3.0)
_n = np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]], dtype=float)
GP = _n * _g


def _shape(p):
    N = np.prod(1.0 + _n * p, axis=1) / 8.0
    d = np.empty((8, 3))
    for a in range(3):
        o = [b for b in range(3) if b != a]
        d[:, a] = _n[:, a] * (1 + _n[:, o[0]] * p[o[0]]) * (1 + _n[:, o[1]] * p[o[1]]) / 8.0
    return N, d


SH = [_shape(p) for p in GP]
NQ = np.array([s[0] for s in SH])       # 8 points x 8 nodes
DQ = np.array([s[1] for s in SH])       # 8 points x 8 nodes x 3


def jac(X):
    """X: (ne,8,3) -> J (ne,8q,3,3) with J[a,b] = dx_a/dxi_b, and det."""
    J = np.einsum("qnb,ena->eqab", DQ, X)
    return J, np.linalg.det(J)


class Ref:
    def __init__(self, case, m):
        self.c, self.m = case, m
        self.X = m.x[m.conn]
        self.J0, self.d0 = jac(self.X)
        self.G0 = np.einsum("qnb,eqba->eqna", DQ, np.linalg.inv(self.J0))   # dN/dX
        mats = [case["mats"][b["mat"]] for b in case["blocks"]]
        self.rho = np.array([mats[b]["rho"] for b in m.blk])
        self.K = np.array([mats[b]["K"] for b in m.blk])
        self.G = np.array([mats[b]["G"] for b in m.blk])
        self.neo = np.array([mats[b]["kind"] == "neohookean" for b in m.blk])
        # consistent mass, rows summed
        me = np.einsum("e,eq,qn->en", self.rho, self.d0, NQ)
        self.mass = np.zeros(m.nn)
        np.add.at(self.mass, m.conn, me)
        self.vol0 = self.d0.sum(axis=1)

    def stress(self, F):
        I = np.eye(3)
        K, G = self.K[:, None], self.G[:, None]
        J = np.linalg.det(F)
        b = np.einsum("eqab,eqcb->eqac", F, F)
        p = 0.5 * K * (J - 1.0 / J)
        bb = J[..., None, None] ** (-2.0 / 3.0) * b
        dev = bb - np.trace(bb, axis1=-2, axis2=-1)[..., None, None] / 3.0 * I
        neo = p[..., None, None] * I + (G / J)[..., None, None] * dev
        e = 0.5 * (F + np.swapaxes(F, -1, -2)) - I
        tr = np.trace(e, axis1=-2, axis2=-1)
        el = 2.0 * G[..., None, None] * (e - tr[..., None, None] / 3.0 * I) + (K * tr)[..., None, None] * I
        return np.where(self.neo[:, None, None, None], neo, el)

    def force(self, u):
        x = self.X + u[self.m.conn]
        J, d = jac(x)
        g = np.einsum("qnb,eqba->eqna", DQ, np.linalg.inv(J))               # dN/dx
        F = np.einsum("eqaB,eqBA->eqaA", J, np.linalg.inv(self.J0))
        s = self.stress(F)
        fe = -np.einsum("eqab,eqnb,eq->ena", s, g, d)
        f = np.zeros((self.m.nn, 3))
        np.add.at(f, self.m.conn, fe)
        return f, F, s, d

    def kin(self, u, v, t, tp):
        dt = t - tp
        for bc in self.c["bcs"]:
            if bc["type"] == "initial_velocity":
                continue
            ax = bc["axis"]
            s = next(q for q in self.m.ns if nsname(q) == bc["set"])
            for n in s["nodes"]:
                val = expr_value(bc["val"], self.m.x[n], t)
                if bc["type"] == "prescribed_velocity":
                    v[n, ax] = val
                elif dt > 0:
                    v[n, ax] = (val - u[n, ax]) / dt

    def run(self):
        c, m = self.c, self.m
        u = np.zeros((m.nn, 3)); v = np.zeros((m.nn, 3)); a = np.zeros((m.nn, 3))
        for bc in c["bcs"]:
            if bc["type"] == "initial_velocity":
                s = next(q for q in m.ns if nsname(q) == bc["set"])
                for n in s["nodes"]:
                    v[n, bc["axis"]] = expr_value(bc["val"], m.x[n], c["t0"])
        t = c["t0"]
        self.kin(u, v, t, t)
        n = c["nsteps"]
        dt0 = (c["t1"] - c["t0"]) / n
        zero = np.zeros((m.nn, 3))
        I = np.broadcast_to(np.eye(3), (m.ne, 8, 3, 3))
        out = [dict(t=t, step=0, u=u.copy(), v=v.copy(), a=a.copy(), f=zero, F=I, s=np.zeros((m.ne, 8, 3, 3)), d=self.d0, vol=self.vol0)]
        for k in range(n):
            tp = t
            t = t + dt0
            dt = t - tp
            v += 0.5 * dt * a
            self.kin(u, v, t, tp)
            u += dt * v
            self.kin(u, v, t, tp)
            f, F, s, d = self.force(u)
            a = f / self.mass[:, None]
            v += 0.5 * dt * a
            if c["freq"] and (k % c["freq"] == 0 or k == n - 1):
                self.kin(u, v, t, tp)
                out.append(dict(t=t, step=k + 1, u=u.copy(), v=v.copy(), a=a.copy(), f=f, F=F, s=s, d=d, vol=d.sum(axis=1)))
        return out


def output_steps(c):
    if not c["freq"]:
        return [0]
    return [0] + [k + 1 for k in range(c["nsteps"]) if k % c["freq"] == 0 or k == c["nsteps"] - 1]
