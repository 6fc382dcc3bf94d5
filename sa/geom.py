"""Rotations, frames and the movement test: exact identities between the
expressions the functions compute and what they have to be."""
from . import logic as L, algebra
from .poly import Poly, K, A, ZERO, ONE, ATOMS, atom
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import Model, NS, PURE, pure_vec, CXY, C
from .values import *
from .soil import Obl, holds, path_of
from .ir import ptype, strip_ref

HALF = K(1).scale(__import__("fractions").Fraction(1, 2))


def dot(a, b):
    r = ZERO
    for x, y in zip(a, b):
        r = r + x * y
    return r


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def hamilton(p, q):
    return [p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3],
            p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2],
            p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1],
            p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0]]


def reduce_sq(p, a, sq):
    """replace a^2 by sq (atom a)"""
    while True:
        out, ch = ZERO, False
        for m, c in p.t.items():
            d = dict(m)
            e = d.get(a.id, 0)
            if e >= 2:
                ch = True
                d[a.id] = e % 2
                if not d[a.id]:
                    del d[a.id]
                out = out + Poly({tuple(sorted(d.items())): c}) * algebra.power(sq, e // 2)
            else:
                out = out + Poly({m: c})
        p = out
        if not ch:
            return p


def conj(q):
    return [q[0], -q[1], -q[2], -q[3]]


def rotated(q, v):
    return hamilton(hamilton(conj(q), [ZERO] + list(v)), q)[1:]


class QuatModel(Model):
    """vector arguments named after their position, with the right number of components"""
    sizes = ()

    def vecarg(self, n, p, fd):
        return self.vec("v%d_" % n, self.sizes[n] if n < len(self.sizes) else 3)

    def column(self, *a):
        pass


class RotModel(QuatModel):
    sizes = (4, 3)


class QuatModel44(QuatModel):
    sizes = (4, 4)


def ret(sig):
    v = sig[1] if sig[0] == "ret" else None
    return v.items if isinstance(v, VList) and all(isinstance(x, Poly) for x in v.items) else None


class Rotation(Obl):
    """the rotation is conj(q) p q: linear, length-preserving, orientation-preserving"""

    def exit(self, ip, st, sig, fd):
        m, loc = ip.model, ip.loc(fd)
        q, v, r = m.vec("v0_", 4).items, m.vec("v1_", 3).items, ret(sig)
        if not self.ob(loc, r is not None and len(r) == 3, "the rotation does not give three coordinates"):
            return
        r = [st.facts.norm(x) for x in r]
        self.ob(loc, algebra.zero(dot(r, r) - dot(v, v)), "the rotation changes lengths")
        for k, w in enumerate(rotated(q, v)):
            self.ob(loc, algebra.zero(r[k] * dot(q, q) - w), "component %d of the rotated vector is not that of conj(q) v q / |q|^2" % k)


class Product(Obl):
    def exit(self, ip, st, sig, fd):
        m, loc = ip.model, ip.loc(fd)
        p, q, r = m.vec("v0_", 4).items, m.vec("v1_", 4).items, ret(sig)
        if not self.ob(loc, r is not None and len(r) == 4, "the product of two quaternions does not have four components"):
            return
        for k, w in enumerate(hamilton(p, q)):
            self.ob(loc, algebra.same(st.facts.norm(r[k]), w), "component %d of the product of two quaternions is not that of the Hamilton product" % k)


class Normal(Obl):
    def exit(self, ip, st, sig, fd):
        m, loc = ip.model, ip.loc(fd)
        a, b, c = [m.vec("v%d_" % k, 3).items for k in range(3)]
        n = ret(sig)
        if not self.ob(loc, n is not None and len(n) == 3, "the normal does not have three coordinates"):
            return
        n = [st.facts.norm(x) for x in n]
        u, v = [y - x for x, y in zip(a, b)], [y - x for x, y in zip(a, c)]
        self.ob(loc, algebra.zero(dot(n, n) - ONE), "the normal is not a unit vector")
        self.ob(loc, algebra.zero(dot(n, u)), "the normal is not perpendicular to the first edge")
        self.ob(loc, algebra.zero(dot(n, v)), "the normal is not perpendicular to the second edge")
        x = cross(u, v)
        for k in range(3):      # n |x| = x, up to the sign chosen for all components
            self.ob(loc, algebra.zero(n[k] * dot(n, x) - x[k]), "the normal does not follow the cross product (component %d)" % k)
        s = atom("app", "sqrt", (dot(x, x),))
        d = algebra.clear(dot(n, x) - A(s))
        self.ob(loc, d == ZERO or algebra.zero(d), "the normal points away from the cross product of the edges")


class FrameModel(QuatModel):
    def otherarg(self, p, t, fd):
        return None


class Frame(Obl):
    """global cell -> body frame is undone by the pose"""

    def exit(self, ip, st, sig, fd):
        m, loc = ip.model, ip.loc(fd)
        r = ret(sig)
        if not self.ob(loc, r is not None and len(r) == 3, "the position in the body frame does not have three coordinates"):
            return
        q, p = m.vec("bori", 4).items, m.vec("bpos", 3).items
        r = [st.facts.norm(x) for x in r]
        back = rotated(q, r)
        g = m.grid()
        ints = [A(atom("par", "arg_" + x["n"], isint=True)) for x in fd["params"] if strip_ref(ptype(x["t"])) == ("int",)]
        fl = [x for x in fd["params"] if strip_ref(ptype(x["t"])) == ("float",)]
        want = []
        for k, ax in ((0, "x"), (1, "y")):
            e = ip.cell(g.f["vect_%s_" % ax], (ints[k],), "", ("float",), ht=False)
            want.append(A(e))
        from .model import TOLP
        want.append(TOLP)       # the only float argument is bound to this symbol
        for k, ax in enumerate("xyz"):
            self.ob(loc, algebra.zero(back[k] - (want[k] - p[k]) * dot(q, q)), "transforming a body-frame position back with the same pose does not give the %s of the cell" % ax)


class Corners(Obl):
    """corner = pose(vertex) +- half width along the normal of the rotated side"""
    NAMES = ("right of the joint", "left of the joint", "right of the base", "left of the base", "right of the teeth", "left of the teeth")

    def exit(self, ip, st, sig, fd):
        m, loc = ip.model, ip.loc(fd)
        v = sig[1] if sig[0] == "ret" else None
        if isinstance(v, Struct):
            v = VList(list(v.f.values()))
        ok = isinstance(v, VList) and len(v.items) == 6 and all(isinstance(x, VList) and len(x.items) == 3 for x in v.items)
        if not self.ob(loc, ok, "the corners are not six positions"):
            return
        q, p = m.vec("v1_", 4).items, m.vec("v0_", 3).items
        b = m.bodyval(NS + "Body")
        rot = []
        for f in ("j_pos_init_", "b_pos_init_", "t_pos_init_"):
            args = tuple(list(q) + list(b.f[f].items))
            rot.append([A(atom("app", "CalcRotationQuaternion.%d" % i, args)) for i in range(3)])
        na = tuple(rot[0] + rot[1] + rot[2])
        nrm = [A(atom("app", "CalcNormal.%d" % i, na)) for i in range(3)]
        w = b.f["width_"]
        for c in range(6):
            sg = ONE if c % 2 == 0 else -ONE
            for k in range(3):
                want = p[k] + rot[c // 2][k] + sg * HALF * w * nrm[k]
                self.ob(loc, algebra.same(st.facts.norm(v.items[c].items[k]), want),
                        "the corner %s is not the transformed vertex shifted by half the width (axis %s)" % (self.NAMES[c], "xyz"[k]))


class CornerModel(QuatModel):
    sizes = (3, 4)


class EulerModel(QuatModel):
    sizes = (3,)


class Euler(Obl):
    """AngleToQuat: the unit quaternion q with q0 >= 0 that equals +-(qz qy qx)"""

    def exit(self, ip, st, sig, fd):
        m, loc = ip.model, ip.loc(fd)
        a, r = m.vec("v0_", 3).items, ret(sig)
        if not self.ob(loc, r is not None and len(r) == 4, "the quaternion does not have four components"):
            return
        sc = []
        for x in a:
            h = x.scale(HALF.cval())
            sc.append((A(atom("app", "sin", (h,))), A(atom("app", "cos", (h,)))))
        (s0, c0), (s1, c1), (s2, c2) = sc
        want = hamilton(hamilton([c0, ZERO, ZERO, s0], [c1, ZERO, s1, ZERO]), [c2, s2, ZERO, ZERO])
        r = [st.facts.norm(x) for x in r]

        def z(p):
            p = algebra.clear(p)
            for s, c in sc:
                p = reduce_sq(p, s.as_atom(), ONE - c * c)
            return p == ZERO
        plus = all(z(x - y) for x, y in zip(r, want))
        minus = all(z(x + y) for x, y in zip(r, want))
        self.ob(loc, plus or minus, "the quaternion is not that of the Z, Y, X rotations by the given angles", got=r)
        self.ob(loc, z(dot(r, r) - ONE), "the quaternion does not have unit length")


def geom_jobs():
    from .run import interp_job
    sub = {k: v for k, v in PURE.items() if not k.endswith("CalcRotationQuaternion") and not k.endswith("MultiplyQuaternion")}
    return [interp_job("CalcRotationQuaternion", [Rotation], model=RotModel, pure={}),
            interp_job("MultiplyQuaternion", [Product], model=QuatModel44, pure={}),
            interp_job("CalcNormal", [Normal], model=QuatModel, pure={}),
            interp_job("CalcBodyFramePos", [Frame], model=FrameModel, pure={}),
            interp_job("CalcBodyCornerPos", [Corners], model=CornerModel),
            interp_job("AngleToQuat", [Euler], model=EulerModel, pure={})]
