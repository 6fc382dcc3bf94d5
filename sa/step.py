"""The step as a whole: the phases are replaced by summaries (each is analysed on
its own) and the orchestration is interpreted: order, arguments, pass budget,
flag, areas, effects of a step that does nothing."""
from . import logic as L, effects, run, cover, poly as P
from .poly import Poly, K, A, ZERO, ONE, atom, fresh
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import Model, NS, TOLP, analyse, PURE
from .values import *
from .soil import Obl, holds, path_of

CHK, POS, UBS, MBS, MB, RT, RB = "CheckBodyMovement", "CalcBodyPos", "UpdateBodySoil", "MoveIntersectingBodySoil", "MoveIntersectingBody", "RelaxTerrain", "RelaxBodySoil"
ORDER = [CHK, POS, UBS, MBS, MB]
# state of the step: 0 nothing yet, 1..5 phases of ORDER done, 6 ground relaxed, 7 body soil relaxed
NEED = {CHK: (0,), POS: (1,), UBS: (2,), MBS: (3,), MB: (4,), RT: (5, 7), RB: (6,)}
AFTER = {CHK: 1, POS: 2, UBS: 3, MBS: 4, MB: 5, RT: 6, RB: 7}
TEXT = {CHK: "the movement test", POS: "positioning of the body", UBS: "relocation of the carried soil",
        MBS: "clearing of body soil out of the walls", MB: "clearing of ground soil out of the walls",
        RT: "relaxation of the ground", RB: "relaxation of the body soil"}
_EFF = {}


def phase_writes(name):
    """(SimOut fields, body fields) that a phase may write, from the effects of everything it reaches"""
    if not _EFF:
        _EFF["e"] = effects.Effects(run.program())
    ef = _EFF["e"]
    if name not in _EFF:
        sim, body = set(), set()
        for s in ef.reach([NS + name]):
            for (cls, f) in ef.fx[s].writes:
                if cls == NS + "SimOut":
                    sim.add(f)
                elif cls in (NS + "Body", NS + "Bucket", NS + "Blade"):
                    body.add(f)
        _EFF[name] = (sim, body)
    return _EFF[name]


class StepModel(Model):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.bad = []          # (loc, ok, msg, detail)

    eq0 = True

    def simout(self):
        s = super().simout()
        f = dict(s.f)
        f["equilibrium_"] = L.T if self.eq0 else L.F
        f["~st"], f["~n"], f["~unst"] = ZERO, ZERO, L.F
        return Struct(s.name, f)

    def note(self, ip, st, e, ok, msg, **d):
        if not self.cheap:
            self.report(self._note, ip.loc(e), bool(ok), msg, {k: str(v)[:600] for k, v in d.items()})

    def _note(self, loc, ok, msg, d):
        self.bad.append((loc, ok, msg, d))

    def havoc(self, ip, s, fields, tag):
        sim = s.store[("sim",)]
        f = dict(sim.f)
        for n in fields:
            v = f.get(n)
            if isinstance(v, Sym):
                ep = {x: "P%d" % ip.freshn() if hasattr(ip, "freshn") else "P%s" % A(fresh("ep")).as_atom().id for x in v.ep}
                kw = dict(ep=ep, log=(), fill=None, reads={})
                if v.tag == "recs":
                    n2 = fresh("nrec", isint=True)
                    L.add_axioms(n2, [ge(A(n2))]) if hasattr(L, "add_axioms") else None
                    s.facts.assume(ge(A(n2)))
                    kw.update(size=(A(n2),), sum=A(fresh("sum")))
                f[n] = v.rep(**kw)
            elif isinstance(v, VList):
                f[n] = VList([VList([A(fresh(n, isint=True)) for _ in r.items], r.et) for r in v.items], v.et)
            elif n == "equilibrium_":
                pass
            elif v is not None:
                f[n] = A(fresh(n))
        s.store[("sim",)] = Struct(sim.name, f)
        s.ghost = {"GT": A(fresh("GT")), "GS": A(fresh("GS"))}

    def val(self, ip, st, v):
        if isinstance(v, RefV):
            r = ip.load(st, v.lv, {"l": 0})
            return r[0][1]
        return v

    def args(self, ip, st, fd, vs, e, name):
        """every argument is the step's own"""
        ref = {"pos": self.vec("pos", 3), "ori": self.vec("ori", 4), "tol": TOLP}
        nvec = 0
        for p, v in zip(fd["params"], vs):
            v = self.val(ip, st, v)
            t = p["t"]
            ok = True
            if "vector" in t and "float" in t:
                want = ref["pos"] if nvec == 0 else ref["ori"]
                nvec += 1
                ok = isinstance(v, VList) and v.items == want.items
            elif isinstance(v, Ptr):
                ok = v.lv is not None and v.lv.root in (("sim",), ("body",)) and not v.lv.path
            elif isinstance(v, Poly) and t.replace("const ", "") == "float":
                ok = v == TOLP
            elif isinstance(v, Struct) and v.name == NS + "Grid":
                ok = v == self.grid()
            elif isinstance(v, Struct) and v.name == NS + "SimParam":
                ok = v == self.simparam()
            self.note(ip, st, e, ok, "%s is run with another %s than the step was given" % (TEXT[name], p["n"]), given=v)

    def summary(self, ip, st, fd, vs, e, this):
        nm = fd["name"]
        short = nm[len(NS):] if nm.startswith(NS) else nm
        if short not in NEED:
            return super().summary(ip, st, fd, vs, e, this)
        st = st.copy()
        sim = st.store[("sim",)]
        self.args(ip, st, fd, vs, e, short)
        cur = st.facts.norm(sim.f["~st"]).cval()
        self.note(ip, st, e, cur in NEED[short], "%s does not run in its place" % TEXT[short], state=cur, path=path_of(st))
        if short == CHK:
            out = []
            for res in (L.T, L.F):
                s = st.copy()
                s.store[("sim",)] = sim.set("~st", ONE)
                s.x["moved"] = res is L.T
                out.append((s, res))
            return out
        if short in (RT, RB):
            eqv = sim.f["equilibrium_"]
            if short == RT:
                self.note(ip, st, e, st.facts.prove(Not(eqv)), "another relaxation pass is run although equilibrium was reached", path=path_of(st))
                n = sim.f["~n"]
                sp = self.simparam()
                self.note(ip, st, e, holds(st.facts, gt(sp.f["max_iterations_"] - n)),
                          "more relaxation passes may be run than the configured maximum", passes=n, path=path_of(st))
                for a in (0, 1):
                    b, r, m = (sim.f[x].items[a].items for x in ("body_area_", "relax_area_", "impact_area_"))
                    f = st.facts
                    ok = holds(f, And(ge(b[0] - m[0]), ge(r[0] - m[0]), Or(eq(m[0] - b[0]), eq(m[0] - r[0])),
                                      ge(m[1] - b[1]), ge(m[1] - r[1]), Or(eq(m[1] - b[1]), eq(m[1] - r[1]))))
                    self.note(ip, st, e, ok, "the pass does not examine the union of the body area and the relaxed area (axis %d)" % a,
                              area=m, body=b, relaxed=r)
        ws, wb = phase_writes(short)
        self.havoc(ip, st, ws - {"equilibrium_"}, short)
        sim = st.store[("sim",)].set("~st", K(AFTER[short]))
        st.store[("sim",)] = sim
        if short == UBS:
            b = st.store[("body",)]
            self.note(ip, st, e, b.f["pos_"] == self.vec("bpos", 3) and b.f["ori_"] == self.vec("bori", 4),
                      "the stored pose is replaced before the carried soil was relocated relative to it")
            if "pos_" in wb:
                b = b.set("pos_", self.vec("pos", 3))
            if "ori_" in wb:
                b = b.set("ori_", self.vec("ori", 4))
            st.store[("body",)] = b
        elif wb:
            b = st.store[("body",)]
            for f in wb:
                b = b.set(f, Opaque("havoc", f))
            st.store[("body",)] = b
        if short == RT:
            sim = sim.set("~n", st.facts.norm(sim.f["~n"] + ONE))
            out = []
            for stable in (True, False):
                s = st.copy()
                s.store[("sim",)] = sim.set("equilibrium_", L.T if stable else L.F).set("~unst", L.F if stable else L.T)
                out.append((s, None))
            return out
        if short == RB:
            s2 = st.copy()
            s2.store[("sim",)] = sim.set("equilibrium_", L.F).set("~unst", L.T)
            return [(st, None), (s2, None)]
        if "equilibrium_" in ws:
            self.note(ip, st, e, False, "%s touches the equilibrium flag" % TEXT[short])
        return [(st, None)]


class StepExit(Obl):
    """what holds when the step returns"""

    def __init__(self, what):
        super().__init__()
        self.what = what

    def cut(self, ip, st, seg, why, node):
        for e in seg:
            if e.kind in ("w", "rw", "assign", "push", "clear", "pop", "append") and "C09" in self.what:
                self.ob(e.loc, False, "the step itself changes %s between the phases" % (e.d.get("tag") or e.d.get("name") or "soil data"))
            if e.kind == "swap" and "C09" in self.what:
                self.ob(e.loc, True, "")

    def exit(self, ip, st, sig, fd):
        loc = ip.loc(fd)
        f = st.facts
        sim, body = st.store[("sim",)], st.store[("body",)]
        m = ip.model
        ret = sig[1] if sig[0] == "ret" else None
        r = True if f.prove(ret) else False if f.prove(Not(ret)) else None if isinstance(ret, L.Bx) else "?"
        if isinstance(ret, Poly):
            r = bool(f.norm(ret).cval())
        stt = f.norm(sim.f["~st"]).cval()
        moved = st.x.get("moved")
        if "C08" in self.what:
            if not moved:
                m0 = m.simout()
                self.ob(loc, r is False, "a step whose movement is too small does not report that nothing was done", path=path_of(st))
                ch = [k for k in m0.f if k not in ("~st",) and not (sim.f[k] == m0.f[k])]
                self.ob(loc, not ch, "a step with a too small movement changes %s" % ", ".join(ch), path=path_of(st))
                b0 = m.bodyval(body.name)
                cb = [k for k in b0.f if not (body.f[k] == b0.f[k])]
                self.ob(loc, not cb, "a step with a too small movement changes the stored %s of the body" % ", ".join(cb))
                ev = [e for e in st.seg if e.kind in ("rng", "log", "w", "rw", "set", "static", "assign", "push", "clear", "swap")]
                self.ob(loc, not ev, "a step with a too small movement has an effect", events=ev)
                self.ob(loc, stt in (0, 1), "a step with a too small movement runs a phase")
        if "C09" in self.what:
            self.ob(loc, r in (True, False) and r == bool(moved), "the result does not tell whether the step was performed", result=ret)
            if moved:
                self.ob(loc, stt in (5, 7), "a performed step does not run all its phases", state=stt, path=path_of(st))
                self.ob(loc, list(body.f["pos_"].items) == list(m.vec("pos", 3).items) and list(body.f["ori_"].items) == list(m.vec("ori", 4).items)
                        if isinstance(body.f["pos_"], VList) and isinstance(body.f["ori_"], VList) else False,
                        "the stored pose is not the requested one after a performed step")
        if moved and "C10" in self.what:
            e, u, n = sim.f["equilibrium_"], sim.f["~unst"], sim.f["~n"]
            self.ob(loc, f.prove(Or(Not(e), Not(u))), "the step may end flagged as in equilibrium after a pass that moved soil", path=path_of(st))
            self.ob(loc, holds(f, Or(Not(e), gt(n))), "the step may end flagged as in equilibrium without any relaxation pass", path=path_of(st))
            self.ob(loc, f.prove(Or(e, u)) or holds(f, Or(e, u, eq(n))), "the step may end flagged as unstable after a pass that found equilibrium", path=path_of(st))
        if moved and "C11" in self.what:
            e, n = sim.f["equilibrium_"], sim.f["~n"]
            mx = m.simparam().f["max_iterations_"]
            self.ob(loc, holds(f, ge(mx - n)), "more relaxation passes may be run than the configured maximum", passes=n, path=path_of(st))
            self.ob(loc, holds(f, Or(e, eq(mx - n))), "the step may stop before equilibrium with passes left", passes=n, path=path_of(st))

    # notes of the model are turned into obligations at the end
    def take(self, model):
        key = {"C09": ("does not run in its place", "than the step was given", "the stored pose is replaced before"), "C10": ("touches the equilibrium flag",),
               "C11": ("although equilibrium was reached", "configured maximum", "does not examine the union"), "C08": ()}
        pats = [x for w in self.what for x in key[w]]
        for loc, ok, msg, d in model.bad:
            if any(p in msg for p in pats):
                self.ob(loc, ok, msg, **d)


def step_jobs(*what):
    """both instantiations of Step, with the flag initially set and cleared"""
    out = []
    prog = run.program()
    n = len([f for f in prog.byname.get(NS + "SoilDynamics::Step", []) if f.get("body") is not None])
    for k in range(max(n, 1)):
        for e0 in (True, False):
            def go(k=k, e0=e0):
                r = run.Result()
                ls = [StepExit(what)]
                m = StepModel(listeners=ls)
                m.eq0 = e0
                m.pure = dict(PURE)
                ip, fd, outs = analyse(prog, NS + "SoilDynamics::Step", m, nth=k)
                m.flush()
                ls[0].take(m)
                x = ls[0]
                r.viol = [(f, l, msg, d) for (f, l, msg), d in x.viol.items()]
                r.obligations, r.sites, r.assumed = x.n, x.sites, m.assumed
                r.info = {"paths": ip.stats["paths"], "functions": sorted(run.short(c) for c in ip.stats["calls"])}
                return r
            out.append(run.Job("Step#%d%s" % (k, "" if e0 else " (flag cleared before)"), go))
    return out


class PoseStored(Obl):
    """the relocation of the carried soil works with the previous pose and stores the requested one at its end"""

    def pose(self, ip, st):
        b, m = st.store[("body",)], ip.model
        out = []
        for f, n, old, new in (("pos_", 3, "bpos", "pos"), ("ori_", 4, "bori", "ori")):
            v = b.f[f]
            out.append("new" if v == m.vec(new, n) else "old" if v == m.vec(old, n) else "other")
        return out

    def iteration(self, ip, loop, head, back):
        p = self.pose(ip, back)
        self.ob(ip.loc(loop.s), p == ["old", "old"], "the stored pose changes while the carried soil is still being relocated", pose=p)

    def exit(self, ip, st, sig, fd):
        if sig[0] == "throw":
            return
        ws = phase_writes(UBS)[1]
        want = ["new" if f in ws else "old" for f in ("pos_", "ori_")]
        p = self.pose(ip, st)
        self.ob(ip.loc(fd), p == want, "the relocation of the carried soil can end without storing the requested pose", pose=p)


class RelaxArea(Obl):
    """the area reported for the next pass stays inside the grid and reaches
    every column the pass worked on"""

    def __init__(self):
        super().__init__()
        self.loops = {}        # value at the head of a loop -> (states after a turn, positions)

    def iteration(self, ip, loop, head, back):
        if back.facts.dead:
            return
        cs = [q.hv.as_atom() for q in cover.ranges(loop)]
        cs = {c.id for c in cs if c is not None}
        for r, h in head.store.items():
            if r[0] != "v" or not isinstance(h, Poly) or h.as_atom() is None or h.as_atom().id in cs:
                continue
            b = back.store.get(r)
            if not isinstance(b, Poly) or not h.as_atom().isint:
                continue
            bs, pos = self.loops.setdefault(h.as_atom().id, ([], {}))
            bs.append((back, b, ip.loc(loop.s) if isinstance(getattr(loop, "s", None), dict) else None))
            here = [x for x in b.deep() if P.ATOMS[x].deep & cs and x not in cs]
            for x in here:
                if not (P.ATOMS[x].deep - {x}) & set(here):
                    pos[x] = P.A(P.ATOMS[x])

    def reach(self, ip, st, fd, v, ax, up):
        """the bound is at least as far out as every column of the list"""
        f = st.facts
        sg = -1 if up else 1
        side = "upper" if up else "lower"
        far = ip.model.hl(ax).scale(2) if up else K(2)
        for x in v.deep():
            if x not in self.loops:
                continue
            bs, pos = self.loops[x]
            if not pos:
                continue
            h = A(P.ATOMS[x])
            bad = [(repr(b), repr(c)) for s, b, _ in bs for c in [h] + list(pos.values()) if not s.facts.dead and not holds(s.facts, ge((c - b).scale(sg)))]
            self.ob(ip.loc(fd), not bad, "the %s bound of the relaxed area does not follow every column that was worked on (axis %s)" % (side, ax), turns=bad[:3])
            self.ob(ip.loc(fd), holds(f, Or(ge((h - v).scale(sg)), ge((far - v).scale(sg)))),
                    "the %s bound of the relaxed area leaves out columns that were worked on (axis %s)" % (side, ax), bound=v)

    def exit(self, ip, st, sig, fd):
        f, m = st.facts, ip.model
        a, a0 = st.store[("sim",)].f["relax_area_"], m.simout().f["relax_area_"]
        if a == a0:
            eqv = st.store[("sim",)].f["equilibrium_"]
            self.ob(ip.loc(fd), f.prove(eqv), "a pass that moved soil may keep the relaxed area of the pass before", path=path_of(st))
            return
        old = ["%s %s" % (b, ax) for x, ax in ((0, "x"), (1, "y")) for k, b in ((0, "lower"), (1, "upper")) if a.items[x].items[k] == a0.items[x].items[k]]
        self.ob(ip.loc(fd), not old, "the relaxed area mixes bounds of this pass with bounds of the pass before", kept=old, path=path_of(st))
        for x, ax in ((0, "x"), (1, "y")):
            lo, hi = a.items[x].items
            hl = m.hl(ax)
            o = a0.items[x].items
            self.reach(ip, st, fd, lo, ax, False)
            self.reach(ip, st, fd, hi, ax, True)
            self.ob(ip.loc(fd), lo == o[0] or holds(f, ge(lo - ONE)), "the relaxed area may start at the outermost columns of axis %s" % ax, lo=lo, path=path_of(st))
            self.ob(ip.loc(fd), hi == o[1] or holds(f, ge(hl.scale(2) - hi)), "the relaxed area may include the outermost columns of axis %s" % ax, hi=hi, path=path_of(st))
