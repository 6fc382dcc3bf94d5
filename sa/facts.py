"""The numeric abstract state: solved affine equalities + linear inequalities +
disequalities + undecided disjunctions."""
from . import poly as P
from .poly import Poly, K, A, C, ATOMS, subst, is_int, is_ht
from . import logic as L
from .logic import Bx, lit, Not, And, Or, T, F, bsubst, to_con, infeasible, TOLCONS

AX = {}        # atom id -> tuple of Bx valid for this atom (non clause)
AXC = {}       # atom id -> tuple of Bx clauses ('or')
TOLATOM = P.TOL.id


def add_axioms(a, facts, clauses=()):
    AX[a.id] = tuple(facts)
    if clauses:
        AXC[a.id] = tuple(clauses)


_concache = {}


def con_of(b):
    r = _concache.get(b)
    if r is None:
        r = _concache[b] = to_con(b.op, b.a) or ()
    return r


_axcons = {}


def ax_cons(aid):
    r = _axcons.get(aid)
    if r is None:
        out = []
        for b in AX.get(aid, ()):
            bs = b.a if b.op == "and" else (b,)
            for x in bs:
                if x.op in ("ge", "gt"):
                    out.append(x)
                elif x.op == "eq":
                    out.append(Bx("ge", x.a))
                    out.append(Bx("ge", -x.a))
        r = _axcons[aid] = out
    return r


class Dead(Exception):
    pass


class Facts:
    __slots__ = ("sub", "ineq", "nes", "clauses", "dead", "ver", "_dcache")

    def __init__(self):
        self.sub = {}
        self.ineq = {}      # Bx(ge/gt) -> True (ordered)
        self.nes = {}       # Bx(ne) -> True
        self.clauses = {}   # Bx(or) -> True
        self.dead = False
        self._dcache = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = dict(self.sub)
        f.ineq = dict(self.ineq)
        f.nes = dict(self.nes)
        f.clauses = dict(self.clauses)
        f.dead = self.dead
        f._dcache = self._dcache.copy()
        return f

    # ------------------------------------------------------------ normal form
    def norm(self, p):
        if not self.sub:
            return p
        for _ in range(20):
            q = subst(p, self.sub)
            if q is p or q == p:
                return q
            p = q
        return p

    def bnorm(self, b):
        if not self.sub:
            return b
        for _ in range(20):
            c = bsubst(b, self.sub)
            if c is b or c == b:
                return c
            b = c
        return b

    # ------------------------------------------------------------ assume
    def assume(self, b):
        if self.dead:
            return False
        b = self.bnorm(b)
        o = b.op
        if o == "T":
            return True
        if o == "F":
            self.dead = True
            return False
        if o == "and":
            for x in b.a:
                if not self.assume(x):
                    return False
            return True
        if o == "eq":
            return self._eq(b)
        if o == "ne":
            if b in self.nes:
                return True
            if lit("ge", b.a) in self.ineq:
                return self.assume(lit("gt", b.a))
            if lit("ge", -b.a) in self.ineq:
                return self.assume(lit("gt", -b.a))
            self.nes[b] = True
            self._dcache = {}
            self._propagate(b.deep())
            return not self.dead
        if o == "or":
            d = self._simp_clause(b)
            if d.op != "or":
                return self.assume(d)
            self.clauses[d] = True
            self._dcache = {}
            return True
        # ge / gt
        if b in self.ineq:
            return True
        n = Not(b)
        if n in self.ineq:
            self.dead = True
            return False
        opp = lit("ge", -b.a)
        if o == "ge" and opp in self.ineq:
            return self.assume(lit("eq", b.a))
        if o == "ge" and Bx("ne", b.a) in self.nes or Bx("ne", (-b.a)) in self.nes:
            b2 = lit("gt", b.a)
            if b2 != b:
                return self.assume(b2)
        self.ineq[b] = True
        self._dcache = {}
        self._propagate(b.deep())
        return not self.dead

    def _rank(self, a):
        k = a.kind
        if a.dom:
            return 3
        if k == "fresh":
            return 0
        if k == "app":
            return 1
        if k == "tab":
            return 2
        if k == "cell":
            return 4
        return 6

    def _eq(self, b):
        p = b.a
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0]]
                if a is P.CELLZ or a is P.TOL or a is P.CELLXY:
                    continue
                if (a.isint or a.ht) and c not in (1, -1):
                    continue
                r = Poly({mm: cc for mm, cc in p.t.items() if mm != m})
                if a.id in r.deep():
                    continue
                e = r.scale(-1) if c == 1 else r if c == -1 else r.scale(P._norm(P.Fraction(-1) / c))
                if a.isint and not is_int(e):
                    continue
                if a.ht and not is_ht(e):
                    continue
                key = (self._rank(a), -a.id)
                if best is None or key < best[0]:
                    best = (key, a, e)
        if best is None:
            self.ineq[Bx("ge", p)] = True
            self.ineq[Bx("ge", -p)] = True
            self._dcache = {}
            self._propagate(b.deep())
            return not self.dead
        _, a, e = best
        return self.define(a, e)

    def define(self, a, e):
        """a := e everywhere"""
        if a.dom and e.cval() is not None and e.cval() not in a.dom:
            self.dead = True
            return False
        one = {a.id: e}
        redo = []
        newsub = {}
        for k, v in self.sub.items():
            if a.id in ATOMS[k].deep:
                redo.append(lit("eq", subst(A(ATOMS[k]), one) - subst(v, one)))
            else:
                newsub[k] = subst(v, one)
        newsub[a.id] = e
        self.sub = newsub
        self._dcache = {}
        # facts attached to finite domain
        if a.dom and e.cval() is None:
            redo.append(Or(*[lit("eq", e - K(v)) for v in a.dom]))
        for b in list(self.ineq):
            if a.id in b.deep():
                del self.ineq[b]
                redo.append(bsubst(b, one))
        for b in list(self.nes):
            if a.id in b.deep():
                del self.nes[b]
                redo.append(bsubst(b, one))
        for b in list(self.clauses):
            if a.id in b.deep():
                del self.clauses[b]
                redo.append(bsubst(b, one))
        for b in redo:
            if not self.assume(b):
                return False
        return True

    # ------------------------------------------------------------ clauses
    def _quick(self, b):
        """cheap syntactic truth value"""
        return self._quickn(self.bnorm(b))

    def _quickn(self, b):
        o = b.op
        if o == "T":
            return True
        if o == "F":
            return False
        if o == "and":
            r = True
            for x in b.a:
                v = self._quickn(x)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if o == "or":
            if b in self.clauses:
                return True
            r = False
            for x in b.a:
                v = self._quickn(x)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if o in ("ge", "gt"):
            if b in self.ineq:
                return True
            if Not(b) in self.ineq:
                return False
            if o == "ge" and lit("gt", b.a) in self.ineq:
                return True
            return None
        if o == "eq":
            if Bx("ne", b.a) in self.nes:
                return False
            if lit("gt", b.a) in self.ineq or lit("gt", -b.a) in self.ineq:
                return False
            return None
        if o == "ne":
            if b in self.nes:
                return True
            if lit("gt", b.a) in self.ineq or lit("gt", -b.a) in self.ineq:
                return True
            return None
        return None

    def _simp_clause(self, b, normal=False):
        out = []
        if not normal:
            b = self.bnorm(b)
            if b.op != "or":
                return b
        for x in b.a:
            v = self._quickn(x)
            if v is True:
                return T
            if v is False:
                continue
            out.append(x)
        r = Or(*out)
        if r.op == "or":
            # a disjunct that falsifies another known clause is impossible
            short = None
            keep = []
            for x in r.a:
                if x.op == "and":
                    if short is None:
                        short = [c for c in self.clauses if len(c.a) <= 3]
                    if short:
                        neg = [Not(y) for y in x.a]
                        if any(all(d in neg for d in c.a) for c in short if len(c.a) <= len(neg)):
                            continue
                keep.append(x)
            if len(keep) != len(r.a):
                r = Or(*keep)
        return r

    def _propagate(self, deep):
        for c in list(self.clauses):
            if c not in self.clauses:
                continue
            if not (c.deep() & deep):
                continue
            d = self._simp_clause(c, True)
            if d != c:
                self.clauses.pop(c, None)
                if not self.assume(d):
                    return

    def propagate_all(self):
        for c in list(self.clauses):
            if self.dead:
                return
            if c not in self.clauses:
                continue
            d = self._simp_clause(c, True)
            if d != c:
                self.clauses.pop(c, None)
                self.assume(d)

    # ------------------------------------------------------------ LP queries
    def _cons(self, seeds):
        """constraints relevant for literals in `seeds` (list of Bx ge/gt)"""
        cons = []
        seen_atoms = set()
        pending = []
        monos = set()

        def addb(b):
            c = con_of(b)
            if c == () or c is True:
                return
            if c is False:
                cons.append(False)
                return
            cons.append(c)
            for m, _ in c[0]:
                if m not in monos:
                    monos.add(m)
                    pending.append(m)

        for b in seeds:
            addb(b)
        idx = None
        axdone = set()
        usetol = False
        while pending:
            if idx is None:
                idx = {}
                for b in self.ineq:
                    c = con_of(b)
                    if c == () or c is True:
                        continue
                    if c is False:
                        cons.append(False)
                        continue
                    for m, _ in c[0]:
                        idx.setdefault(m, []).append(b)
            m = pending.pop()
            for b in idx.get(m, ()):
                if b not in axdone:
                    axdone.add(b)
                    addb(b)
            for aid, _ in m:
                if aid == TOLATOM:
                    usetol = True
                if aid in seen_atoms:
                    continue
                seen_atoms.add(aid)
                for b in self._axioms(aid):
                    if b not in axdone:
                        axdone.add(b)
                        addb(b)
        if usetol:
            cons.extend(TOLCONS)
        return cons

    def _axioms(self, aid):
        out = []
        at = ATOMS[aid]
        if at.dom:
            out.append(lit("ge", A(at) - K(min(at.dom))))
            out.append(lit("ge", K(max(at.dom)) - A(at)))
        for b in ax_cons(aid):
            if self.sub and (b.deep() & self.sub.keys()):
                b = self.bnorm(b)
                if b.op == "eq":
                    out.append(Bx("ge", b.a))
                    out.append(Bx("ge", -b.a))
                    continue
            if b.op in ("ge", "gt"):
                out.append(b)
        return [b for b in out if b.op in ("ge", "gt")]

    def lp_refutes(self, b):
        """facts /\\ b infeasible?  b a ge/gt/eq literal or conjunction"""
        seeds = []
        bs = b.a if b.op == "and" else (b,)
        for x in bs:
            if x.op in ("ge", "gt"):
                seeds.append(x)
            elif x.op == "eq":
                seeds.append(Bx("ge", x.a))
                seeds.append(Bx("ge", -x.a))
        if not seeds:
            return False
        return infeasible(self._cons(seeds))

    def decide(self, b):
        if self.dead:
            return True
        b = self.bnorm(b)
        if b.op == "T":
            return True
        if b.op == "F":
            return False
        r = self._dcache.get(b, 0)
        if r != 0:
            return r
        r = self._decide(b)
        self._dcache[b] = r
        return r

    def _decide(self, b):
        q = self._quick(b)
        if q is not None:
            return q
        o = b.op
        if o == "and":
            r = True
            for x in b.a:
                v = self.decide(x)
                if v is False:
                    return False
                if v is None:
                    r = None
            if r is None and all(x.op in ("ge", "gt", "eq") for x in b.a) and self.lp_refutes(b):
                return False
            return r
        if o == "or":
            r = False
            for x in b.a:
                v = self.decide(x)
                if v is True:
                    return True
                if v is None:
                    r = None
            if r is None:
                n = Not(b)
                if n.op == "and" and all(x.op in ("ge", "gt", "eq") for x in n.a) and self.lp_refutes(n):
                    return True
            return r
        if o in ("ge", "gt"):
            if self.lp_refutes(Not(b)):
                return True
            if self.lp_refutes(b):
                return False
            return None
        # eq / ne
        isne = o == "ne"
        p = b.a
        lo = self.decide(lit("gt", p))
        if lo is True:
            return isne
        hi = self.decide(lit("gt", -p))
        if hi is True:
            return isne
        if lo is False and hi is False:
            return not isne
        if self.lp_refutes(Bx("eq", p)):
            return isne
        return None

    def feasible_after(self, b):
        """assume b in place; False when the result is recognised infeasible"""
        v = self.decide(b)
        if v is False:
            self.dead = True
            return False
        return self.assume(b)

    # ------------------------------------------------------------ proving
    def prove(self, goal, depth=2, width=12):
        """goal holds in every concrete state described (case-splitting on
        the disjunctions known here, to the given depth)"""
        goal = self.bnorm(goal)
        v = self.decide(goal)
        if v is not None:
            return v
        if goal.op == "and":
            return all(self.prove(x, depth, width) for x in goal.a)
        k = (goal, depth, width)
        r = self._dcache.get(k)
        if r is None:
            f = self.copy()
            ng = Not(goal)
            r = not f.assume(ng) or f.contradictory(ng.deep(), depth, width)
            self._dcache[k] = r
        return r

    def contradictory(self, focus, depth, width=12):
        if self.dead:
            return True
        for b in list(self.ineq):
            if b.deep() & focus:
                if self.lp_refutes(b):
                    return True
                break
        # check every inequality component touching the focus
        seeds = [b for b in self.ineq if b.deep() & focus]
        if seeds and infeasible(self._cons(seeds)):
            return True
        for b in self.nes:
            if b.deep() & focus and self.decide(lit("eq", b.a)) is True:
                return True
        if depth <= 0:
            return False
        cl = [c for c in self.clauses if c.deep() & focus]
        atoms = set(focus)
        for b in seeds:
            atoms |= b.deep()
        extra = []
        for a in atoms:
            for c in AXC.get(a, ()):
                c2 = self.bnorm(c)
                if c2.op == "T":
                    continue
                extra.append(c2)
            at = ATOMS[a]
            if at.dom and a not in self.sub:
                extra.append(Or(*[lit("eq", A(at) - K(v)) for v in at.dom]))
        if not cl:
            cl = [c for c in self.clauses if c.deep() & atoms]
        cands = cl + [c for c in extra if c not in self.clauses]
        # disequalities split
        for b in self.nes:
            if b.deep() & focus:
                cands.append(Or(lit("gt", b.a), lit("gt", -b.a)))
        tried = 0
        for c in cands:
            if c.op != "or":
                if c.op == "F":
                    return True
                g = self.copy()
                if not g.assume(c):
                    return True
                if g.contradictory(focus | c.deep(), depth - 1, width):
                    return True
                continue
            tried += 1
            if tried > width:
                break
            ok = True
            for d in c.a:
                g = self.copy()
                g.clauses.pop(c, None)
                if not g.assume(d):
                    continue
                if g.dead:
                    continue
                if not g.contradictory(focus | d.deep(), depth - 1, width):
                    ok = False
                    break
            if ok:
                return True
        return False

    def refute(self, goal, depth=8, budget=80):
        """case splitting with a committed choice of clause (most relevant
        first): proves `goal` by refuting its negation; fails fast"""
        goal = self.bnorm(goal)
        if goal.op == "T":
            return True
        if goal.op == "and":
            return all(self.refute(x, depth, budget) for x in goal.a)
        k = (goal, "refute", depth)
        r = self._dcache.get(k)
        if r is None:
            f = self.copy()
            left = [budget]
            r = not f.assume(Not(goal)) or f._split(goal.deep(), depth, left)
            self._dcache[k] = r
        return r

    def _split(self, focus, depth, left):
        self.propagate_all()
        if self.dead:
            return True
        seeds = [b for b in self.ineq if b.deep() & focus]
        if seeds and infeasible(self._cons(seeds)):
            return True
        left[0] -= 1
        if depth <= 0 or left[0] <= 0:
            return False
        for b in self.nes:
            if b.deep() & focus and self.decide(lit("eq", b.a)) is True:
                return True
        best = None
        for _ in range(12):
            cand = []
            for c in self.clauses:
                dp = c.deep()
                o = len(dp & focus)
                if o:
                    cand.append((len(dp) - o, len(c.a), -o, len(cand), c))
            for a in focus:
                for c in AXC.get(a, ()):
                    c2 = self.bnorm(c)
                    if c2.op == "or" and c2 not in self.clauses:
                        dp = c2.deep()
                        cand.append((len(dp - focus), len(c2.a), 0, len(cand), c2))
            cand.sort()
            best = None
            unit = False
            for x in cand[:20]:
                c = x[-1]
                alive = []
                for d in c.a:
                    g = self.copy()
                    g.clauses.pop(c, None)
                    if g.assume(d) and not g.dead:
                        sd = [b for b in g.ineq if b.deep() & d.deep()]
                        if not (sd and infeasible(g._cons(sd))):
                            alive.append((d, g))
                if not alive:
                    return True
                if len(alive) == 1:
                    d, g = alive[0]
                    self.clauses.pop(c, None)
                    if not self.assume(d) or self.dead:
                        return True
                    focus = focus | d.deep()
                    unit = True
                    break
                sc = (len(alive), x[0])
                if best is None or sc < best[0]:
                    best = (sc, c)
            if not unit:
                break
        if best is None:
            for b in self.nes:
                if b.deep() & focus:
                    g = Or(lit("gt", b.a), lit("gt", -b.a))
                    if g.op == "or" and not any(x in self.ineq for x in g.a):
                        best = ((), g)
                        break
        if best is None:
            return False
        c = best[1]
        for d in c.a:
            g = self.copy()
            g.clauses.pop(c, None)
            if not g.assume(d) or g.dead:
                continue
            if not g._split(focus | d.deep(), depth - 1, left):
                return False
        return True

    def implied_equalities(self, focus):
        """inequalities p >= 0 touching `focus` that can only hold with p == 0
        are turned into equalities"""
        changed = True
        n = 0
        while changed and not self.dead:
            changed = False
            for b in list(self.ineq):
                if b.op != "ge" or not (b.deep() & focus):
                    continue
                if self.lp_refutes(lit("gt", b.a)):
                    self.ineq.pop(b, None)
                    self.assume(lit("eq", b.a))
                    changed = True
                    n += 1
                    break
        return n
