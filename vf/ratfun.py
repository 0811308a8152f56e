"""Exact rational-function normaliser: decides equalities of real terms modulo ring axioms, s*s=t for s=sqrt(t)
and exp(a+b)=exp(a)exp(b).  Denominators and square-root arguments are discharged as separate SMT obligations."""
from fractions import Fraction
from .terms import *

LIMIT = 60000


class TooBig(Exception):
    pass


class Unsup(Exception):
    pass


def pmul(a, b):
    if len(a) * len(b) > LIMIT: raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for k, e in m2: d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


ONE = {(): Fraction(1)}


class Norm:
    def __init__(self):
        self.memo, self.atoms, self.dens, self.sqrts, self.expk = {}, {}, [], {}, {}

    def atom(self, t):
        self.atoms[t.id] = t
        return ({((t.id, 1),): Fraction(1)}, ONE)

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.norm(t)
        return r

    def norm(self, t):
        op = t.op
        if op == 'const': return ({(): t.val} if t.val else {}, ONE)
        if op == '+':
            (p, q), (u, v) = self(t.args[0]), self(t.args[1])
            if q is v or q == v: return (padd(p, u), q)
            return (padd(pmul(p, v), pmul(u, q)), pmul(q, v))
        if op == 'rneg':
            p, q = self(t.args[0])
            return ({m: -c for m, c in p.items()}, q)
        if op == '*':
            (p, q), (u, v) = self(t.args[0]), self(t.args[1])
            return self.red(pmul(p, u), pmul(q, v))
        if op == '/':
            (p, q), (u, v) = self(t.args[0]), self(t.args[1])
            self.dens.append(t.args[1])
            if not u: raise Unsup('division by zero')
            return self.red(pmul(p, v), pmul(q, u))
        if op == 'app' and t.val == 'sqrt':
            key = ('sqrt', self.key(self(t.args[0])))
            u = self.expk.get(key)
            if u is None:
                u = self.expk[key] = t
                self.sqrts[t.id] = t.args[0]
            return self.atom(u)
        if op == 'app' and t.val == 'exp':
            p, q = self(t.args[0])
            if q != ONE: return self.atom_app(t)
            num, den = ONE, ONE
            for m, c in p.items():
                k = (m, Fraction(1, c.denominator))
                if k not in self.expk:
                    self.expk[k] = -len(self.expk) - 1
                a = {((self.expk[k], abs(c.numerator)),): Fraction(1)}
                if c > 0: num = pmul(num, a)
                else: den = pmul(den, a)
            return (num, den)
        if op == 'app' and t.val == 'pow' and t.args[1].op == 'const' and t.args[1].val.denominator == 1 and abs(t.args[1].val) <= 8:
            k = int(t.args[1].val)
            if k < 0: self.dens.append(t.args[0])
            r = (ONE, ONE)
            p, q = self(t.args[0])
            for _ in range(abs(k)): r = (pmul(r[0], p), pmul(r[1], q))
            return r if k >= 0 else (r[1], r[0])
        if op == 'app':
            return self.atom_app(t)
        if op in ('var', 'select'): return self.atom(t)
        if op == 'ite': raise Unsup('ite')
        return self.atom(t)

    def atom_app(self, t):
        # normalise arguments so that equal arguments give equal atoms
        key = (t.val,) + tuple(self.key(self(a)) for a in t.args)
        k = self.expk.get(key)
        if k is None:
            k = self.expk[key] = -len(self.expk) - 1
        return ({((k, 1),): Fraction(1)}, ONE)

    def key(self, r):
        p, q = r
        return (tuple(sorted(p.items())), tuple(sorted(q.items())))

    def red(self, p, q):
        # cancel common monomial factor
        if not p: return ({}, ONE)
        com = None
        for P in (p, q):
            for m in P:
                d = dict(m)
                com = d if com is None else {k: min(e, d[k]) for k, e in com.items() if k in d}
                if not com: break
            if not com: break
        if com:
            inv = tuple((k, -e) for k, e in com.items())
            p = {mmul(m, inv): c for m, c in p.items()}
            q = {mmul(m, inv): c for m, c in q.items()}
        if len(q) == 1:
            (m, c), = q.items()
            if c != 1:
                q = {m: Fraction(1)}
                p = {k: v / c for k, v in p.items()}
        return (p, q)

    def reduce_sqrt(self, n):
        """eliminate s^2 for square-root atoms, outermost first; n is a polynomial that should vanish"""
        for sid in sorted(self.sqrts, reverse=True):
            mx = max([dict(m).get(sid, 0) for m in n] or [0])
            if mx < 2: continue
            tp, tq = self(self.sqrts[sid])
            J = mx // 2
            powp, powq = [ONE], [ONE]
            for _ in range(J):
                powp.append(pmul(powp[-1], tp)); powq.append(pmul(powq[-1], tq))
            r = {}
            for m, c in n.items():
                d = dict(m)
                e = d.pop(sid, 0)
                j = e // 2
                if e % 2: d[sid] = 1
                base = {tuple(sorted(d.items())): c}
                r = padd(r, pmul(base, pmul(powp[j], powq[J - j])))
            n = r
        return n


def equal(a, b):
    """returns the Norm object when a=b as rational functions, else None"""
    N = Norm()
    (p, q), (u, v) = N(a), N(b)
    d = padd(pmul(p, v), pmul(u, q), -1)
    d = N.reduce_sqrt(d)
    return N if not d else None


def ite_conds(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'ite':
            c = x.args[0]
            if not any(y.op == 'ite' for y in subterms([c])): out.append(c)
        st.extend(x.args)
    return out


def simp_under(t, c, val):
    """replace condition c (and its comparison variants) by a constant in t"""
    m = {c.id: B(val)}
    if c.op == 'or' and not val:
        for x in c.args: m[x.id] = FALSE
    if c.op == 'and' and val:
        for x in c.args: m[x.id] = TRUE
    for x in list(m):
        pass
    return subst(t, m)


def try_prove(assm, goal, side, depth=0, budget=None):
    if budget is None: budget = [96]
    if goal is TRUE: return True
    if goal.op == 'and': return all(try_prove(assm, g, side, depth, budget) for g in goal.args)
    if goal.op == 'or':
        # implication-like: assume all other disjuncts false, prove the equalities
        eqs = [g for g in goal.args if g.op == '=' and g.args[0].sort == 'R']
        for e in eqs:
            oth = [Not(g) for g in goal.args if g is not e]
            if try_prove(assm + oth, e, side, depth, budget): return True
        return False
    if goal.op != '=' or goal.args[0].sort != 'R': return False
    conds = ite_conds(goal)
    if conds:
        if depth > 8: return False
        known = {}
        for a in assm:
            known[a.id] = True
        c = conds[0]
        for c in conds:
            if c.id in known: return try_prove(assm, simp_under(goal, c, True), side, depth, budget)
            if Not(c).id in known: return try_prove(assm, simp_under(goal, c, False), side, depth, budget)
        c = min(conds, key=lambda z: z.id)
        for val in (True, False):
            lit = c if val else Not(c)
            budget[0] -= 1
            if budget[0] < 0: return False
            A = assm + [lit]
            if not try_prove(A, simp_under(goal, c, val), side, depth + 1, budget):
                if not side(A, FALSE): return False
        return True
    try:
        N = equal(goal.args[0], goal.args[1])
    except (TooBig, Unsup):
        return False
    if N is None: return False
    # side conditions
    done = set()
    for d in N.dens:
        if d.id in done or d.op == 'const': continue
        done.add(d.id)
        if not side(assm, Not(req(d, 0))): return False
    for sid, t in N.sqrts.items():
        if t.op == 'const': continue
        if not side(assm, rge(t, 0)): return False
    return True
