"""Linear abstraction of a sequent of real arithmetic: every arithmetic subterm is brought to polynomial normal form
(denominators shown not to vanish), conditionals stay opaque to the polynomials, and non-linear monomials become
variables.  What is proved of the abstraction holds for the sequent; nothing else may be concluded."""
from .terms import *
from . import ratfun

ARITH = ('+', '*', '/', 'rneg', 'const')


class Lin:
    def __init__(self, ok): self.ok, self.memo, self.terms, self.fr, self.fracs, self.mixed = ok, {}, {}, {}, {}, []

    def frac(self, t):
        r = self.fr.get(t.id)
        if r is None: r = self.fr[t.id] = self._frac(t)
        return r

    def _frac(self, t):
        op = t.op
        N = ratfun.Norm()
        if op == 'const': return ({(): t.val} if t.val else {}, ratfun.ONE)
        if op == 'rneg':
            p, q = self.frac(t.args[0])
            return ({m: -c for m, c in p.items()}, q)
        if op in ('+', '*', '/'):
            (p, q), (u, v) = self.frac(t.args[0]), self.frac(t.args[1])
            if op == '+':
                if q == v: return N.red(ratfun.padd(p, u), q)
                return N.red(ratfun.padd(ratfun.pmul(p, v), ratfun.pmul(u, q)), ratfun.pmul(q, v))
            if op == '*': return N.red(ratfun.pmul(p, u), ratfun.pmul(q, v))
            if not u or not self.ok(t.args[1]): raise ratfun.Unsup('denominator')
            return N.red(ratfun.pmul(p, v), ratfun.pmul(q, u))
        a = self.conv(t) if op == 'ite' else t
        if op == 'app': a = mk('app', tuple(self.conv(x) for x in t.args), t.sort, t.val)
        if a.op in ARITH and a is not t: return self.frac(a)
        self.terms[a.id] = a
        return ({((a.id, 1),): Fraction(1)}, ratfun.ONE)

    def lin(self, p):
        s = None
        for m, c in sorted(p.items()):
            if not m: t = R(c)
            elif len(m) == 1 and m[0][1] == 1: t = rmul(R(c), self.terms[m[0][0]])
            else:
                self.mixed += [self.terms[k].args[0] for k, _ in m if self.terms[k].op == 'ite']
                t = rmul(R(c), var('mono!' + '_'.join('%d^%d' % k for k in m), 'R'))
            s = t if s is None else radd(s, t)
        return R(0) if s is None else s

    def arith(self, t):
        p, q = self.frac(t)
        if q == ratfun.ONE: return self.lin(p)
        k = (tuple(sorted(p.items())), tuple(sorted(q.items())))
        return var('frac!%d' % self.fracs.setdefault(k, len(self.fracs)), 'R')

    def conv(self, t):
        r = self.memo.get(t.id)
        if r is None: r = self.memo[t.id] = self._conv(t)
        return r

    def _conv(self, t):
        op = t.op
        if op in ('var', 'const'): return t
        if t.sort == 'R' and op in ARITH: return self.arith(t)
        if op in ('<', '=') and t.args[0].sort == 'R':
            a, b = t.args
            d = self.arith(rsub(a, b))
            return rlt(d, 0) if op == '<' else req(d, 0)
        if op == 'ite': return Ite(*[self.conv(x) for x in t.args])
        if op == 'and': return And(*[self.conv(x) for x in t.args])
        if op == 'or': return Or(*[self.conv(x) for x in t.args])
        if op == 'not': return Not(self.conv(t.args[0]))
        if op == '=' and t.args[0].sort == 'B': return Eq(*[self.conv(x) for x in t.args])
        if op == 'app' and t.sort == 'R': return mk('app', tuple(self.conv(x) for x in t.args), t.sort, t.val)
        raise ratfun.Unsup(op)


def prove(assm, goal, side, check, depth=0):
    """check(assm, goal): is the (linear) sequent proved?  Conditions of conditionals inside products are split on."""
    if goal is TRUE or any(a is FALSE for a in assm): return True
    seen = {}

    def ok(d):
        if d.op == 'const': return d.val != 0
        if d.id not in seen: seen[d.id] = side(assm, Not(req(d, 0)))
        return seen[d.id]
    L = Lin(ok)
    out = []
    try:
        g = L.conv(goal)
    except (ratfun.TooBig, ratfun.Unsup): return False
    for a in assm:
        try: out.append(L.conv(a))
        except (ratfun.TooBig, ratfun.Unsup): pass      # dropping an assumption is sound
    if check(out, g): return True
    if depth >= 5 or not L.mixed: return False
    c = min(L.mixed, key=lambda t: t.id)
    while c.op in ('and', 'or', 'not'): c = c.args[0]
    for val in (True, False):
        m, memo = {c.id: B(val), Not(c).id: B(not val)}, {}
        if not prove([subst(a, m, memo) for a in assm] + [c if val else Not(c)], subst(goal, m, memo), side, check, depth + 1): return False
    return True
