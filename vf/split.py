"""Case splitting on the conditions of if-then-else terms, with simplification of the whole sequent in every case.
A leaf is a sequent without conditional terms, handed to the ring normaliser and the solvers."""
import time
from .terms import *
from . import ratfun


def literals(m, c, val):
    """facts implied by the atom c having truth value val, as a substitution"""
    if c.op == 'not': return literals(m, c.args[0], not val)
    if c.op in ('and', 'or') and (c.op == 'and') == val:
        for x in c.args: literals(m, x, val)
        return m
    m[c.id] = B(val)
    m[Not(c).id] = B(not val)
    if c.op == '<':
        a, b = c.args
        if val:
            m[rlt(b, a).id] = FALSE
            m[req(a, b).id] = FALSE; m[req(b, a).id] = FALSE
    if c.op == '=' and c.args[0].sort == 'R' and val:
        a, b = c.args
        m[rlt(b, a).id] = FALSE; m[rlt(a, b).id] = FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == 'var' and y.op == 'const' and x.id not in m: m[x.id] = y; break
    m.pop(TRUE.id, None); m.pop(FALSE.id, None)
    return m


def normal(assm, goal, facts):
    """substitute the known facts until nothing changes; returns (assm, goal, facts) or None when contradictory"""
    facts = dict(facts)
    while True:
        ch = False
        memo = {}
        out, seen = [], set()
        for a in assm:
            b = a
            if facts.get(a.id) is TRUE: out.append(a); seen.add(a.id); continue     # the literal itself stays as an assumption
            b = subst(a, facts, memo)
            for x in (b.args if b.op == 'and' else (b,)):
                if x is FALSE: return None
                if x is TRUE or x.id in seen: continue
                seen.add(x.id)
                out.append(x)
                if x.op != 'or' and not any(y.op == 'ite' for y in subterms([x])):
                    n = len(facts)
                    literals(facts, x, True)
                    if len(facts) != n: ch = True
        g = subst(goal, facts, memo) if goal.id not in facts else facts[goal.id]
        if g is not goal: ch = True
        assm, goal = out, g
        for a in assm:
            # contradictory literals
            if facts.get(a.id) is FALSE: return None
        if not ch: return assm, goal, facts


def poly_term(N, p):
    s = None
    for m, c in sorted(p.items()):
        t = R(c)
        for k, e in m:
            if k not in N.atoms: return None
            for _ in range(e): t = rmul(t, N.atoms[k])
        s = t if s is None else radd(s, t)
    return R(0) if s is None else s


def rationalise(assm, goal, side):
    """division-free form of the comparisons whose denominators are known not to vanish"""
    hasdiv = lambda t: any(x.op == '/' for x in subterms([t]))
    out = [a for a in assm if not hasdiv(a)]
    ok = {}

    def conv(a):
        if a.op == 'not':
            r = conv(a.args[0])
            return None if r is None else Not(r)
        if a.op not in ('<', '=') or a.args[0].sort != 'R': return None
        N = ratfun.Norm()
        try:
            p, q = N(rsub(a.args[0], a.args[1]))
            for d in N.dens:
                if d.id not in ok: ok[d.id] = d.op == 'const' or side(out, Not(req(d, 0)))
                if not ok[d.id]: return None
            if a.op == '=': r = poly_term(N, p); return None if r is None else req(r, 0)
            r = poly_term(N, ratfun.pmul(p, q) if q != ratfun.ONE else p)
            return None if r is None else rlt(r, 0)
        except (ratfun.TooBig, ratfun.Unsup):
            return None
    rest = []
    for a in assm:
        if not hasdiv(a): continue
        r = conv(a)
        if r is None: rest.append(a)
        else: out.append(r)
    g = conv(goal) if hasdiv(goal) else None
    return out + rest, goal if g is None else g


def pick(assm, goal):
    """an atom to split on: condition of an innermost ite, goal first"""
    for ts in ([goal], assm):
        best = None
        for t in subterms(ts):
            if t.op != 'ite': continue
            c = t.args[0]
            if any(y.op == 'ite' for y in subterms([c])): continue
            while c.op in ('and', 'or', 'not'): c = c.args[0]
            if best is None or c.id < best.id: best = c
        if best is not None: return best
    for a in assm:
        if a.op == 'or':
            for x in a.args:
                c = x
                while c.op in ('and', 'or', 'not'): c = c.args[0]
                return c
    return None


def split_prove(assm, goal, leaf, feasible, budget, deadline, facts=None, depth=0):
    """leaf(assm, goal) -> bool; feasible(assm) -> False when the assumptions are known contradictory"""
    r = normal(assm, goal, facts or {})
    if r is None: return True
    assm, goal, facts = r
    if goal is TRUE: return True
    if time.time() > deadline or budget[0] <= 0: return False
    c = pick(assm, goal)
    if c is None or depth > 24:
        budget[0] -= 1
        return leaf(assm, goal)
    if depth and depth % 3 == 0 and not feasible(assm): return True
    for val in (True, False):
        f = literals(dict(facts), c, val)
        if not split_prove(assm + [c if val else Not(c)], goal, leaf, feasible, budget, deadline, f, depth + 1): return False
    return True
