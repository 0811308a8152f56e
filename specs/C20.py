"""Norm losses: value, (sub)gradient and chain rule."""
from vf.terms import *
from vf.run import FnUnit

LEVEL = 'proof'
FUNCTIONS = ['losses::SquaredL2', 'losses::L2', 'losses::L1', 'losses::Linf']
ASSUMPTIONS = []


def norm(nm, x):
    if nm == 'sql2': return sum([a * a for a in x[1:]], x[0] * x[0])
    if nm == 'l2': return Sqrt(sum([a * a for a in x[1:]], x[0] * x[0])) if len(x) > 1 else rabs(x[0])
    if nm == 'l1': return sum([rabs(a) for a in x[1:]], rabs(x[0]))
    m = rabs(x[0])
    for a in x[1:]: m = rmax(m, rabs(a))
    return m


EPS = R(2e-4)


def grad_ok(nm, x, l, J, dirs=None):
    """J (list) is the gradient row of the norm at x; dirs: column of a supplied Jacobian contracted with it. -> list of (name, guard, goal)"""
    n = len(x)
    if nm == 'sql2':
        g = [2 * a for a in x]
        return [('gradient %d' % i, TRUE, req(J[i], g[i])) for i in range(n)]
    if nm == 'l2':
        return [('gradient %d' % i, rgt(l, EPS), req(J[i] * l, x[i])) for i in range(n)] + \
               [('subgradient %d near 0' % i, rle(l, EPS), And(rle(J[i], 1), rge(J[i], -1))) for i in range(n)]
    if nm == 'l1':
        return [('gradient %d' % i, Not(req(x[i], 0)), req(J[i], Ite(rgt(x[i], 0), R(1), R(-1)))) for i in range(n)] + \
               [('subgradient %d at 0' % i, req(x[i], 0), And(rle(J[i], 1), rge(J[i], -1))) for i in range(n)]
    # linf: where one entry dominates the gradient is its sign
    out = []
    for i in range(n):
        dom = And(*[rgt(rabs(x[i]), rabs(x[k])) for k in range(n) if k != i], Not(req(x[i], 0)))
        out.append(('gradient %d' % i, dom, And(req(J[i], Ite(rgt(x[i], 0), R(1), R(-1))), *[req(J[k], 0) for k in range(n) if k != i])))
    s = rabs(J[0])
    for a in J[1:]: s = s + rabs(a)
    out.append(('subgradient', TRUE, And(rle(s, 1), Implies(rgt(l, 0), req(sum([J[k] * x[k] for k in range(1, n)], J[0] * x[0]), l)))))
    return out


def gsym(nm, x):
    """gradient as terms, where it is differentiable, and that condition"""
    n = len(x)
    l = norm(nm, x)
    if nm == 'sql2': return [2 * a for a in x], TRUE
    if nm == 'l2': return ([a / l for a in x], rgt(l, EPS)) if n > 1 else ([Ite(rgt(x[0], 0), R(1), R(-1))], rgt(rabs(x[0]), EPS))
    if nm == 'l1': return [Ite(rgt(a, 0), R(1), R(-1)) for a in x], And(*[Not(req(a, 0)) for a in x])
    return None


def units(tier):
    us = []
    for nm in ('sql2', 'l2', 'l1', 'linf'):
        def scalar(i, o, nm=nm):
            x = i[0]
            v = norm(nm, [x])
            g = [('value', req(o[0], v)), ('value with jacobian', req(o[1], v)), ('value with null jacobian', req(o[3], v)), ('float value', req(o[4], v))]
            for k, tag in ((2, ''), (5, 'float ')):
                if nm == 'sql2': g.append((tag + 'derivative', req(o[k], 2 * x)))
                else:
                    g.append((tag + 'derivative', rgt(rabs(x), EPS), req(o[k], Ite(rgt(x, 0), R(1), R(-1)))))
                    g.append((tag + 'subgradient', And(rle(o[k], 1), rge(o[k], -1))))
            return g

        def schain(i, o, nm=nm):
            x = i[0]
            d = 2 * x if nm == 'sql2' else Ite(rgt(x, 0), R(1), R(-1))
            k = TRUE if nm == 'sql2' else rgt(rabs(x), EPS)
            return [('value', req(o[0], norm(nm, [x]))), ('chain rule 0', k, req(o[1], d * i[1])), ('chain rule 1', k, req(o[2], d * i[2]))]

        def vec3(i, o, nm=nm):
            v = norm(nm, i[:3])
            return [('value', req(o[0], v)), ('value with jacobian', req(o[1], v)), ('size', req(o[5], 3))] + grad_ok(nm, i[:3], v, o[2:5])

        def vchain(i, o, nm=nm):
            x = i[:3]
            v = norm(nm, x)
            g = [('value', req(o[0], v)), ('size', req(o[3], 2))]
            gs = gsym(nm, x)
            for c in range(2):
                col = [i[3 + c], i[5 + c], i[7 + c]]
                for k, tag in ((1 + c, ''),):
                    if gs:
                        if nm == 'l2': g.append((tag + 'chain rule %d' % c, gs[1], req(o[k] * v, x[0] * col[0] + x[1] * col[1] + x[2] * col[2])))
                        else: g.append((tag + 'chain rule %d' % c, gs[1], req(o[k], gs[0][0] * col[0] + gs[0][1] * col[1] + gs[0][2] * col[2])))
                    else:
                        for a in range(3):
                            dom = And(*[rgt(rabs(x[a]), rabs(x[b])) for b in range(3) if b != a], Not(req(x[a], 0)))
                            g.append((tag + 'chain rule %d dominated by %d' % (c, a), dom, req(o[k], Ite(rgt(x[a], 0), col[a], -col[a]))))
            return g

        def dyn2(i, o, nm=nm):
            v = norm(nm, i[:2])
            return [('value', req(o[4], v)), ('value with jacobian', req(o[0], v)), ('size', req(o[3], 2))] + grad_ok(nm, i[:2], v, o[1:3])

        us += [FnUnit('norms.cpp', 'h_%s_scalar' % nm, 3, 6, None, scalar, tol=1e-5), FnUnit('norms.cpp', 'h_%s_scalar_chain' % nm, 3, 3, None, schain),
               FnUnit('norms.cpp', 'h_%s_vec3' % nm, 3, 6, None, vec3), FnUnit('norms.cpp', 'h_%s_vec3_chain' % nm, 9, 4, None, vchain),
               FnUnit('norms.cpp', 'h_%s_dyn2' % nm, 2, 5, None, dyn2)]
    us.append(FnUnit('norms.cpp', 'h_sql2_unscaled', 3, 6, None, lambda i, o: [('value', req(o[0], norm('sql2', i))), ('scalar value', req(o[4], i[0] * i[0])),
              ('scalar half derivative', req(o[5], i[0]))] + [('half gradient %d' % k, req(o[1 + k], i[k])) for k in range(3)]))
    return us
