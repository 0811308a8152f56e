"""Distances: value, symmetry, Jacobians with respect to both arguments."""
from vf.terms import *
from vf.run import FnUnit
from specs.C20 import norm, grad_ok, EPS
from specs.C21 import cov_sampler
from specs.C13 import pd2

LEVEL = 'proof'
FUNCTIONS = ['distances::Euclidean', 'distances::Manhattan', 'distances::L1', 'distances::L2', 'distances::Linf', 'distances::Cosine', 'distances::MahaNorm']
ASSUMPTIONS = []
K = {'euclidean': 'l2', 'l2': 'l2', 'manhattan': 'l1', 'l1': 'l1', 'linf': 'linf'}


def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]): s = s + x * y
    return s


def units(tier):
    us = []
    for nm, k in K.items():
        def scalar(i, o, k=k):
            x = i[0] - i[1]
            s = Ite(rgt(x, 0), R(1), R(-1))
            return [('value', req(o[0], rabs(x))), ('value with jacobians', req(o[1], rabs(x))), ('Ja', rgt(rabs(x), EPS), req(o[2], s)),
                    ('Jb', rgt(rabs(x), EPS), req(o[3], -s)), ('Ja = -Jb', req(o[3], -o[2])), ('non-negative', rge(o[0], 0)),
                    ('vanishes for equal arguments', req(i[0], i[1]), req(o[0], 0))]

        def vec(n, b):
            def f(i, o, k=k):
                x = [i[a] - i[a + n] for a in range(n)]
                v = norm(k, x)
                Ja, Jb = o[2:2 + n], o[2 + n:2 + 2 * n]
                return [('value', req(o[0], v)), ('value with jacobians', req(o[1], v)), ('size a', req(o[b], n)), ('size b', req(o[b + 1], n)),
                        ('symmetric', req(o[b + 2], v)), ('vanishes for equal arguments', And(*[req(i[a], i[a + n]) for a in range(n)]), req(o[0], 0))] + \
                    [('Ja ' + a, g, c) for a, g, c in grad_ok(k, x, v, Ja)] + [('Jb ' + a, g, c) for a, g, c in grad_ok(k, x, v, [-t for t in Jb])]
            return f
        us += [FnUnit('distances.cpp', 'h_%s_scalar' % nm, 2, 4, None, scalar, sampler=eqs(1)),
               FnUnit('distances.cpp', 'h_%s_vec3' % nm, 6, 11, None, vec(3, 8), sampler=eqs(3)),
               FnUnit('distances.cpp', 'h_%s_dyn2' % nm, 4, 9, None, vec(2, 6), sampler=eqs(2))]

    def cosine(n, b):
        def f(i, o):
            a, c = i[:n], i[n:2 * n]
            na2, nc2, ac = dot(a, a), dot(c, c), dot(a, c)
            na, nc = Sqrt(na2), Sqrt(nc2)
            ok = rgt(na * nc, EPS)
            return [('value', ok, req(o[0] * na * nc, ac)), ('value with jacobians', req(o[1], o[0])), ('size a', req(o[b], n)), ('size b', req(o[b + 1], n)),
                    ('symmetric', req(o[b + 2], o[0])), ('degenerate', And(req(na, 0)), req(o[0], 0))] + \
                [('Ja %d' % k, ok, req(o[2 + k], c[k] / (na * nc) - ac * a[k] / (na2 * na * nc))) for k in range(n)] + \
                [('Jb %d' % k, ok, req(o[2 + n + k], a[k] / (na * nc) - ac * c[k] / (nc2 * na * nc))) for k in range(n)]
        return f
    p = lambda n: lambda i: [rgt(dot(i[:n], i[:n]), 0), rgt(dot(i[n:], i[n:]), 0)]
    us += [FnUnit('distances.cpp', 'h_cosine_vec3', 6, 11, None, cosine(3, 8), sampler=eqs(3)),
           FnUnit('distances.cpp', 'h_cosine_dyn2', 4, 9, None, cosine(2, 6), sampler=eqs(2))]

    def mscalar(i, o):
        x, v = i[0] - i[1], i[2]
        n2 = x * x / v
        return [('value', And(req(o[0] * o[0], n2), rge(o[0], 0))), ('value with jacobians', req(o[1], o[0])),
                ('Ja', rgt(n2, R(1e-6)), req(o[2] * o[0] * v, x)), ('Jb', rgt(n2, R(1e-6)), req(o[3] * o[0] * v, -x))]

    def mvars(i, o):
        x = [i[0] - i[2], i[1] - i[3]]
        n2 = x[0] * x[0] / i[4] + x[1] * x[1] / i[5]
        return [('value', And(req(o[0] * o[0], n2), rge(o[0], 0))), ('value with jacobians', req(o[1], o[0]))] + \
            [('Ja %d' % k, rgt(n2, R(1e-6)), req(o[2 + k] * o[0] * i[4 + k], x[k])) for k in range(2)] + \
            [('Jb %d' % k, rgt(n2, R(1e-6)), req(o[4 + k] * o[0] * i[4 + k], -x[k])) for k in range(2)]

    def mcov(i, o):
        x, a, b, d = [i[0] - i[2], i[1] - i[3]], i[4], i[5], i[7]
        det = a * d - b * b
        w = [(d * x[0] - b * x[1]) / det, (a * x[1] - b * x[0]) / det]
        n2 = x[0] * w[0] + x[1] * w[1]
        far = rgt(o[0], R(2e-7))
        return [('value', req(o[0] * o[0], n2)), ('non-negative', rge(o[0], 0)), ('value with jacobians', req(o[1], o[0]))] + \
            [('Ja %d' % k, far, req(o[2 + k], w[k] / o[0])) for k in range(2)] + [('Jb %d' % k, far, req(o[4 + k], -w[k] / o[0])) for k in range(2)]

    def mcov_sampler(rng):
        p = cov_sampler(rng)
        return p[:2] + [rng.uniform(-3, 3), rng.uniform(-3, 3)] + p[2:6]
    us += [FnUnit('distances.cpp', 'h_maha_cov', 8, 6, lambda i: [pd2(i[4], i[5], i[7])], mcov, sampler=mcov_sampler, merge=False, defs=('COV',), timeout=20)]
    us += [FnUnit('distances.cpp', 'h_maha_scalar', 3, 4, lambda i: [rgt(i[2], R(1e-3))], mscalar),
           FnUnit('distances.cpp', 'h_maha_vars', 6, 6, lambda i: [rgt(i[4], R(1e-3)), rgt(i[5], R(1e-3))], mvars)]
    return us


def eqs(n):
    from vf.run import default_sampler
    d = default_sampler(2 * n)

    def f(rng):
        p = d(rng)
        u = rng.random()
        if u < 0.1: p[n:] = p[:n]
        elif u < 0.2: p[:n] = [0.0] * n
        return p
    return f
