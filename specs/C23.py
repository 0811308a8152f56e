"""Activations and softmax."""
from vf.terms import *
from vf.run import FnUnit

LEVEL = 'proof'
FUNCTIONS = ['losses::Sigmoid', 'losses::Tanh', 'losses::ReLU', 'losses::LeakyReLU', 'losses::Softmax', 'losses::SafeSoftmax', 'DefineLoss', 'DefineLoss2']
ASSUMPTIONS = ['exp is characterised by exp > 0, exp(0)=1, exp(a+b)=exp(a)exp(b); tanh(x) = (e^x-e^-x)/(e^x+e^-x)']


def val(k, x, a):
    if k == 'sigmoid': return 1 / (1 + Exp(-x))
    if k == 'tanh': return (Exp(x) - Exp(-x)) / (Exp(x) + Exp(-x))
    if k == 'relu': return Ite(rgt(x, 0), x, R(0))
    if k == 'leaky': return Ite(rgt(x, 0), x, a * x)


def der(k, x, a):
    """derivative, from the definition"""
    if k == 'sigmoid': return Exp(-x) / ((1 + Exp(-x)) * (1 + Exp(-x)))
    if k == 'tanh': return 4 / ((Exp(x) + Exp(-x)) * (Exp(x) + Exp(-x)))
    if k == 'relu': return Ite(rgt(x, 0), R(1), R(0))
    if k == 'leaky': return Ite(rgt(x, 0), R(1), a)


def rng_of(k, x, v, s=''):
    """range facts that also hold when the exponentials overflow"""
    if k == 'sigmoid': return [('range' + s, And(rge(v, 0), rle(v, 1)))]
    if k == 'tanh': return [('range' + s, And(rge(v, -1), rle(v, 1))), ('sign' + s, rgt(x, 0), rge(v, 0))]
    return []


def scalar(k):
    def f(i, o):
        x, jx = i[0], i[1]
        a = i[2] if k == 'leaky' else None
        v, d = val(k, x, a), der(k, x, a)
        return rng_of(k, x, o[0]) + [('value', req(o[0], v)), ('value with J', req(o[1], v)), ('value with jx', req(o[3], v)), ('value with Jx', req(o[5], v)),
                                     ('J', req(o[2], d)), ('chain rule jx', req(o[4], d * jx)), ('chain rule Jx0', req(o[6], d * jx)), ('chain rule Jx1', req(o[7], 2 * d * jx))]
    return f


def vector(k):
    def f(i, o):
        a = i[6] if k == 'leaky' else None
        g = [('shape', req(o[14], 1))]
        for r in range(2):
            v, d = val(k, i[r], a), der(k, i[r], a)
            g += rng_of(k, i[r], o[r], ' %d' % r)
            g += [('value %d' % r, req(o[r], v)), ('value with J %d' % r, req(o[2 + r], v)), ('value with Jx %d' % r, req(o[8 + r], v))]
            for c in range(2):
                g += [('J%d%d' % (r, c), req(o[4 + 2 * r + c], d if r == c else 0)), ('chain rule %d%d' % (r, c), req(o[10 + 2 * r + c], d * i[2 + 2 * r + c]))]
        return g
    return f


def pair(k):
    def f(i, o):
        a = i[6] if k == 'leaky' else None
        g = []
        for r in range(2):
            v, d = val(k, i[r], a), der(k, i[r], a)
            g.append(('value %d' % r, req(o[r], v)))
            for c in range(2): g.append(('chain rule %d%d' % (r, c), req(o[2 + 2 * r + c], d * i[2 + 2 * r + c])))
        return g + [('scalar value', req(o[6], val(k, i[0], a))), ('scalar J', req(o[7], der(k, i[0], a)))]
    return f


def soft(x):
    # shifted by the first entry: the same value, without overflow for moderate differences
    e = [Exp(t - x[0]) for t in x]
    s = e[0]
    for t in e[1:]: s = s + t
    v = [t / s for t in e]
    n = len(x)
    return v, [[v[r] * (1 - v[r]) if r == c else -(v[r] * v[c]) for c in range(n)] for r in range(n)]


def sum_(l):
    s = l[0]
    for t in l[1:]: s = s + t
    return s


def soft_vec(i, o):
    x, jx = i[:2], i[2:6]
    v, J = soft(x)
    g = [('shape', req(o[14], 1)), ('sums to one', req(o[0] + o[1], 1)), ('non-negative', And(rge(o[0], 0), rge(o[1], 0)))]
    for r in range(2):
        g += [('value %d' % r, req(o[r], v[r])), ('value with J %d' % r, req(o[2 + r], v[r])), ('value with Jx %d' % r, req(o[8 + r], v[r]))]
        for c in range(2):
            g += [('J%d%d' % (r, c), req(o[4 + 2 * r + c], J[r][c])), ('chain rule %d%d' % (r, c), req(o[10 + 2 * r + c], J[r][0] * jx[c] + J[r][1] * jx[2 + c]))]
    return g


def soft_pair(i, o):
    x, jx = i[:2], i[2:6]
    v, J = soft(x)
    return [('value %d' % r, req(o[r], v[r])) for r in range(2)] + \
        [('chain rule %d%d' % (r, c), req(o[2 + 2 * r + c], J[r][0] * jx[c] + J[r][1] * jx[2 + c])) for r in range(2) for c in range(2)] + \
        [('scalar value', req(o[6], 1)), ('scalar J', req(o[7], 0))]


def soft_scalar(i, o):
    return [('value %d' % k, req(o[k], 1)) for k in (0, 1, 3, 5)] + [('J %d' % k, req(o[k], 0)) for k in (2, 4, 6, 7)]


def soft3(i, o):
    v, J = soft(i)
    return [('sums to one', req(o[0] + o[1] + o[2], 1)), ('positive', And(*[rge(t, 0) for t in o[:3]]))] + [('value %d' % k, req(o[k], v[k])) for k in range(3)] + \
        [('J%d%d' % (r, c), req(o[3 + 3 * r + c], J[r][c])) for r in range(3) for c in range(3)]


def big(n, scale, extra=0):
    """arguments of every magnitude the function must survive"""
    def s(rng):
        k = rng.choice([1, 3, 30, scale])
        c = rng.uniform(-scale, scale) if k < scale and rng.random() < .3 else 0.
        return [c + rng.choice([rng.uniform(-k, k), 0.]) for _ in range(n)] + [rng.uniform(-2, 2) for _ in range(extra)]
    return s


def units(tier):
    us = []
    for k in ('sigmoid', 'tanh', 'relu', 'leaky'):
        e = 1 if k == 'leaky' else 0
        us += [FnUnit('activ.cpp', 'h_%s_s' % k, 2 + e, 8, None, scalar(k), sampler=big(1, 900, 1 + e)),
               FnUnit('activ.cpp', 'h_%s_v' % k, 6 + e, 15, None, vector(k), sampler=big(2, 900, 4 + e)),
               FnUnit('activ.cpp', 'h_%s_x' % k, 6 + e, 15, None, vector(k), sampler=big(2, 900, 4 + e)),
               FnUnit('activ.cpp', 'h_%s_p' % k, 6 + e, 8, None, pair(k), sampler=big(2, 900, 4 + e))]
    for k, sc in (('softmax', 300), ('safesoftmax', 900)):
        us += [FnUnit('activ.cpp', 'h_%s_s' % k, 2, 8, None, soft_scalar), FnUnit('activ.cpp', 'h_%s_v' % k, 6, 15, None, soft_vec, sampler=big(2, sc, 4)),
               FnUnit('activ.cpp', 'h_%s_x' % k, 6, 15, None, soft_vec, sampler=big(2, sc, 4)), FnUnit('activ.cpp', 'h_%s_p' % k, 6, 8, None, soft_pair, sampler=big(2, sc, 4)),
               FnUnit('activ.cpp', 'h_%s3' % k, 3, 12, None, soft3, sampler=big(3, sc))]
    return us
