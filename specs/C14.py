"""Automatic differentiation numbers: value and derivative of every operation."""
import math
from fractions import Fraction
from vf.terms import *
from vf.run import FnUnit

FUNCTIONS = ['Jet::Jet', 'Jet::operator+=', 'Jet::operator-=', 'Jet::operator*=', 'Jet::operator/=', 'operator+', 'operator-', 'operator*', 'operator/', 'comparison operators', 'abs', 'copysign', 'log', 'log10', 'log1p', 'exp', 'expm1', 'sqrt',
             'cos', 'acos', 'sin', 'asin', 'tan', 'atan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'cbrt', 'exp2', 'log2', 'hypot', 'fma', 'fmax', 'fmin', 'fdim', 'erf', 'erfc', 'isfinite', 'isnormal', 'isinf', 'isnan', 'signbit', 'isless', 'isgreater',
             'islessequal', 'isgreaterequal', 'islessgreater', 'isunordered', 'lerp', 'midpoint', 'atan2', 'norm', 'pow']
ASSUMPTIONS = ['machine arithmetic is treated as exact real arithmetic (comparisons, classification and NaN handling are decided in IEEE arithmetic)',
               'the mathematical library is modelled by uninterpreted functions with the identities listed per function in the specification',
               'two derivatives, fixed or dynamic; dynamically sized operands may be constants without derivatives']
C = lambda x: R(Fraction(x))
A = app


def names(i): return (i[0], i[1:3]), (i[3], i[4:6]), (i[6], i[7:9]), i[9]


# ---- each operation: precondition(x, y, z, s), value goal(o, x, y, z, s), derivative goal(o, dx, dy, dz, x, y, z, s)
# derivative goals are stated for one direction
def val(f): return lambda o, *a: req(o, f(*a))


OPS = {}


def op(name, kind, value, deriv, pre=None, ax=None, lo=None, hi=None): OPS[name] = (kind, value, deriv, pre, ax, lo, hi)


def lin(name, kind, f, pre=None):
    """operations that are rational functions: derivative computed symbolically"""
    X, Y, Z, S = (var('$%s' % c, 'R') for c in 'xyzs')
    t = f(X, Y, Z, S)
    dt = [diff(t, v) for v in (X, Y, Z)]

    def deriv(o, dx, dy, dz, x, y, z, s):
        m = {X.id: x, Y.id: y, Z.id: z, S.id: s}
        d = [subst(k, m) for k in dt]
        return req(o, d[0] * dx + d[1] * dy + d[2] * dz)
    op(name, kind, val(f), deriv, pre)


nzs = lambda x, y, z, s: [Not(req(s, 0)), rge(s * s, C('0.0001'))]
nzx = lambda x, y, z, s: [Not(req(x, 0)), rge(x * x, C('0.0001'))]
nzy = lambda x, y, z, s: [Not(req(y, 0)), rge(y * y, C('0.0001'))]
lin('pos', 'U', lambda x, y, z, s: x); lin('neg', 'U', lambda x, y, z, s: -x)
for n in ('add', 'cadd'): lin(n, 'B', lambda x, y, z, s: x + y)
for n in ('sub', 'csub'): lin(n, 'B', lambda x, y, z, s: x - y)
for n in ('mul', 'cmul'): lin(n, 'B', lambda x, y, z, s: x * y)
for n in ('div', 'cdiv'): op(n, 'B', lambda o, x, y, z, s: req(o * y, x), lambda o, dx, dy, dz, x, y, z, s: req(o * y * y, dx * y - x * dy), nzy)
for n in ('add_s', 's_add', 'cadd_s'): lin(n, 'U', lambda x, y, z, s: x + s)
for n in ('sub_s', 'csub_s'): lin(n, 'U', lambda x, y, z, s: x - s)
lin('s_sub', 'U', lambda x, y, z, s: s - x)
for n in ('mul_s', 's_mul', 'cmul_s'): lin(n, 'U', lambda x, y, z, s: x * s)
for n in ('div_s', 'cdiv_s'): op(n, 'U', lambda o, x, y, z, s: req(o * s, x), lambda o, dx, dy, dz, x, y, z, s: req(o * s, dx), nzs)
op('s_div', 'U', lambda o, x, y, z, s: req(o * x, s), lambda o, dx, dy, dz, x, y, z, s: req(o * x * x, -s * dx), nzx)
lin('add_self', 'U', lambda x, y, z, s: x + x); lin('mul_self', 'U', lambda x, y, z, s: x * x); lin('sub_self', 'U', lambda x, y, z, s: R(0))
op('div_self', 'U', lambda o, x, y, z, s: req(o, 1), lambda o, dx, dy, dz, x, y, z, s: req(o, 0), nzx)
op('seed', 'F', lambda o, x, y, z, s: req(o, s), None)
op('constant', 'U', lambda o, x, y, z, s: req(o, s), lambda o, *a: req(o, 0))
op('zero', 'U', lambda o, x, y, z, s: req(o, 0), lambda o, *a: req(o, 0))

GRPA = list(OPS)


def fn1(name, deriv, pre=None, ax=None, lo=-3.0, hi=3.0):
    op(name, 'U', lambda o, x, y, z, s: req(o, A(name, x)), lambda o, dx, dy, dz, x, y, z, s: deriv(o, dx, x), (lambda x, y, z, s: pre(x)) if pre else None, (lambda x, y, z, s: ax(x)) if ax else None, lo, hi)


def near(o, w, t):
    """o = w * t for the real constant t, known to 1e-12"""
    e = rabs(w) * C('1e-11')
    d = o - w * R(Fraction(t))
    return And(rle(d, e), rle(-e, d))


trig = lambda x: [req(A('sin', x) * A('sin', x) + A('cos', x) * A('cos', x), 1)]
ttan = lambda x: trig(x) + [req(A('tan', x) * A('cos', x), A('sin', x)), Not(req(A('cos', x), 0))]
hyp = lambda x: [req(A('cosh', x) * A('cosh', x) - A('sinh', x) * A('sinh', x), 1), req(A('tanh', x) * A('cosh', x), A('sinh', x)), rge(A('cosh', x), 1),
                 req(2 * A('cosh', x), A('exp', x) + A('exp', -x)), req(2 * A('sinh', x), A('exp', x) - A('exp', -x)), req(A('exp', x) * A('exp', -x), 1)]
unit = lambda x: [rlt(x * x, C('0.98'))]
pos = lambda x: [rgt(x, C('0.01'))]
op('abs', 'U', lambda o, x, y, z, s: req(o, rabs(x)), lambda o, dx, dy, dz, x, y, z, s: req(o, Ite(rlt(x, 0), -dx, dx)), nzx)
fn1('log', lambda o, d, x: req(o * x, d), pos, lo=0.02)
fn1('log10', lambda o, d, x: near(d, o * x, math.log(10)), pos, lo=0.02)
fn1('log2', lambda o, d, x: near(d, o * x, math.log(2)), pos, lo=0.02)
fn1('log1p', lambda o, d, x: req(o * (1 + x), d), lambda x: [rgt(x, C('-0.9'))], lo=-0.9)
fn1('exp', lambda o, d, x: req(o, A('exp', x) * d))
fn1('exp2', lambda o, d, x: near(o, A('exp2', x) * d, math.log(2)))
fn1('expm1', lambda o, d, x: req(o, (A('expm1', x) + 1) * d), ax=lambda x: [req(A('expm1', x) + 1, A('exp', x))])
fn1('sqrt', lambda o, d, x: req(2 * o * A('sqrt', x), d), pos, lo=0.02)
fn1('cos', lambda o, d, x: req(o, -A('sin', x) * d), ax=trig)
fn1('sin', lambda o, d, x: req(o, A('cos', x) * d), ax=trig)
fn1('tan', lambda o, d, x: req(o, (1 + A('tan', x) * A('tan', x)) * d), ax=ttan, lo=-1.4, hi=1.4)
fn1('acos', lambda o, d, x: req(o * A('sqrt', 1 - x * x), -d), unit, lo=-0.98, hi=0.98)
fn1('asin', lambda o, d, x: req(o * A('sqrt', 1 - x * x), d), unit, lo=-0.98, hi=0.98)
fn1('atan', lambda o, d, x: req(o * (1 + x * x), d))
fn1('sinh', lambda o, d, x: req(o, A('cosh', x) * d), ax=hyp)
fn1('cosh', lambda o, d, x: req(o, A('sinh', x) * d), ax=hyp)
fn1('tanh', lambda o, d, x: req(o, (1 - A('tanh', x) * A('tanh', x)) * d), ax=hyp)
fn1('floor', lambda o, d, x: req(o, 0)); fn1('ceil', lambda o, d, x: req(o, 0))
fn1('cbrt', lambda o, d, x: req(3 * o * A('cbrt', x) * A('cbrt', x), d), lambda x: [rge(x * x, C('0.0001'))],
    lambda x: [req(A('cbrt', x) * A('cbrt', x), A('cbrt', x * x)), req(A('cbrt', x) * A('cbrt', x) * A('cbrt', x), x)])
fn1('erf', lambda o, d, x: near(o, A('exp', -(x * x)) * d, 2 / math.sqrt(math.pi)))
fn1('erfc', lambda o, d, x: near(o, -A('exp', -(x * x)) * d, 2 / math.sqrt(math.pi)), ax=lambda x: [req(A('erfc', x), 1 - A('erf', x))])
lin('norm', 'U', lambda x, y, z, s: x * x)

GRPB = [k for k in OPS if k not in GRPA]
sgn = lambda c, v: Ite(rlt(c, 0), -v, v)
r2 = lambda x, y, z, s: [rge(x * x + y * y, C('0.0001'))]


def H3(x, y, z): return x * x + y * y + z * z


op('hypot', 'B', lambda o, x, y, z, s: And(rge(o, 0), req(o * o, x * x + y * y)), lambda o, dx, dy, dz, x, y, z, s, v: req(o * v, x * dx + y * dy), r2)
op('hypot3', 'T', lambda o, x, y, z, s: And(rge(o, 0), req(o * o, H3(x, y, z))), lambda o, dx, dy, dz, x, y, z, s, v: req(o * v, x * dx + y * dy + z * dz), lambda x, y, z, s: [rge(H3(x, y, z), C('0.0001'))])
lin('fma', 'T', lambda x, y, z, s: x * y + z)
op('fmax', 'B', lambda o, x, y, z, s: req(o, rmax(x, y)), lambda o, dx, dy, dz, x, y, z, s: req(2 * o, Ite(rgt(x, y), 2 * dx, Ite(rlt(x, y), 2 * dy, dx + dy))))
op('fmin', 'B', lambda o, x, y, z, s: req(o, rmin(x, y)), lambda o, dx, dy, dz, x, y, z, s: req(2 * o, Ite(rlt(x, y), 2 * dx, Ite(rgt(x, y), 2 * dy, dx + dy))))
op('fdim', 'B', lambda o, x, y, z, s: req(o, rmax(x - y, R(0))), lambda o, dx, dy, dz, x, y, z, s: req(o, Ite(rgt(x, y), dx - dy, R(0))), lambda x, y, z, s: [Not(req(x, y))])
op('copysign', 'B', lambda o, x, y, z, s: req(o, sgn(y, rabs(x))), lambda o, dx, dy, dz, x, y, z, s: req(o, sgn(x, sgn(y, dx))), lambda x, y, z, s: [Not(req(x, 0)), Not(req(y, 0))])
op('atan2', 'B', lambda o, x, y, z, s: req(o, A('atan2', x, y)), lambda o, dx, dy, dz, x, y, z, s: req(o * (x * x + y * y), y * dx - x * dy), r2)
lin('lerp', 'T', lambda x, y, z, s: x + z * (y - x))
op('midpoint', 'B', lambda o, x, y, z, s: req(2 * o, x + y), lambda o, dx, dy, dz, x, y, z, s: req(2 * o, dx + dy))

GRPC = [k for k in OPS if k not in GRPA and k not in GRPB]
P = lambda x, p: A('pow', x, p)
isint = lambda p: req(A('floor', p), p)


def pax(b, p): return [Implies(Not(req(b, 0)), req(P(b, p - 1) * b, P(b, p))), Implies(rgt(b, 0), rgt(P(b, p), 0))]


op('pow_s', 'U', lambda o, x, y, z, s: req(o, P(x, s)), lambda o, dx, dy, dz, x, y, z, s: req(o * x, s * P(x, s) * dx), lambda x, y, z, s: [Not(req(x, 0)), rge(x * x, C('0.01')), Or(rgt(x, 0), isint(s))], lambda x, y, z, s: pax(x, s))
op('s_pow', 'U', lambda o, x, y, z, s: Implies(Or(rgt(s, 0), isint(x)), req(o, Ite(req(s, 0), R(0), P(s, x)))),
   lambda o, dx, dy, dz, x, y, z, s: And(Implies(rgt(s, 0), req(o, P(s, x) * A('log', s) * dx)), Implies(Or(req(s, 0), And(rlt(s, 0), isint(x), req(dx, 0))), req(o, 0))),
   lambda x, y, z, s: [Or(rge(s, C('0.01')), req(s, 0), And(rlt(s, C('-0.01')), isint(x))), Implies(req(s, 0), rgt(x, 0))], lambda x, y, z, s: pax(s, x))


def powd(o, dx, dy, dz, x, y, z, s):
    return And(Implies(rgt(x, 0), req(o * x, P(x, y) * (y * dx + x * A('log', x) * dy))), Implies(And(rlt(x, 0), req(dy, 0)), req(o * x, y * P(x, y) * dx)),
               Implies(req(x, 0), req(o, Ite(req(y, 1), dx, R(0)))))


op('pow', 'B', lambda o, x, y, z, s: req(o, Ite(req(x, 0), R(0), P(x, y))), powd,
   lambda x, y, z, s: [Or(rge(x, C('0.01')), And(req(x, 0), rge(y, 1)), And(rlt(x, C('-0.01')), isint(y)))], lambda x, y, z, s: pax(x, y))
GRPD = ['pow_s', 's_pow', 'pow']


def unit_of(name, prefix, mask, grp):
    kind, value, deriv, pre, ax, lo, hi = OPS[name]

    def ops(i): return [i[0], i[3], i[6], i[9]]

    def goals(i, o):
        v = ops(i)
        g = [('value', value(o[0], *v)), ('number of derivatives', Or(req(o[3], 0), req(o[3], 2)))]
        if name == 'seed': return g + [('derivative 0', req(o[1], 0)), ('derivative 1', req(o[2], 1))]
        for k in range(2):
            d = [i[1 + 3 * j + k] if mask >> j & 1 else R(0) for j in range(3)]
            ex = (o[0],) if name.startswith('hypot') else ()
            g.append(('derivative %d' % k, deriv(o[1 + k], *d, *v, *ex)))
        return g

    def sampler(rng):
        k = rng.randint(0, 7)
        x = [rng.uniform(-3, 3) for _ in range(10)]
        if lo is not None: x[0] = rng.uniform(lo, hi)
        if k % 4 == 1: x[3] = x[0]
        if k % 4 == 2:
            for j in (0, 3, 9): x[j] = float(rng.randint(-3, 3)) if lo is None else x[j]
        if k % 8 == 2: x[rng.choice((0, 9))] = 0.0 if lo is None else x[0]
        if k % 8 == 6: x[rng.choice((1, 4, 7))] = 0.0; x[5] = 0.0
        return x
    def precond(i):
        # (a midpoint is computed differently near overflow and underflow)
        return (pre(*ops(i)) if pre else []) + ([And(rle(v, C('1e300')), rge(v, C('-1e300')), Or(req(v, 0), rge(v, C('1e-300')), rle(v, C('-1e-300')))) for v in i] if name in ('midpoint', 'fmax', 'fmin') else [])
    return FnUnit('jets.cpp', 'h_%s%s' % (prefix, name), 10, 4, precond, goals, sampler=sampler, defs=('VF_' + grp,), nsamples=1500,
                  axioms=(lambda i: ax(*ops(i))) if ax else None)


def yes(c): return Ite(c, F(1, 64), F(0, 64))


def cmpg(i, o):
    a, b = i[0], i[3]
    lt, le, eq = fcmp('fp.lt', a, b), fcmp('fp.leq', a, b), fcmp('fp.eq', a, b)
    gt, ge = fcmp('fp.lt', b, a), fcmp('fp.leq', b, a)
    r = []
    for k, (n, c) in enumerate((('<', lt), ('<=', le), ('>', gt), ('>=', ge), ('==', eq), ('!=', Not(eq)))):
        r += [('%s %s' % (n, w), Eq(o[3 * k + j], yes(c))) for j, w in enumerate(('two', 'with a scalar', 'of a scalar'))]
    return r


def clsg(i, o):
    a, b = i[0], i[3]
    lt, le, gt, ge = fcmp('fp.lt', a, b), fcmp('fp.leq', a, b), fcmp('fp.lt', b, a), fcmp('fp.leq', b, a)
    norm = And(Not(isinf(a)), fcmp('fp.leq', F(2.0 ** -1022, 64), mk('fp.abs', (a,), a.sort)))
    neg = mk('fp.isNegative', (a,), 'B')
    cs = (('isfinite', Not(Or(isnan(a), isinf(a)))), ('isinf', isinf(a)), ('isnan', isnan(a)), ('signbit', None), ('isless', lt), ('isgreater', gt), ('islessequal', le), ('isgreaterequal', ge), ('islessgreater', Or(lt, gt)), ('isunordered', Or(isnan(a), isnan(b))),
          ('isnormal', norm), ('IsFinite', Not(Or(isnan(a), isinf(a)))), ('IsInfinite', isinf(a)), ('IsNaN', isnan(a)), ('IsNormal', norm))
    return [(n, Eq(o[k], yes(c))) if c is not None else (n, Not(isnan(a)), Eq(o[k], yes(neg))) for k, (n, c) in enumerate(cs)]


def nang(sel):
    def f(i, o):
        a, b = i[0], i[3]
        one = And(isnan(a), Not(isnan(b)))
        two = And(isnan(b), Not(isnan(a)))
        return [('first is NaN', one, And(Eq(o[0], i[3]), Eq(o[1], i[4]), Eq(o[2], i[5]))), ('second is NaN', two, And(Eq(o[0], i[0]), Eq(o[1], i[1]), Eq(o[2], i[2])))]
    return f


def units(tier):
    r = []
    for grp, ns in (('A', GRPA), ('B', GRPB), ('C', GRPC), ('D', GRPD)):
        for n in ns:
            r.append(unit_of(n, '', 7, grp))
            for m in {'F': (), 'U': (1,), 'B': (3, 1, 2), 'T': (7, 1, 2, 4)}[OPS[n][0]]: r.append(unit_of(n, 'd%d_' % m, m, grp))
    for fn in ('h_cmp', 'h_dcmp'): r.append(FnUnit('jets.cpp', fn, 6, 18, None, cmpg, defs=('VF_E',), mode='fp', nsamples=1000))
    r.append(FnUnit('jets.cpp', 'h_class', 6, 15, None, clsg, defs=('VF_E',), mode='fp', nsamples=1000))
    for n in ('fmax', 'fmin'): r.append(FnUnit('jets.cpp', 'h_' + n, 10, 4, None, nang(n), defs=('VF_C',), mode='fp', sampler=lambda r: [r.choice((math.nan, r.uniform(-2, 2))) if k in (0, 3) else r.uniform(-2, 2) for k in range(10)], nsamples=1000, name='h_%s NaN' % n))
    return r
