"""Hash-consed typed terms (Bool, bit-vectors, Reals, IEEE floats, uninterpreted points).

Sorts: 'B' | 'R' | 'I' | ('BV', n) | ('F', 32|64) | ('U', name)
Every constructor folds constants, so concrete control flow stays concrete.
"""
import math, struct
from fractions import Fraction

_table = {}
_counter = [0]


class Term:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', '_h')

    def __add__(s, o): return radd(s, lift(o))
    def __radd__(s, o): return radd(lift(o), s)
    def __sub__(s, o): return rsub(s, lift(o))
    def __rsub__(s, o): return rsub(lift(o), s)
    def __mul__(s, o): return rmul(s, lift(o))
    def __rmul__(s, o): return rmul(lift(o), s)
    def __truediv__(s, o): return rdiv(s, lift(o))
    def __rtruediv__(s, o): return rdiv(lift(o), s)
    def __neg__(s): return rneg(s)
    def __pow__(s, n):
        r = R(1)
        for _ in range(n):
            r = rmul(r, s)
        return r

    def __repr__(s): return show(s)


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == 'const':
        return str(t.val)
    if t.op == 'var':
        return t.val
    if depth == 0:
        return '…'
    nm = t.op if t.val is None else '%s[%s]' % (t.op, t.val)
    return '(' + nm + ' ' + ' '.join(show(a, depth - 1) for a in t.args) + ')'


def mk(op, args=(), sort=None, val=None):
    key = (op, tuple(a.id for a in args), sort, val if op != 'const' or not isinstance(val, float)
           else struct.pack('d', val))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
        _counter[0] += 1
        t.id = _counter[0]
        _table[key] = t
    return t


def const(v, sort): return mk('const', (), sort, v)
def var(name, sort): return mk('var', (), sort, name)


_fresh = {}


def fresh(prefix, sort):
    n = _fresh.get(prefix, 0)
    _fresh[prefix] = n + 1
    return var('%s!%d' % (prefix, n), sort)


TRUE = const(True, 'B')
FALSE = const(False, 'B')


def B(b): return TRUE if b else FALSE
def R(x):
    if isinstance(x, float):
        x = Fraction(x)
    return const(Fraction(x), 'R')
def BV(v, n): return const(v & ((1 << n) - 1), ('BV', n))
def F(v, w):
    if w == 32:
        v = f32(v)
    return const(float(v), ('F', w))
def I(v): return const(int(v), 'I')


def f32(v):
    if math.isnan(v) or math.isinf(v):
        return v
    try:
        return struct.unpack('f', struct.pack('f', v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def lift(o):
    if isinstance(o, Term):
        return o
    if isinstance(o, bool):
        return B(o)
    return R(o)


def is_c(t): return t.op == 'const'


def signed(v, n): return v - (1 << n) if v >> (n - 1) & 1 else v


# ---------------------------------------------------------------- booleans
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'B')


def And(*xs):
    out, seen = [], set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == 'and':
            st.extend(x.args[::-1]); continue
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0].id in seen:
            return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', out, 'B')


def Or(*xs):
    out, seen = [], set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == 'or':
            st.extend(x.args[::-1]); continue
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
    for x in out:
        if x.op == 'not' and x.args[0].id in seen:
            return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', out, 'B')


def Implies(a, b): return Or(Not(a), b)
def Iff(a, b): return Eq(a, b)


def Xor(a, b): return Not(Eq(a, b))


def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is FALSE: return And(c, a)
        if b is TRUE: return Or(Not(c), a)
    if c.op == 'not':
        return Ite(c.args[0], b, a)
    assert a.sort == b.sort, (a.sort, b.sort)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.sort)


def Eq(a, b):
    """logical (bit) equality of two terms of one sort"""
    if a is b: return TRUE
    assert a.sort == b.sort, (a.sort, b.sort, a, b)
    if is_c(a) and is_c(b):
        if isinstance(a.sort, tuple) and a.sort[0] == 'F':
            if math.isnan(a.val) and math.isnan(b.val): return TRUE
            return B(struct.pack('d', a.val) == struct.pack('d', b.val))
        return B(a.val == b.val)
    if a.sort == 'B':
        if is_c(a): return b if a.val else Not(b)
        if is_c(b): return a if b.val else Not(a)
    if is_c(a): a, b = b, a
    if a.op == 'ite' and is_c(b):
        c, x, y = a.args
        if is_c(x) or is_c(y):
            return Ite(c, Eq(x, b), Eq(y, b))
    if a.op == 'zext' and is_c(b):
        n = a.args[0].sort[1]
        if b.val >> n: return FALSE
        return Eq(a.args[0], BV(b.val, n))
    if a.id > b.id and not is_c(b): a, b = b, a
    return mk('=', (a, b), 'B')


# ---------------------------------------------------------------- bit-vectors
def bvop(op, a, b):
    n = a.sort[1]
    M = (1 << n) - 1
    if is_c(a) and is_c(b):
        x, y = a.val, b.val
        if op == 'bvadd': return BV(x + y, n)
        if op == 'bvsub': return BV(x - y, n)
        if op == 'bvmul': return BV(x * y, n)
        if op == 'bvand': return BV(x & y, n)
        if op == 'bvor': return BV(x | y, n)
        if op == 'bvxor': return BV(x ^ y, n)
        if op == 'bvshl': return BV(x << y if y < n else 0, n)
        if op == 'bvlshr': return BV(x >> y if y < n else 0, n)
        if op == 'bvashr': return BV(signed(x, n) >> min(y, n - 1), n)
        if op == 'bvudiv' and y: return BV(x // y, n)
        if op == 'bvurem' and y: return BV(x % y, n)
        if op in ('bvsdiv', 'bvsrem') and y:
            sx, sy = signed(x, n), signed(y, n)
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0): q = -q
            return BV(q if op == 'bvsdiv' else sx - q * sy, n)
    if is_c(b):
        y = b.val
        if y == 0 and op in ('bvadd', 'bvsub', 'bvor', 'bvxor', 'bvshl', 'bvlshr', 'bvashr'): return a
        if y == 0 and op in ('bvand', 'bvmul'): return b
        if y == 1 and op in ('bvmul', 'bvudiv', 'bvsdiv'): return a
        if y == M and op == 'bvand': return a
        if op == 'bvsub':
            return bvop('bvadd', a, BV(-y, n))
        if op == 'bvadd' and a.op == 'bvadd' and is_c(a.args[1]):
            return bvop('bvadd', a.args[0], BV(a.args[1].val + y, n))
        if op == 'bvand' and a.op == 'zext' and a.args[0].sort[1] <= n:
            k = a.args[0].sort[1]
            if y & ((1 << k) - 1) == (1 << k) - 1: return a
    if is_c(a):
        x = a.val
        if op in ('bvadd', 'bvmul', 'bvand', 'bvor', 'bvxor'):
            return bvop(op, b, a)
        if x == 0 and op in ('bvshl', 'bvlshr', 'bvashr', 'bvudiv', 'bvurem'): return a
    if a is b:
        if op in ('bvsub', 'bvxor'): return BV(0, n)
        if op in ('bvand', 'bvor'): return a
    for p, q, sw in ((a, b, 0), (b, a, 1)):
        if p.op == 'ite' and is_c(q) and is_c(p.args[1]) and is_c(p.args[2]):
            f = (lambda z: bvop(op, q, z)) if sw else (lambda z: bvop(op, z, q))
            return Ite(p.args[0], f(p.args[1]), f(p.args[2]))
    return mk(op, (a, b), a.sort)


def bvcmp(op, a, b):
    n = a.sort[1]
    if is_c(a) and is_c(b):
        x, y = a.val, b.val
        if op[2] == 's': x, y = signed(x, n), signed(y, n)
        return B({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op[3:]])
    if a is b: return B(op[3:] in ('le', 'ge'))
    if op[3:] == 'gt': return bvcmp(op[:3] + 'lt', b, a)
    if op[3:] == 'ge': return bvcmp(op[:3] + 'le', b, a)
    if op == 'bvult' and is_c(b) and b.val == 0: return FALSE
    if op == 'bvule' and is_c(a) and a.val == 0: return TRUE
    for p, q, sw in ((a, b, 0), (b, a, 1)):
        if p.op == 'ite' and is_c(q) and (is_c(p.args[1]) or is_c(p.args[2])):
            f = (lambda z: bvcmp(op, q, z)) if sw else (lambda z: bvcmp(op, z, q))
            return Ite(p.args[0], f(p.args[1]), f(p.args[2]))
    if op[3:] == 'le':
        return Not(bvcmp(op[:3] + 'lt', b, a))
    return mk(op, (a, b), 'B')


def zext(a, n):
    if a.sort == 'B': return Ite(a, BV(1, n), BV(0, n))
    k = a.sort[1]
    if k == n: return a
    if is_c(a): return BV(a.val, n)
    if a.op == 'zext': a = a.args[0]
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return Ite(a.args[0], zext(a.args[1], n), zext(a.args[2], n))
    return mk('zext', (a,), ('BV', n))


def sext(a, n):
    if a.sort == 'B': return Ite(a, BV(-1, n), BV(0, n))
    k = a.sort[1]
    if k == n: return a
    if is_c(a): return BV(signed(a.val, k), n)
    if a.op == 'zext': return zext(a.args[0], n)
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return Ite(a.args[0], sext(a.args[1], n), sext(a.args[2], n))
    return mk('sext', (a,), ('BV', n))


def extract(a, hi, lo):
    k = a.sort[1]
    n = hi - lo + 1
    if n == k: return a
    if is_c(a): return BV(a.val >> lo, n)
    if a.op == 'concat':
        h, l = a.args
        ln = l.sort[1]
        if hi < ln: return extract(l, hi, lo)
        if lo >= ln: return extract(h, hi - ln, lo - ln)
    if a.op in ('zext', 'sext'):
        j = a.args[0].sort[1]
        if hi < j: return extract(a.args[0], hi, lo)
        if a.op == 'zext' and lo >= j: return BV(0, n)
    if a.op == 'extract':
        l0 = a.val[1]
        return extract(a.args[0], hi + l0, lo + l0)
    if a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return Ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo))
    if a.op == 'bvshl' and is_c(a.args[1]):
        s = a.args[1].val
        if hi < s: return BV(0, n)
        if lo >= s: return extract(a.args[0], hi - s, lo - s)
    if a.op == 'bvlshr' and is_c(a.args[1]):
        s = a.args[1].val
        if lo + s >= k: return BV(0, n)
        if hi + s < k: return extract(a.args[0], hi + s, lo + s)
    if a.op == 'bvor':
        x, y = extract(a.args[0], hi, lo), extract(a.args[1], hi, lo)
        if is_c(x) and x.val == 0: return y
        if is_c(y) and y.val == 0: return x
    return mk('extract', (a,), ('BV', n), (hi, lo))


def trunc(a, n):
    if n == 1:
        if a.sort == 'B': return a
        return Eq(extract(a, 0, 0), BV(1, 1))
    return extract(a, n - 1, 0)


def concat(h, l):
    if is_c(h) and is_c(l):
        return BV(h.val << l.sort[1] | l.val, h.sort[1] + l.sort[1])
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.val[1] == l.val[0] + 1:
        return extract(h.args[0], h.val[0], l.val[1])
    return mk('concat', (h, l), ('BV', h.sort[1] + l.sort[1]))


# ---------------------------------------------------------------- reals
def radd(a, b):
    if a.sort == 'R' and b.sort == 'R':
        if is_c(a) and is_c(b): return R(a.val + b.val)
        if is_c(a) and a.val == 0: return b
        if is_c(b) and b.val == 0: return a
        if b.op == 'rneg' and b.args[0] is a: return R(0)
        if a.op == 'rneg' and a.args[0] is b: return R(0)
        if is_c(a) or (not is_c(b) and a.id > b.id): a, b = b, a
        return mk('+', (a, b), 'R')
    raise TypeError((a.sort, b.sort))


def rneg(a):
    if is_c(a): return R(-a.val)
    if a.op == 'rneg': return a.args[0]
    return mk('rneg', (a,), 'R')


def rsub(a, b):
    if a is b: return R(0)
    return radd(a, rneg(b))


def rmul(a, b):
    if is_c(a) and is_c(b): return R(a.val * b.val)
    if is_c(a): a, b = b, a
    if is_c(b):
        if b.val == 0: return R(0)
        if b.val == 1: return a
        if b.val == -1: return rneg(a)
    if a.op == 'rneg': return rneg(rmul(a.args[0], b))
    if b.op == 'rneg': return rneg(rmul(a, b.args[0]))
    if not is_c(b) and a.id > b.id: a, b = b, a
    return mk('*', (a, b), 'R')


def rdiv(a, b):
    if is_c(b) and b.val != 0:
        if b.val == 1: return a
        return rmul(a, R(1 / b.val))
    if is_c(a) and a.val == 0 and is_c(b) and b.val != 0: return a
    if a.op == 'rneg': return rneg(rdiv(a.args[0], b))
    if b.op == 'rneg': return rneg(rdiv(a, b.args[0]))
    return mk('/', (a, b), 'R')


def rlt(a, b):
    a, b = lift(a), lift(b)
    if is_c(a) and is_c(b): return B(a.val < b.val)
    if a is b: return FALSE
    return mk('<', (a, b), 'B')


def rle(a, b):
    a, b = lift(a), lift(b)
    if is_c(a) and is_c(b): return B(a.val <= b.val)
    if a is b: return TRUE
    return Not(rlt(b, a))


def rgt(a, b): return rlt(b, a)
def rge(a, b): return rle(b, a)
def req(a, b): return Eq(lift(a), lift(b))


def app(f, *args, sort='R'):
    if sort == 'R' and f in ('tanh', 'sinh', 'cosh', 'expm1', 'log1p'):
        x = lift(args[0])
        if f == 'expm1': return app('exp', x) - 1
        if f == 'log1p': return app('log', x + 1)
        p, q = app('exp', x), app('exp', -x)
        return (p - q) / (p + q) if f == 'tanh' else ((p - q) if f == 'sinh' else (p + q)) / 2
    """uninterpreted / transcendental function application over the reals"""
    args = tuple(lift(a) for a in args)
    if sort == 'R' and all(is_c(a) for a in args):
        v = [a.val for a in args]
        if f == 'sqrt' and v[0] >= 0:
            n, d = math.isqrt(v[0].numerator), math.isqrt(v[0].denominator)
            if n * n == v[0].numerator and d * d == v[0].denominator: return R(Fraction(n, d))
        if f in ('floor', 'ceil', 'trunc'): return R(getattr(math, f)(v[0]))
        if f == 'round': return R(math.floor(abs(v[0]) + Fraction(1, 2)) * (-1 if v[0] < 0 else 1))
        if f in ('exp',) and v[0] == 0: return R(1)
        if f in ('log',) and v[0] == 1: return R(0)
        if f in ('sin', 'tan', 'atan', 'tanh', 'sinh', 'asin') and v[0] == 0: return R(0)
        if f in ('cos', 'cosh') and v[0] == 0: return R(1)
    return mk('app', args, sort, f)


def rabs(a):
    a = lift(a)
    if is_c(a): return R(abs(a.val))
    if a.op == 'rneg': a = a.args[0]
    if a.op == 'abs': return a
    return Ite(rlt(a, R(0)), rneg(a), a)


def rmax(a, b): return Ite(rlt(lift(a), lift(b)), lift(b), lift(a))
def rmin(a, b): return Ite(rlt(lift(b), lift(a)), lift(b), lift(a))
def Sqrt(a): return app('sqrt', a)
def Exp(a): return app('exp', a)
def Log(a): return app('log', a)


# ---------------------------------------------------------------- IEEE floats
def _rnd(v, w): return f32(v) if w == 32 else v


def fop(op, a, b):
    w = a.sort[1]
    if is_c(a) and is_c(b):
        x, y = a.val, b.val
        try:
            if op == 'fp.add': return F(x + y, w)
            if op == 'fp.sub': return F(x - y, w)
            if op == 'fp.mul': return F(x * y, w)
            if op == 'fp.div': return F(x / y, w)
        except (ZeroDivisionError, OverflowError):
            pass
    return mk(op, (a, b), a.sort)


def fneg(a):
    if is_c(a): return F(-a.val, a.sort[1])
    if a.op == 'fp.neg': return a.args[0]
    return mk('fp.neg', (a,), a.sort)


def fabs(a):
    if is_c(a): return F(abs(a.val), a.sort[1])
    return mk('fp.abs', (a,), a.sort)


def fcmp(op, a, b):
    if is_c(a) and is_c(b):
        x, y = a.val, b.val
        return B({'fp.lt': x < y, 'fp.leq': x <= y, 'fp.eq': x == y}[op])
    for p, q, sw in ((a, b, 0), (b, a, 1)):
        if p.op == 'ite' and is_c(q) and (is_c(p.args[1]) or is_c(p.args[2])):
            f = (lambda z: fcmp(op, q, z)) if sw else (lambda z: fcmp(op, z, q))
            return Ite(p.args[0], f(p.args[1]), f(p.args[2]))
    return mk(op, (a, b), 'B')


def isnan(a):
    if is_c(a): return B(math.isnan(a.val))
    if a.op in ('fp.neg', 'fp.abs'): a = a.args[0]
    if a.op == 'fpext': a = a.args[0]
    return mk('fp.isNaN', (a,), 'B')


def isinf(a):
    if is_c(a): return B(math.isinf(a.val))
    if a.op in ('fp.neg', 'fp.abs'): a = a.args[0]
    if a.op == 'fpext': a = a.args[0]
    return mk('fp.isInfinite', (a,), 'B')


def fpconv(a, w):
    if a.sort[1] == w: return a
    if is_c(a): return F(a.val, w)
    return mk('fpext' if w == 64 else 'fptrunc', (a,), ('F', w))


def subst(t, m, memo=None):
    """m: dict term.id -> Term"""
    if memo is None: memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop(); continue
        if x.id in m:
            memo[x.id] = m[x.id]; stack.pop(); continue
        if not x.args:
            memo[x.id] = x; stack.pop(); continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo); continue
        memo[x.id] = rebuild(x, [memo[a.id] for a in x.args])
        stack.pop()
    return memo[t.id]


def rebuild(x, a):
    if all(p is q for p, q in zip(a, x.args)): return x
    op = x.op
    if op == 'not': return Not(a[0])
    if op == 'and': return And(*a)
    if op == 'or': return Or(*a)
    if op == 'ite': return Ite(*a)
    if op == '=': return Eq(*a)
    if op == '+': return radd(*a)
    if op == '*': return rmul(*a)
    if op == '/': return rdiv(*a)
    if op == 'rneg': return rneg(a[0])
    if op == '<': return rlt(*a)
    if op == 'app': return app(x.val, *a, sort=x.sort)
    if op in ('bvult', 'bvslt'): return bvcmp(op, *a)
    if op.startswith('bv') and len(a) == 2: return bvop(op, *a)
    if op == 'zext': return zext(a[0], x.sort[1])
    if op == 'sext': return sext(a[0], x.sort[1])
    if op == 'extract': return extract(a[0], *x.val)
    if op == 'concat': return concat(*a)
    if op in ('fp.add', 'fp.sub', 'fp.mul', 'fp.div'): return fop(op, *a)
    if op == 'fp.neg': return fneg(a[0])
    if op == 'fp.abs': return fabs(a[0])
    if op in ('fp.lt', 'fp.leq', 'fp.eq'): return fcmp(op, *a)
    if op == 'fp.isNaN': return isnan(a[0])
    if op == 'fp.isInfinite': return isinf(a[0])
    if op in ('fpext', 'fptrunc'): return fpconv(a[0], x.sort[1])
    return mk(op, a, x.sort, x.val)


def free_vars(ts):
    seen, out, st = set(), [], list(ts)
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == 'var': out.append(x)
        st.extend(x.args)
    return sorted(out, key=lambda v: v.id)


def subterms(ts):
    seen, out, st = set(), [], list(ts)
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
        st.extend(x.args)
    return out


# ---------------------------------------------------------------- calculus on real terms
def diff(t, v, memo=None):
    """symbolic partial derivative of a real term with respect to variable v"""
    if memo is None: memo = {}
    if t.id in memo: return memo[t.id]
    a = t.args
    D = lambda x: diff(x, v, memo)
    if t is v: r = R(1)
    elif t.op in ('const', 'var'): r = R(0)
    elif t.op == '+': r = D(a[0]) + D(a[1])
    elif t.op == 'rneg': r = -D(a[0])
    elif t.op == '*': r = D(a[0]) * a[1] + a[0] * D(a[1])
    elif t.op == '/':
        d0, d1 = D(a[0]), D(a[1])
        r = d0 / a[1]
        if not (is_c(d1) and d1.val == 0): r = r - a[0] * d1 / (a[1] * a[1])
    elif t.op == 'ite': r = Ite(a[0], D(a[1]), D(a[2]))
    elif t.op == 'app':
        f = t.val
        if all(is_c(D(x)) and D(x).val == 0 for x in a): r = R(0)
        elif f == 'sqrt': r = D(a[0]) / (2 * t)
        elif f == 'exp': r = t * D(a[0])
        elif f == 'log': r = D(a[0]) / a[0]
        elif f == 'sin': r = app('cos', a[0]) * D(a[0])
        elif f == 'cos': r = -app('sin', a[0]) * D(a[0])
        elif f == 'tan': r = (1 + t * t) * D(a[0])
        elif f == 'atan': r = D(a[0]) / (1 + a[0] * a[0])
        elif f == 'asin': r = D(a[0]) / Sqrt(1 - a[0] * a[0])
        elif f == 'acos': r = -D(a[0]) / Sqrt(1 - a[0] * a[0])
        elif f == 'sinh': r = app('cosh', a[0]) * D(a[0])
        elif f == 'cosh': r = app('sinh', a[0]) * D(a[0])
        elif f == 'tanh': r = (1 - t * t) * D(a[0])
        elif f == 'atan2':
            y, x = a
            r = (x * D(y) - y * D(x)) / (x * x + y * y)
        elif f == 'cbrt': r = D(a[0]) / (3 * t * t)
        elif f == 'pow':
            x, p = a
            dp, dx = D(p), D(x)
            r = p * app('pow', x, p - 1) * dx
            if not (is_c(dp) and dp.val == 0): r = r + t * app('log', x) * dp
        else: raise NotImplementedError('derivative of ' + f)
    else: raise NotImplementedError('derivative of ' + t.op)
    memo[t.id] = r
    return r


# ---------------------------------------------------------------- numeric evaluation
class EvalError(Exception): pass


def _safe(f, *a):
    try:
        return f(*a)
    except (ValueError, OverflowError):
        return math.nan
    except ZeroDivisionError:
        return math.nan


MATHF = {'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos,
         'tan': math.tan, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos, 'sinh': math.sinh,
         'cosh': math.cosh, 'tanh': math.tanh, 'atan2': math.atan2, 'pow': math.pow,
         'log1p': math.log1p, 'expm1': math.expm1, 'log2': math.log2, 'log10': math.log10,
         'exp2': lambda x: 2.0 ** x, 'hypot': math.hypot, 'floor': math.floor, 'ceil': math.ceil,
         'erf': math.erf, 'erfc': math.erfc, 'trunc': math.trunc, 'round': lambda x: math.copysign(math.floor(abs(x) + 0.5), x), 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x)}


class Ev:
    """evaluate terms on concrete inputs; real equalities/inequalities use a tolerance"""

    def __init__(self, env, tol=1e-9, atol=1e-9):
        self.env, self.tol, self.atol, self.memo = env, tol, atol, {}

    def __call__(self, t):
        if t.id in self.memo: return self.memo[t.id]
        r = self.ev(t)
        self.memo[t.id] = r
        return r

    def close(self, x, y, extra=0.0):
        if extra == math.inf or extra != extra: return True
        if math.isnan(x) or math.isnan(y): return False
        if x == y: return True
        if math.isinf(x) or math.isinf(y): return False
        return abs(x - y) <= self.atol + self.tol * max(abs(x), abs(y)) + extra

    def err(self, t):
        """running bound of the rounding error of evaluating t (ill-conditioned points must not look like failures)"""
        m = self.__dict__.setdefault('ememo', {})
        if t.id in m: return m[t.id]
        op, a, u = t.op, t.args, 2.3e-16
        v = self(t)
        if not isinstance(v, float): r = 0.0
        elif op == 'ite': r = self.err(a[1]) if self(a[0]) else self.err(a[2])
        elif any(isinstance(self(z), float) and self.err(z) == math.inf for z in a): r = math.inf
        elif not math.isfinite(v):      # overflow of the specification itself: the value cannot be judged
            r = math.inf if a and all(not isinstance(self(z), float) or math.isfinite(self(z)) for z in a) else 0.0
        elif op == 'const': r = 0.0
        elif op == 'var': r = 64 * u * abs(v) if t.val.startswith('out') else 0.0
        elif op == '+': r = self.err(a[0]) + self.err(a[1]) + u * abs(v)
        elif op == '*':
            x, y = self(a[0]), self(a[1])
            r = abs(x) * self.err(a[1]) + abs(y) * self.err(a[0]) + u * abs(v)
        elif op == 'rneg': r = self.err(a[0])
        elif op == '/':
            y, ey = abs(self(a[1])), self.err(a[1])
            r = (self.err(a[0]) + abs(v) * ey) / (y - ey) + u * abs(v) if y > 2 * ey else math.inf
        elif op == 'app' and t.val in MATHF:
            r = 4 * u * abs(v)
            x = [self(z) for z in a]
            for i, z in enumerate(a):
                e = self.err(z)
                if e == 0: continue
                d = 0.0
                for s in (e, -e):
                    w = _safe(MATHF[t.val], *(x[:i] + [x[i] + s] + x[i + 1:]))
                    if not math.isnan(w): d = max(d, abs(w - v))
                r += d
        else: r = 0.0
        m[t.id] = r
        return r

    def ev(self, t):
        op, a = t.op, t.args
        if op == 'const':
            return float(t.val) if t.sort == 'R' else t.val
        if op == 'var':
            if t.val not in self.env: raise EvalError('no value for ' + t.val)
            return self.env[t.val]
        if op == 'not': return not self(a[0])
        if op == 'and': return all(self(x) for x in a)
        if op == 'or': return any(self(x) for x in a)
        if op == 'ite': return self(a[1]) if self(a[0]) else self(a[2])
        x = [self(z) for z in a]
        if op == '=':
            if t.args[0].sort == 'R': return self.close(x[0], x[1]) or (self.atol > 0 and self.close(x[0], x[1], 32 * (self.err(a[0]) + self.err(a[1]))))
            return x[0] == x[1] or (isinstance(x[0], float) and isinstance(x[1], float) and math.isnan(x[0]) and math.isnan(x[1]))
        if op == '<': return x[0] < x[1]
        if op == '+': return x[0] + x[1]
        if op == '*': return x[0] * x[1]
        if op == 'rneg': return -x[0]
        if op == '/': return _safe(lambda p, q: p / q, x[0], x[1])
        if op == 'app':
            if t.val in MATHF: return _safe(MATHF[t.val], *x)
            f = self.env.get('fn:' + t.val)
            if f: return f(*x)
        if op in ('bvult', 'bvslt'):
            n = t.args[0].sort[1]
            if op == 'bvslt': x = [signed(v, n) for v in x]
            return x[0] < x[1]
        if t.args and all(z.sort != 'R' for z in t.args):
            cs = [z if False else const(v, s.sort) for v, s, z in zip(x, t.args, t.args)]
            r = rebuild(t, cs)
            if is_c(r): return r.val
        if op == 'int2real': return float(x[0])
        if op == 'sbv2int': return signed(x[0], t.args[0].sort[1])
        if op == 'ubv2int': return x[0]
        raise EvalError('eval ' + op)
