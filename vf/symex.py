"""Symbolic executor / verification-condition generator over LLVM IR.

Two number modes: 'real' (floating-point operations are exact real arithmetic; an assumption that every check
lists) and 'fp' (IEEE-754 bit-precise).  Integers are always bit-precise.  Loops with concrete trip counts are
executed; designated loops are handled with the classical havoc/invariant rule, with no bound on iterations.
"""
from fractions import Fraction
import re, struct, math
from . import ir
from .terms import *


import os
EXC_CTOR = re.compile(r'_ZNSt\d+(invalid_argument|runtime_error|logic_error|out_of_range|domain_error|length_error|range_error|bad_alloc|exception)[CD]\dE')
HOOK = None
TRACE = os.environ.get('VF_TRACE')


class Extraction(Exception):
    """the code left the supported fragment: an error, never a verdict"""


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(s, obj, off): s.obj, s.off = obj, off
    def __eq__(s, o): return isinstance(o, Ptr) and s.obj == o.obj and s.off == o.off
    def __hash__(s): return hash((s.obj, s.off))
    def __repr__(s): return 'Ptr(%s,%s)' % (s.obj, s.off)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b
    def __eq__(s, o): return isinstance(o, PIte) and s.c is o.c and s.a == o.a and s.b == o.b
    def __hash__(s): return hash((s.c.id, s.a, s.b))
    def __repr__(s): return 'PIte(%s,%s,%s)' % (show(s.c, 2), s.a, s.b)


NULL = Ptr(0, 0)


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


def pite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a == b: return a
    return PIte(c, a, b)


def isptr(v): return isinstance(v, (Ptr, PIte))


def vite(c, a, b, mk=None):
    if a is b: return a
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isptr(a) and isptr(b): return pite(c, a, b)
    if isinstance(a, tuple): return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isptr(a) or isptr(b):
        # pointer merged with integer bits: only null/0 is meaningful
        if isptr(a) and isinstance(b, Term) and is_c(b) and b.val == 0: return pite(c, a, NULL)
        if isptr(b) and isinstance(a, Term) and is_c(a) and a.val == 0: return pite(c, NULL, b)
        raise MergeFail('pointer/integer merge')
    if a.sort != b.sort: raise MergeFail('sorts %s %s' % (a.sort, b.sort))
    return Ite(c, a, b)


class MergeFail(Exception):
    pass


class Obj:
    __slots__ = ('cells', 'size', 'lazy', 'name', 'dead')

    def __init__(s, name, size, lazy=None):
        s.cells, s.size, s.lazy, s.name, s.dead = {}, size, lazy, name, False

    def copy(s):
        o = Obj(s.name, s.size, s.lazy)
        o.cells = dict(s.cells)
        o.dead = s.dead
        return o


class State:
    __slots__ = ('regs', 'mem', 'own', 'pc', 'g', 'exc')

    def __init__(s):
        s.regs, s.mem, s.own, s.pc, s.g, s.exc = {}, {}, set(), (), {}, None

    def fork(s):
        t = State()
        t.regs, t.mem, t.pc, t.g, t.exc = dict(s.regs), dict(s.mem), s.pc, dict(s.g), s.exc
        s.own = set()
        return t

    def w(s, oid):
        o = s.mem.get(oid)
        if o is None: raise MemFault('access to unknown object %r' % (oid,))
        if oid not in s.own:
            o = o.copy()
            s.mem[oid] = o
            s.own.add(oid)
        return o

    def assume(s, c):
        if c is TRUE: return
        s.pc = s.pc + (tuple(c.args) if c.op == 'and' else (c,))


class MemFault(Exception):
    pass


def const_leaves(t, memo=None):
    """value -> condition for a choice between a few constants, or None"""
    memo = {} if memo is None else memo
    if t.id in memo: return memo[t.id]
    if is_c(t): r = {t.val: TRUE}
    elif t.op == 'ite':
        a, b = const_leaves(t.args[1], memo), const_leaves(t.args[2], memo)
        r = None
        if a is not None and b is not None:
            c, r = t.args[0], {}
            for v in list(a) + [v for v in b if v not in a]:
                r[v] = Or(And(c, a[v]) if v in a else FALSE, And(Not(c), b[v]) if v in b else FALSE)
            if len(r) > 6: r = None
    else: r = None
    memo[t.id] = r
    return r


class Outcome:
    def __init__(s, kind, st, val=None): s.kind, s.st, s.val = kind, st, val


class Loop:
    """a designated (cut) loop: invariant template"""

    def __init__(s, key):
        s.key = key
        s.vars = []       # (kind, loc, Term) havoced
        s.cands = []      # (name, builder(view)->Term)
        s.guards = []
        s.init, s.pres = [], []  # (pc, view)


_nan = {}


def nan_leaf(t):
    """Condition under which a real-mode term is the NaN literal itself (arithmetic on it is not tracked)."""
    if t.op == 'var': return TRUE if t.val == 'NaN' else FALSE
    if t.op != 'ite': return FALSE
    r = _nan.get(t)
    if r is None: r = _nan[t] = Ite(t.args[0], nan_leaf(t.args[1]), nan_leaf(t.args[2]))
    return r


class Exec:
    def __init__(self, mod, mode='real', externs=None, cut=None, merge=True, max_steps=2000000, datalayout_ptr=8):
        self.m, self.mode, self.externs = mod, mode, externs or {}
        self.nan = False
        self.cut = cut or (lambda f, h, body: False)
        self.merge = merge
        self.nobj = 1
        self.globs = {}
        self.steps, self.max_steps = 0, max_steps
        self.funcs_seen = set()
        self.extern_used = {}
        self.loopinfo = {}
        self.livein = {}
        self.obligs = []; self.pguard = []        # (name, pc, goal)
        self.cutloops = {}      # key -> Loop
        self.cand_gen = None    # callable(exec, loop, template_state, entry_state) -> list[(name, fn(view))]
        self.axioms = []
        self.depth = 0
        self.max_unroll = 3000
        self.ints = set()       # names of integer valued real variables
        self.pre = []
        self.rnd = False        # real mode: single precision results carry a relative rounding error

    # ------------------------------------------------------------------ types
    def res(self, t):
        while t[0] == 'named':
            t = self.m.types[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], 8)
        if k == 'f': return 16 if t[1] == 80 else t[1] // 8
        if k == 'ptr': return 8
        if k == 'arr': return self.align(t[2])
        if k == 'vec': return self.size(t)
        if k == 'struct':
            if t[2]: return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise Extraction('align ' + str(t))

    def size(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1]) or (t[1] + 7) // 8
        if k == 'f': return 16 if t[1] == 80 else t[1] // 8
        if k == 'ptr': return 8
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'vec': return t[1] * self.size(t[2])
        if k == 'struct':
            o = 0
            for x in t[1]:
                if not t[2]: o = -(-o // self.align(x)) * self.align(x)
                o += self.size(x)
            if not t[2]:
                a = self.align(t)
                o = -(-o // a) * a
            return o
        raise Extraction('size ' + str(t))

    def field(self, t, i):
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]: o = -(-o // self.align(x)) * self.align(x)
            if j == i: return o, x
            o += self.size(x)
        raise Extraction('field index')

    def sort(self, t):
        t = self.res(t)
        if t[0] == 'i': return 'B' if t[1] == 1 else ('BV', t[1])
        if t[0] == 'f': return 'R' if self.mode == 'real' else ('F', t[1])
        raise Extraction('sort ' + str(t))

    def fconst(self, v, w):
        if isinstance(v, tuple): raise Extraction('long double constant')
        if self.mode == 'real':
            if math.isnan(v):
                self.nan = True
                return var('NaN', 'R')
            if math.isinf(v): return var('Inf', 'R') if v > 0 else rneg(var('Inf', 'R'))
            return R(v)
        return F(v, w)

    def fresh_of(self, t, hint):
        t = self.res(t)
        if t[0] in ('i', 'f'): return fresh(hint, self.sort(t))
        if t[0] == 'ptr': return PIte(fresh(hint + '_nn', 'B'), self.opaque(hint), NULL)
        if t[0] == 'struct': return tuple(self.fresh_of(x, hint) for x in t[1])
        if t[0] in ('arr', 'vec'): return tuple(self.fresh_of(t[2], hint) for _ in range(t[1]))
        if t[0] == 'void': return None
        raise Extraction('fresh ' + str(t))

    def opaque(self, hint):
        self.nobj += 1
        return Ptr(('opaque', hint, self.nobj), 0)

    # ------------------------------------------------------------------ memory
    def new_obj(self, st, name, size, lazy=None):
        self.nobj += 1
        oid = '%s#%d' % (name, self.nobj)
        st.mem[oid] = Obj(name, size, lazy)
        st.own.add(oid)
        return Ptr(oid, 0)

    def glob_ptr(self, st, name):
        if name in self.m.funcs or name in self.m.decls:
            return Ptr('fn:' + name, 0)
        g = self.m.glob(name)
        if g[0] == 'alias':
            return self.cval(st, ('ptr',), g[1])
        oid = 'g:' + name
        if oid not in st.mem:
            o = Obj(name, self.size(g[0]) if g[1] is not None else None, None if g[1] is not None else 'G' + name)
            st.mem[oid] = o
            st.own.add(oid)
            if g[1] is not None: self.init_glob(st, o, 0, g[0], g[1])
        return Ptr(oid, 0)

    def init_glob(self, st, o, off, t, v):
        t = self.res(t)
        if v[0] == 'undef': return
        if v[0] == 'zero':
            self.zero_fill(o, off, self.size(t)); return
        if v[0] == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, BV(b, 8))
            return
        if v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                if t[0] == 'struct': d, _ = self.field(t, i)
                else: d = i * self.size(t[2])
                self.init_glob(st, o, off + d, et, ev)
            return
        o.cells[off] = (self.size(t), self.cval(st, t, v))

    def zero_fill(self, o, off, n):
        end = off + n
        while off < end:
            k = 8
            while off % k or off + k > end: k //= 2
            o.cells[off] = (k, BV(0, 8 * k))
            off += k

    def to_bits(self, v, size, depth=6):
        if isinstance(v, Term):
            if v.sort == 'B': return zext(v, 8 * size)
            if isinstance(v.sort, tuple) and v.sort[0] == 'BV': return v
            if v.op == 'fpof': return v.args[0]
            if is_c(v) and isinstance(v.sort, tuple):
                return BV(int.from_bytes(struct.pack('<d' if size == 8 else '<f', v.val), 'little'), 8 * size)
            if is_c(v) and v.val == 0: return BV(0, 8 * size)
            if v.op == 'ite' and depth:
                a, b = (self.to_bits(x, size, depth - 1) for x in v.args[1:])
                if a.op != 'bitsof' or b.op != 'bitsof': return Ite(v.args[0], a, b)
            return mk('bitsof', (v,), ('BV', 8 * size))
        if isinstance(v, Undef): return fresh('undefbits', ('BV', 8 * size))
        return None

    def from_bits(self, b, t):
        t = self.res(t)
        if t[0] == 'i':
            if t[1] == 1: return trunc(b, 1)
            return b if b.sort[1] == t[1] else trunc(b, t[1])
        if t[0] == 'f':
            if b.op == 'bitsof' and b.args[0].sort == self.sort(t): return b.args[0]
            if is_c(b):
                x = struct.unpack('<d' if t[1] == 64 else '<f', b.val.to_bytes(t[1] // 8, 'little'))[0]
                return self.fconst(x, t[1])
            if b.op == 'ite': return Ite(b.args[0], self.from_bits(b.args[1], t), self.from_bits(b.args[2], t))
            return mk('fpof', (b,), self.sort(t))
        if t[0] == 'ptr':
            if is_c(b) and b.val == 0: return NULL
            if is_c(b): return Ptr(0, b.val)
            if b.op == 'ite': return pite(b.args[0], self.from_bits(b.args[1], t), self.from_bits(b.args[2], t))
        raise Extraction('from_bits %s of %s' % (t, show(b, 3)))

    def conv(self, v, t, size):
        """value of a cell of exactly this size -> value of type t"""
        t = self.res(t)
        if isinstance(v, Undef): return v
        if t[0] == 'ptr':
            if isptr(v): return v
            return self.from_bits(v, t)
        if isptr(v):
            if t[0] == 'i':  # pointer bits: keep as pointer value (ptrtoint)
                return v
            raise Extraction('pointer read as ' + str(t))
        if v.sort == self.sort(t): return v
        return self.from_bits(self.to_bits(v, size), t)

    def check_range(self, st, p, n):
        if p.obj == 0: raise MemFault('null dereference')
        if isinstance(p.obj, tuple) or (isinstance(p.obj, str) and p.obj.startswith('fn:')):
            raise Extraction('access to opaque object %s' % (p,))
        o = st.mem.get(p.obj)
        if o is None: raise Extraction('unknown object %s' % (p,))
        if o.dead: raise MemFault('use of freed object ' + o.name)
        if p.off < 0 or (o.size is not None and p.off + n > o.size):
            raise MemFault('out of bounds access %s+%d size %s' % (o.name, p.off, o.size))
        return o

    def load(self, st, p, t):
        t = self.res(t)
        if t[0] == 'struct':
            return tuple(self.load(st, self.padd(p, self.field(t, i)[0]), x) for i, x in enumerate(t[1]))
        if t[0] in ('arr', 'vec'):
            s = self.size(t[2])
            return tuple(self.load(st, self.padd(p, i * s), t[2]) for i in range(t[1]))
        if isinstance(p, PIte):
            d = self.decide(st, p.c)
            if d is TRUE: return self.load(st, p.a, t)
            if d is FALSE: return self.load(st, p.b, t)
            a = self.try_load(st, p.a, t, p.c)
            b = self.try_load(st, p.b, t, Not(p.c))
            if a is None and b is None: raise MemFault('null dereference')
            if a is None:
                self.oblige(st, Not(p.c)); return b
            if b is None:
                self.oblige(st, p.c); return a
            return vite(p.c, a, b)
        if not isinstance(p, Ptr): raise Extraction('load through %r' % (p,))
        n = self.size(t)
        o = self.check_range(st, p, n)
        c = o.cells.get(p.off)
        if c and c[0] == n: return self.conv(c[1], t, n)
        ov = self.overlap(o, p.off, n)
        if not ov:
            if o.lazy:
                nm = '%s+%d' % (o.lazy, p.off)
                if t[0] == 'ptr':
                    v = PIte(var(nm + '_nn', 'B'), Ptr(('opaque', nm, 0), 0), NULL)
                elif t[0] == 'i' and t[1] == 1:
                    v = var(nm + 'b', 'B')
                else:
                    v = var(nm + ('f' if t[0] == 'f' else 'i') + str(n * 8), self.sort(t))
            else:
                if t[0] == 'ptr': v = UNDEF
                else: v = fresh('uninit_%s+%d' % (o.name, p.off), self.sort(t))
            st.w(p.obj).cells[p.off] = (n, v)
            return v
        # assemble bits
        o0, (s0, v0) = ov[0]
        if len(ov) == 1 and o0 <= p.off and o0 + s0 >= p.off + n:
            b = self.to_bits(v0, s0)
            if b is None: raise Extraction('partial pointer load')
            lo = 8 * (p.off - o0)
            return self.from_bits(extract(b, lo + 8 * n - 1, lo), t)
        cur, bits = p.off, None
        for oo, (ss, vv) in ov:
            if oo > cur:
                g = fresh('uninit', ('BV', 8 * (oo - cur)))
                if o.lazy: g = var('%s+%d_pad%d' % (o.lazy, cur, oo - cur), ('BV', 8 * (oo - cur)))
                bits = g if bits is None else concat(g, bits)
                cur = oo
            b = self.to_bits(vv, ss)
            if b is None: raise Extraction('partial pointer load')
            lo = 8 * max(0, p.off - oo)
            hi = 8 * min(ss, p.off + n - oo) - 1
            b = extract(b, hi, lo)
            bits = b if bits is None else concat(b, bits)
            cur = min(oo + ss, p.off + n)
        if cur < p.off + n:
            k = 8 * (p.off + n - cur)
            g = var('%s+%d_pad%d' % (o.lazy, cur, k), ('BV', k)) if o.lazy else fresh('uninit', ('BV', k))
            bits = concat(g, bits)
        return self.from_bits(bits, t)

    def oblige(self, st, c):
        """memory safety of an access through a conditional pointer, under the conditions that select it"""
        self.obligs.append(('memory safety', st.pc, Or(c, *[Not(g) for g in self.pguard])))

    def try_load(self, st, p, t, g):
        self.pguard.append(g)
        try:
            return self.load(st, p, t)
        except MemFault:
            return None
        finally:
            self.pguard.pop()

    def overlap(self, o, off, n):
        r = []
        if len(o.cells) < 4 * n + 32:
            for oo, c in o.cells.items():
                if oo < off + n and oo + c[0] > off: r.append((oo, c))
        else:
            for oo in range(off - 16, off + n):
                c = o.cells.get(oo)
                if c and oo + c[0] > off: r.append((oo, c))
        r.sort(key=lambda z: z[0])
        return r

    def clear_range(self, o, off, n):
        for oo, (s, v) in self.overlap(o, off, n):
            del o.cells[oo]
            if oo < off or oo + s > off + n:
                b = self.to_bits(v, s)
                if b is None: raise Extraction('partial pointer overwrite')
                if oo < off: self.put_bits(o, oo, extract(b, 8 * (off - oo) - 1, 0))
                if oo + s > off + n: self.put_bits(o, off + n, extract(b, 8 * s - 1, 8 * (off + n - oo)))

    def put_bits(self, o, off, b):
        n = b.sort[1] // 8
        k = 0
        while k < n:
            s = 8
            while s > n - k: s //= 2
            o.cells[off + k] = (s, extract(b, 8 * (k + s) - 1, 8 * k))
            k += s

    def store(self, st, p, t, v):
        t = self.res(t)
        if t[0] == 'struct':
            if isinstance(v, Undef): return
            for i, x in enumerate(t[1]): self.store(st, self.padd(p, self.field(t, i)[0]), x, v[i])
            return
        if t[0] in ('arr', 'vec'):
            if isinstance(v, Undef): return
            s = self.size(t[2])
            for i in range(t[1]): self.store(st, self.padd(p, i * s), t[2], v[i])
            return
        if isinstance(p, PIte):
            d = self.decide(st, p.c)
            if d is TRUE: return self.store(st, p.a, t, v)
            if d is FALSE: return self.store(st, p.b, t, v)
            for q, c in ((p.a, p.c), (p.b, Not(p.c))):
                old = self.try_load(st, q, t, c)
                if old is None:
                    self.oblige(st, Not(c)); continue
                self.pguard.append(c)
                try: self.store(st, q, t, vite(c, v, old))
                finally: self.pguard.pop()
            return
        n = self.size(t)
        self.check_range(st, p, n)
        o = st.w(p.obj)
        c = o.cells.get(p.off)
        if not (c and c[0] == n): self.clear_range(o, p.off, n)
        if t[0] == 'i' and t[1] == 1 and isinstance(v, Term): v = zext(v, 8)
        if t[0] == 'i' and isinstance(v, Term) and v.sort != 'B' and v.sort[1] != 8 * n: v = zext(v, 8 * n)
        if isinstance(v, Undef): o.cells.pop(p.off, None); return
        o.cells[p.off] = (n, v)

    def memcpy(self, st, d, s, n):
        if n == 0: return
        if isinstance(s, PIte) or isinstance(d, PIte):
            # word-wise conditional copy
            off = 0
            while off < n:
                k = 8
                while off + k > n: k //= 2
                t = ('i', 8 * k)
                self.store(st, self.padd(d, off), t, self.load(st, self.padd(s, off), t))
                off += k
            return
        so = self.check_range(st, s, n)
        self.check_range(st, d, n)
        got = []
        for oo, (ss, v) in self.overlap(so, s.off, n):
            if oo < s.off or oo + ss > s.off + n:
                lo, hi = max(oo, s.off), min(oo + ss, s.off + n)
                b = self.to_bits(v, ss)
                if b is None: raise Extraction('partial pointer copy')
                got.append((lo - s.off, hi - lo, extract(b, 8 * (hi - oo) - 1, 8 * (lo - oo))))
            else:
                got.append((oo - s.off, ss, v))
        if so.lazy and s.obj != d.obj:
            # uninitialised lazy regions: materialise lazily through a window marker
            have = set()
            for a, b, _ in got: have.update(range(a, a + b))
            a = 0
            while a < n:
                if a in have: a += 1; continue
                k = 8
                while (s.off + a) % k or a + k > n or any(z in have for z in range(a, a + k)): k //= 2
                v = self.load(st, Ptr(s.obj, s.off + a), ('i', 8 * k))
                got.append((a, k, v)); a += k
        o = st.w(d.obj)
        self.clear_range(o, d.off, n)
        for a, b, v in got:
            if b in (1, 2, 4, 8, 16): o.cells[d.off + a] = (b, v)
            else: self.put_bits(o, d.off + a, v)

    def memset(self, st, d, byte, n):
        if n == 0: return
        if isinstance(d, PIte): raise Extraction('memset through conditional pointer')
        self.check_range(st, d, n)
        o = st.w(d.obj)
        self.clear_range(o, d.off, n)
        if byte == 0: self.zero_fill(o, d.off, n)
        else:
            for i in range(n): o.cells[d.off + i] = (1, BV(byte, 8))

    def padd(self, p, k):
        if isinstance(p, Ptr): return Ptr(p.obj, p.off + k)
        if isinstance(p, PIte): return PIte(p.c, self.padd(p.a, k), self.padd(p.b, k))
        raise Extraction('pointer arithmetic on %r' % (p,))

    def padd_t(self, p, idx, scale):
        """pointer + signed 64-bit symbolic index * scale"""
        if is_c(idx): return self.padd(p, signed(idx.val, idx.sort[1]) * scale)
        if idx.op == 'ite':
            return pite(idx.args[0], self.padd_t(p, idx.args[1], scale), self.padd_t(p, idx.args[2], scale))
        c = self.first_cond(idx)
        if c is not None and not self.no_split:
            a, b = subst(idx, {c.id: TRUE}), subst(idx, {c.id: FALSE})
            self.idx_depth = getattr(self, 'idx_depth', 0) + 1
            try:
                if self.idx_depth <= 8: return pite(c, self.padd_t(p, a, scale), self.padd_t(p, b, scale))
            finally: self.idx_depth -= 1
        raise Extraction('symbolic index %s' % show(idx, 4))

    no_split = False

    @staticmethod
    def first_cond(t):
        """condition of an ite inside a bit-vector term (not descending into conditions)"""
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == 'ite': return x.args[0]
            st.extend(a for a in x.args if isinstance(a.sort, tuple) and a.sort[0] == 'BV')
        return None

    # ------------------------------------------------------------------ operands
    def cval(self, st, t, v):
        k = v[0]
        if k == 'reg':
            try:
                return st.regs[v[1]]
            except KeyError:
                raise Extraction('register %s undefined' % v[1])
        t = self.res(t)
        if k == 'c':
            if t[0] == 'i': return B(v[1] & 1) if t[1] == 1 else BV(v[1], t[1])
            if t[0] == 'f': return self.fconst(float(v[1]), t[1])
        if k == 'fc': return self.fconst(v[1], t[1])
        if k == 'null': return NULL
        if k == 'glob': return self.glob_ptr(st, v[1])
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero_of(t)
        if k == 'agg': return tuple(self.cval(st, et, ev) for et, ev in v[1])
        if k == 'gep':
            return self.gep(st, v[1], self.cval(st, ('ptr',), v[2]), v[3])
        if k == 'cast':
            x = self.cval(st, v[3], v[2])
            return self.cast(st, v[1], x, v[3], v[4])
        if k == 'cbin':
            a, b = self.cval(st, v[3], v[4]), self.cval(st, v[3], v[5])
            if v[1] == 'icmp': return self.icmp(v[2], a, b)
            return self.binop(st, v[1], a, b, v[3])
        raise Extraction('constant %r of %r' % (v, t))

    def zero_of(self, t):
        t = self.res(t)
        if t[0] == 'i': return FALSE if t[1] == 1 else BV(0, t[1])
        if t[0] == 'f': return self.fconst(0.0, t[1])
        if t[0] == 'ptr': return NULL
        if t[0] == 'struct': return tuple(self.zero_of(x) for x in t[1])
        return tuple(self.zero_of(t[2]) for _ in range(t[1]))

    def gep(self, st, t, p, idx):
        if isinstance(p, Undef): return UNDEF
        first = True
        for it, iv in idx:
            i = self.cval(st, it, iv)
            if isinstance(i, Undef): return UNDEF
            if first:
                p = self.padd_t(p, i, self.size(t)); first = False
                continue
            t = self.res(t)
            if t[0] == 'struct':
                off, t = self.field(t, i.val)
                p = self.padd(p, off)
            else:
                t = t[2]
                p = self.padd_t(p, i, self.size(t))
        return p

    def defd(self, v, t):
        if isinstance(v, Undef): return self.fresh_of(t, 'undef')
        return v

    # ------------------------------------------------------------------ integers seen as reals, single precision rounding
    def rounded(self, st, r, t):
        if not self.rnd or t != ('f', 32) or is_c(r): return r
        d = fresh('rnd', 'R')
        st.assume(rle(rabs(d), R(Fraction(1, 2 ** 24))))
        return r * (1 + d)

    def integral(self, t):
        if is_c(t): return Fraction(t.val).denominator == 1
        if t.op == 'var': return t.val in self.ints
        if t.op == 'app': return t.val in ('round', 'trunc', 'floor', 'ceil', 'rint', 'nearbyint')
        if t.op == 'ite': return all(self.integral(x) for x in t.args[1:])
        return t.op in ('+', '*', 'rneg') and all(self.integral(x) for x in t.args)

    def nearest(self, st, f, x, under=()):
        """value of a rounding function at x = s * (product of rounding errors), s an integer valued part of x"""
        from . import ratfun, smt
        if is_c(x) or self.integral(x): return app(f, x) if is_c(x) else x
        A = list(self.pre) + list(st.pc) + list(under)

        def known(c):
            for g in (c, Not(c)):
                if g is TRUE or smt.smt_prove(A, g, solvers=[('z3', 2)]).status == 'proved': return g is c
        for _ in range(6):
            c = next((t.args[0] for t in subterms([x]) if t.op == 'ite'), None)
            if c is None: break
            v = known(c)
            if v is None:
                if len(under) > 3: return app(f, x)
                r = [self.nearest(st, f, ratfun.simp_under(x, c, v), under + (c if v else Not(c),)) for v in (True, False)]
                if r[0] is not r[1] and all(map(self.integral, r)):
                    # the same integer on both sides?
                    one = [Or(rle(a, b), rle(b + 1, a)) for a, b in (r, r[::-1])]
                    for v in (True, False):
                        if smt.smt_prove(A + [c if v else Not(c)] + one, req(*r), solvers=[('z3', 5)]).status == 'proved': return r[1] if v else r[0]
                return Ite(c, *r)
            x = ratfun.simp_under(x, c, v)
        ds = [t for t in subterms([x]) if t.op == 'var' and t.val.startswith('rnd')]
        prod = R(1)
        for d in ds: prod = prod * (1 + d)
        e = (1 + Fraction(1, 2 ** 24)) ** len(ds) - 1
        for s in sorted((t for t in subterms([x]) if t.sort == 'R' and not is_c(t) and self.integral(t)), key=lambda t: -len(list(subterms([t])))):
            try:
                if ratfun.equal(x, s * prod) is None: continue
            except (ratfun.TooBig, ratfun.Unsup): continue
            nz = [t.args[1] for t in subterms([x]) if t.op == '/']
            g = And(*[Not(req(t, 0)) for t in nz]) if nz else TRUE
            if ds: g = And(g, rlt(rabs(s) * R(e), R(Fraction(1, 2))))
            if ds and f != 'round': continue
            if smt.smt_prove(A, g, solvers=[('z3', 5)]).status == 'proved': return s
        return app(f, x)

    def intview(self, t):
        """signed machine integer computed from real inputs, as a mathematical integer (no signed overflow)"""
        if is_c(t): return R(signed(t.val, t.sort[1]))
        if t.op == 'fptosi':
            r = t.args[0]
            return r if self.integral(r) else app('trunc', r)   # (kept symbolic: see nearest)
        if t.op == 'sext' or (t.op == 'extract' and t.val[1] == 0): return self.intview(t.args[0])
        if t.op in ('bvadd', 'bvsub', 'bvmul'):
            a, b = self.intview(t.args[0]), self.intview(t.args[1])
            if a is None or b is None: return None
            return {'bvadd': radd, 'bvsub': rsub, 'bvmul': rmul}[t.op](a, b)
        if t.op == 'ite':
            a, b = self.intview(t.args[1]), self.intview(t.args[2])
            return None if a is None or b is None else Ite(t.args[0], a, b)
        return None

    # ------------------------------------------------------------------ operations
    def binop(self, st, op, a, b, t):
        t = self.res(t)
        if t[0] == 'vec':
            return tuple(self.binop(st, op, x, y, t[2]) for x, y in zip(a, b))
        a, b = self.defd(a, t), self.defd(b, t)
        if op[0] == 'f':
            if self.mode == 'real':
                if op == 'fadd': return self.rounded(st, radd(a, b), t)
                if op == 'fsub': return self.rounded(st, rsub(a, b), t)
                if op == 'fmul': return self.rounded(st, rmul(a, b), t)
                if op == 'fdiv': return self.rounded(st, rdiv(a, b), t)
                return app('fmod', a, b)
            if op == 'frem': return mk('app', (a, b), a.sort, 'fmod%d' % t[1])
            return fop({'fadd': 'fp.add', 'fsub': 'fp.sub', 'fmul': 'fp.mul', 'fdiv': 'fp.div'}[op], a, b)
        if isptr(a) or isptr(b):
            return self.ptrint(op, a, b)
        if t[1] == 1:
            if op in ('and', 'mul'): return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'): return Xor(a, b)
            raise Extraction('i1 ' + op)
        m = {'add': 'bvadd', 'sub': 'bvsub', 'mul': 'bvmul', 'udiv': 'bvudiv', 'sdiv': 'bvsdiv', 'urem': 'bvurem',
             'srem': 'bvsrem', 'shl': 'bvshl', 'lshr': 'bvlshr', 'ashr': 'bvashr', 'and': 'bvand', 'or': 'bvor',
             'xor': 'bvxor'}
        return bvop(m[op], a, b)

    def ptrint(self, op, a, b):
        if op == 'sub' and isptr(a) and isptr(b):
            return self.pfold2(a, b, lambda x, y: BV(x.off - y.off, 64) if x.obj == y.obj else self._addr(x, y))
        if op in ('add', 'sub') and isptr(a) and isinstance(b, Term) and is_c(b):
            k = signed(b.val, b.sort[1])
            return self.padd(a, k if op == 'add' else -k)
        if op == 'add' and isptr(b) and isinstance(a, Term) and is_c(a): return self.padd(b, signed(a.val, a.sort[1]))
        if op == 'and' and isptr(a) and isinstance(b, Term) and is_c(b):
            m = signed(b.val, b.sort[1])
            if m in (-16, -32, -64, -8):  # alignment mask; objects are maximally aligned
                return self.pfold(a, lambda x: Ptr(x.obj, x.off & m))
            if 0 <= m < 64:
                f = lambda x: BV(x.off & m, 64)
                return self.pfold(a, f)
        if op == 'lshr' or op == 'xor' or op == 'or':
            if op == 'or' and isinstance(b, Term) and is_c(b): return self.pfold(a, lambda x: Ptr(x.obj, x.off | b.val))
        raise Extraction('integer %s on pointer' % op)

    def _addr(self, x, y):
        if x.obj == 0 and y.obj == 0: return BV(x.off - y.off, 64)
        return fresh('addrdiff', ('BV', 64))

    def pfold(self, p, f):
        if isinstance(p, PIte): return vite(p.c, self.pfold(p.a, f), self.pfold(p.b, f))
        return f(p)

    def pfold2(self, a, b, f):
        if isinstance(a, PIte): return vite(a.c, self.pfold2(a.a, b, f), self.pfold2(a.b, b, f))
        if isinstance(b, PIte): return vite(b.c, self.pfold2(a, b.a, f), self.pfold2(a, b.b, f))
        return f(a, b)

    def icmp(self, pr, a, b):
        if isptr(a) or isptr(b):
            if isinstance(a, Term) and is_c(a): a = Ptr(0, a.val)
            if isinstance(b, Term) and is_c(b): b = Ptr(0, b.val)
            if isinstance(a, Undef) or isinstance(b, Undef): return fresh('undefcmp', 'B')
            if not (isptr(a) and isptr(b)): raise Extraction('icmp pointer with integer')
            def f(x, y):
                if pr == 'eq': return B(x == y)
                if pr == 'ne': return B(x != y)
                if x.obj == y.obj:
                    return B({'l': x.off < y.off, 'g': x.off > y.off}[pr[1]] or (pr[2] == 'e' and x.off == y.off))
                if x.obj == 0: return B(pr[1] == 'l')
                if y.obj == 0: return B(pr[1] == 'g')
                return fresh('ptrcmp', 'B')
            return self.pfold2(a, b, f)
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh('undefcmp', 'B')
        if a.sort == 'B':
            if pr == 'eq': return Eq(a, b)
            if pr == 'ne': return Xor(a, b)
            if pr == 'ult': return And(Not(a), b)
            if pr == 'ugt': return And(a, Not(b))
            if pr == 'ule': return Or(Not(a), b)
            if pr == 'uge': return Or(a, Not(b))
            raise Extraction('icmp i1 ' + pr)
        if self.ints and not (is_c(a) and is_c(b)) and pr[0] != 'u':
            x, y = self.intview(a), self.intview(b)
            if x is not None and y is not None:
                if pr == 'eq': return req(x, y)
                if pr == 'ne': return Not(req(x, y))
                return {'lt': rlt, 'le': rle, 'gt': rgt, 'ge': rge}[pr[1:]](x, y)
        if pr == 'eq': return Eq(a, b)
        if pr == 'ne': return Not(Eq(a, b))
        return bvcmp('bv' + pr, a, b)

    def fcmp(self, pr, a, b):
        if self.mode == 'real':
            if pr == 'false': return FALSE
            if pr == 'true': return TRUE
            un = Or(nan_leaf(a), nan_leaf(b)) if self.nan else FALSE
            if pr == 'uno': return un
            if pr == 'ord': return Not(un)
            c = pr[1:]
            inf = [t.op == 'var' and t.val == 'Inf' for t in (a, b)]
            if (inf[0] and is_c(b)) or (inf[1] and is_c(a)):      # no constant reaches infinity
                return TRUE if c in (('gt', 'ge', 'ne') if inf[0] else ('lt', 'le', 'ne')) else FALSE
            if c == 'eq': r = req(a, b)
            elif c == 'ne': r = Not(req(a, b))
            else: r = {'lt': rlt, 'le': rle, 'gt': rgt, 'ge': rge}[c](a, b)
            if un is FALSE: return r
            return And(Not(un), r) if pr[0] == 'o' else Or(un, r)
        if pr == 'false': return FALSE
        if pr == 'true': return TRUE
        un = Or(isnan(a), isnan(b))
        if pr == 'uno': return un
        if pr == 'ord': return Not(un)
        c = pr[1:]
        if pr[0] == 'u':  # unordered variants = not (opposite ordered)
            opp = {'eq': 'one', 'ne': 'oeq', 'lt': 'oge', 'le': 'ogt', 'gt': 'ole', 'ge': 'olt'}[c]
            return Not(self.fcmp(opp, a, b))
        if c == 'eq':
            if is_c(b) and math.isinf(b.val) and a.op == 'fp.abs': return isinf(a)
            if is_c(a) and math.isinf(a.val) and b.op == 'fp.abs': return isinf(b)
            return fcmp('fp.eq', a, b)
        if c == 'ne': return Or(fcmp('fp.lt', a, b), fcmp('fp.lt', b, a))
        if c == 'lt': return fcmp('fp.lt', a, b)
        if c == 'gt': return fcmp('fp.lt', b, a)
        if c == 'le': return fcmp('fp.leq', a, b)
        return fcmp('fp.leq', b, a)

    def cast(self, st, op, v, t1, t2):
        t1, t2 = self.res(t1), self.res(t2)
        if isinstance(v, Undef): return UNDEF
        if t1[0] == 'vec' and op not in ('bitcast',):
            return tuple(self.cast(st, op, x, t1[2], t2[2]) for x in v)
        if op == 'trunc':
            if isptr(v): raise Extraction('trunc of pointer')
            return trunc(v, t2[1])
        if op == 'zext': return zext(v, t2[1])
        if op == 'sext': return sext(v, t2[1])
        if op == 'fpext' or op == 'fptrunc':
            if self.mode == 'real': return self.rounded(st, v, t2) if op == 'fptrunc' else v
            return fpconv(v, t2[1])
        if op in ('sitofp', 'uitofp'):
            if v.sort == 'B': v = zext(v, 32) if op == 'uitofp' else sext(v, 32)
            if is_c(v):
                x = signed(v.val, v.sort[1]) if op == 'sitofp' else v.val
                return R(x) if self.mode == 'real' else F(float(x), t2[1])
            if self.ints and op == 'sitofp' and self.mode == 'real':
                x = self.intview(v)
                if x is not None: return x
            if v.op == 'ite': return Ite(v.args[0], self.cast(st, op, v.args[1], t1, t2), self.cast(st, op, v.args[2], t1, t2))
            return mk(op, (v,), self.sort(t2))
        if op in ('fptosi', 'fptoui'):
            if is_c(v):
                return BV(int(v.val), t2[1])
            return mk(op, (v,), self.sort(t2))
        if op == 'ptrtoint' or op == 'inttoptr':
            if op == 'inttoptr' and isinstance(v, Term):
                return self.from_bits(v, t2)
            return v
        if op == 'bitcast':
            if t1[0] == 'f' and t2[0] == 'i': return self.to_bits(v, t1[1] // 8)
            if t1[0] == 'i' and t2[0] == 'f': return self.from_bits(v, t2)
            if t1 == t2: return v
        raise Extraction('cast %s %s->%s' % (op, t1, t2))

    # ------------------------------------------------------------------ control
    def decide(self, st, c):
        if c is TRUE or c is FALSE: return c
        ids = {x.id for x in st.pc}
        if c.id in ids: return TRUE
        n = Not(c)
        if n.id in ids: return FALSE
        if c.op == 'and':
            if any(Not(x).id in ids for x in c.args): return FALSE
            if all(x.id in ids for x in c.args): return TRUE
        if c.op == 'or':
            if any(x.id in ids for x in c.args): return TRUE
            if all(Not(x).id in ids for x in c.args): return FALSE
        num = lambda x: x.sort == 'R' or isinstance(x.sort, tuple) and x.sort[0] == 'BV'
        if c.op not in ('and', 'or') and c.args and num(c.args[0]):      # choices already made on this path
            m, todo, seen = {}, list(c.args), set()
            while todo:
                x = todo.pop()
                if x.id in seen or len(seen) > 60: continue
                seen.add(x.id)
                if x.op == 'ite':
                    k = x.args[0]
                    if k.id in ids: m[k.id] = TRUE
                    elif Not(k).id in ids: m[k.id] = FALSE
                todo.extend(a for a in x.args if num(a))
            if m:
                r = subst(c, m)
                if r is TRUE or r is FALSE: return r
        return c

    def live(self, f):
        if f.name in self.livein: return self.livein[f.name]
        use, dfn, phiuse = {}, {}, {}
        for b in f.order:
            u, d = set(), set()
            for ins in f.blocks[b]:
                if ins.op == 'phi':
                    d.add(ins.dst)
                    for v, pb in ins.x:
                        if v[0] == 'reg': phiuse.setdefault((pb, b), set()).add(v[1])
                    continue
                for r in operands(ins):
                    if r not in d: u.add(r)
                if ins.dst: d.add(ins.dst)
            use[b], dfn[b] = u, d
        phis = {b: {i.dst for i in f.blocks[b] if i.op == 'phi'} for b in f.order}
        live = {b: set(use[b]) for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                out = set()
                for s in ir.succs(f.blocks[b][-1]):
                    out |= (live[s] - phis[s]) | phiuse.get((b, s), set())
                n = use[b] | (out - dfn[b])
                if not n <= live[b]:
                    live[b] |= n; ch = True
        r = {b: live[b] | phis[b] for b in f.order}
        self.livein[f.name] = r
        return r

    def call_function(self, st, name, args):
        """execute a defined function; returns list of Outcome"""
        f = self.m.func(name)
        self.funcs_seen.add(name)
        self.depth += 1
        if self.depth > 60: raise Extraction('recursion too deep in ' + name)
        saved = st.regs
        st.regs = {}
        for (t, nm), a in zip(f.params, args): st.regs[nm] = a
        outs = self.run_region(f, {f.order[0]: [st]}, None, None)
        res = []
        for o in outs:
            if o.kind == 'exit': raise Extraction('exit outcome escaped')
            o.st.regs = dict(saved)
            res.append(o)
        self.depth -= 1
        return res

    def info(self, f):
        if f.name not in self.loopinfo:
            L = ir.loops(f)
            cuts = {h for h, body in L.items() if self.cut(f, h, body)}
            self.loopinfo[f.name] = (L, cuts)
        return self.loopinfo[f.name]

    def run_region(self, f, pending, region, stop):
        """process pending states (block -> states) restricted to `region` (set of blocks or None).
        Arrivals at `stop` or outside the region become Outcome('exit', st, block)."""
        outs = []
        L, cuts = self.info(f)
        counts = {}
        while pending:
            b = self.pick(f, pending, L)
            sts = pending.pop(b)
            counts[b] = counts.get(b, 0) + 1
            if counts[b] > self.max_unroll:
                raise Extraction('loop at %s of %s not bounded' % (b, f.name))
            if self.merge and len(sts) > 1: sts = self.merge_states(sts)
            if b in cuts and b != stop:
                sts2 = []
                for s in sts:
                    exits, fin = self.do_cut(f, b, L[b], s)
                    outs.extend(fin)
                    for s2, blk in exits:
                        self.deliver(f, blk, s2, pending, region, stop, outs)
                continue
            for s in sts:
                for kind, s2, x in self.run_block(f, b, s):
                    if kind == 'jump':
                        self.arrive(f, b, x, s2)
                        self.deliver(f, x, s2, pending, region, stop, outs)
                    else:
                        outs.append(Outcome(kind, s2, x))
        return outs

    def pick(self, f, pending, L):
        """next block: iterations of a loop are completed before the next one starts and before its exits go on"""
        if len(pending) == 1: return next(iter(pending))
        order = sorted(pending, key=lambda x: f.rpo[x])
        for b in order:
            for h, body in L.items():
                if h == b:
                    if any(c in body for c in order if c != b): break
                elif b not in body and f.rpo[b] > f.rpo[h] and any(c in body for c in order): break
            else: return b
        return order[0]

    def deliver(self, f, blk, st, pending, region, stop, outs):
        if blk == stop or (region is not None and blk not in region):
            outs.append(Outcome('exit', st, blk))
        else:
            pending.setdefault(blk, []).append(st)

    def arrive(self, f, prev, blk, st):
        vals = []
        for ins in f.blocks[blk]:
            if ins.op != 'phi': break
            for v, pb in ins.x:
                if pb == prev:
                    vals.append((ins.dst, self.cval(st, ins.ty, v)))
                    break
            else:
                raise Extraction('phi without edge')
        lv = self.live(f)[blk]
        r = {k: v for k, v in st.regs.items() if k in lv}
        for d, v in vals: r[d] = v
        st.regs = r

    # ---------------------------------------------------------------- merging
    def merge_states(self, sts):
        groups = []
        for s in sts:
            for i, g in enumerate(groups):
                try:
                    groups[i] = self.merge2(g, s)
                    break
                except MergeFail:
                    continue
            else:
                groups.append(s)
        return groups

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]: n += 1
        # drop shared later conjuncts
        bi = {x.id for x in b.pc[n:]}
        common = [x for x in a.pc[n:] if x.id in bi]
        ci = {x.id for x in common}
        ca = And(*[x for x in a.pc[n:] if x.id not in ci])
        cb = And(*[x for x in b.pc[n:] if x.id not in ci])
        # choose a discriminating condition: a conjunct of one negated in the other, if any
        c = ca
        bset = {x.id for x in b.pc[n:]}
        for x in a.pc[n:]:
            if Not(x).id in bset: c = x; break
        s = State()
        s.pc = a.pc[:n] + tuple(common)
        s.assume(Or(ca, cb))
        s.exc = a.exc
        if a.exc is not b.exc and a.exc != b.exc: raise MergeFail('exc')
        for k, v in a.regs.items():
            if k in b.regs:
                w = b.regs[k]
                s.regs[k] = v if same(v, w) else vite(c, v, w)
        for k, v in a.g.items():
            if k in b.g:
                w = b.g[k]
                if isinstance(v, Term) and isinstance(w, Term):
                    s.g[k] = v if v is w else vite(c, v, w)
                elif v == w: s.g[k] = v
                else: raise MergeFail('ghost ' + k)
            else: raise MergeFail('ghost ' + k)
        for k in set(a.mem) | set(b.mem):
            oa, ob = a.mem.get(k), b.mem.get(k)
            if oa is ob or ob is None:
                s.mem[k] = oa; continue
            if oa is None:
                s.mem[k] = ob; continue
            if oa.dead != ob.dead:
                if oa.dead: s.mem[k] = oa
                else: s.mem[k] = ob
                continue
            o = Obj(oa.name, oa.size, oa.lazy)
            o.dead = oa.dead
            ca_, cb_ = oa.cells, ob.cells
            for off in set(ca_) | set(cb_):
                x, y = ca_.get(off), cb_.get(off)
                if x is not None and y is not None:
                    if x[0] != y[0]:
                        raise MergeFail('cell size at %s+%d' % (oa.name, off))
                    if same(x[1], y[1]): o.cells[off] = x
                    else: o.cells[off] = (x[0], self.cite(c, x[1], y[1], x[0]))
                else:
                    one, src, oo = (x, b, ob) if y is None else (y, a, oa)
                    if oo.lazy and isinstance(one[1], Term) and isinstance(one[1].sort, (tuple, str)):
                        # the other state never touched it: its value is the (same) lazy variable
                        nm = '%s+%d' % (oo.lazy, off)
                        if self.overlap(oo, off, one[0]): raise MergeFail('lazy overlap')
                        z = self.lazy_like(nm, one)
                        o.cells[off] = (one[0], vite(c, one[1], z) if y is None else vite(c, z, one[1]))
                    elif oo.lazy: raise MergeFail('lazy pointer cell')
                    else:
                        if self.overlap(oo, off, one[0]): raise MergeFail('overlap')
                        o.cells[off] = one  # uninitialised on the other path
            s.mem[k] = o
        return s

    def cite(self, c, x, y, size):
        if isinstance(x, Term) and isinstance(y, Term) and x.sort != y.sort:
            x, y = self.to_bits(x, size), self.to_bits(y, size)
        return vite(c, x, y)

    def lazy_like(self, nm, cell):
        n, v = cell
        s = v.sort
        if s == 'B': return var(nm + 'b', 'B')
        if s == 'R' or s[0] == 'F': return var(nm + 'f%d' % (8 * n), s)
        return var(nm + 'i%d' % (8 * n), s)

    # ---------------------------------------------------------------- cut loops
    def do_cut(self, f, h, body, s0):
        key = (f.name, h, self.cutctx(s0))
        phis = [i for i in f.blocks[h] if i.op == 'phi']
        havoc = {}   # loc -> fresh term;  loc = ('r',name) | ('m',obj,off) | ('g',name)
        L = Loop(key)
        s0 = s0.fork()
        cnt = 'cnt!%s!%s' % (f.name, h)
        s0.g[cnt] = BV(0, 32)       # ghost: completed iterations
        for i in phis:
            v = s0.regs[i.dst]
            if isinstance(v, Undef): v = s0.regs[i.dst] = self.fresh_of(i.ty, 'undef')
            self.havoc_loc(s0, ('r', i.dst), v, havoc)
        nobl = len(self.obligs)
        ninner = dict(self.cutloops)
        pre_template = None
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40: raise Extraction('havoc fixpoint does not converge')
            del self.obligs[nobl:]
            self.cutloops = dict(ninner)
            t = s0.fork()
            for loc, v in havoc.items(): self.put_loc(t, loc, v)
            L.cands = self.cand_gen(self, L, havoc, s0, t, body, f) if self.cand_gen else []
            L.hyp = var('hyp!%s!%s!%s' % key, 'B')      # stands for the invariant at the loop head
            L.terms = [fn(t) for nm, fn in L.cands]
            t.assume(L.hyp)
            tt = t.fork()
            # run the header block itself then the region
            outs = []
            pend = {}
            for kind, s2, x in self.run_block(f, h, t):
                if kind == 'jump':
                    self.arrive(f, h, x, s2)
                    self.deliver(f, x, s2, pend, body, h, outs)
                else: outs.append(Outcome(kind, s2, x))
            outs += self.run_region(f, pend, body, h)
            backs = [o for o in outs if o.kind == 'exit' and o.val == h]
            new = False
            for o in backs: o.st.g[cnt] = bvop('bvadd', o.st.g[cnt], BV(1, 32))
            for o in backs:
                for loc, old, cur in self.changed(tt, o.st, havoc):
                    if loc not in havoc:
                        self.havoc_loc(s0, loc, old if old is not None else cur, havoc)
                        new = True
            if not new: break
        L.init.append((s0.pc, s0))
        for o in backs: L.pres.append((o.st.pc, o.st))
        L.havoc = havoc
        L.template = tt
        self.cutloops[key] = L
        exits = [(o.st, o.val) for o in outs if o.kind == 'exit' and o.val != h]
        fin = [o for o in outs if o.kind != 'exit']
        return exits, fin

    def cutctx(self, st): return self.depth

    def havoc_loc(self, s0, loc, like, havoc):
        nm = 'h_' + '_'.join(str(x) for x in loc[1:])
        havoc[loc] = self.havoc_val(nm, like)

    def havoc_val(self, nm, like):
        if isinstance(like, Term): return fresh(nm, like.sort)
        if isinstance(like, tuple): return tuple(self.havoc_val(nm, x) for x in like)
        raise Extraction('loop-carried pointer %s' % nm)

    def put_loc(self, t, loc, v):
        if loc[0] == 'r': t.regs[loc[1]] = v
        elif loc[0] == 'g': t.g[loc[1]] = v
        else:
            o = t.w(loc[1])
            n = self.loc_size(v, loc)
            if loc[2] not in o.cells or o.cells[loc[2]][0] != n: self.clear_range(o, loc[2], n)
            o.cells[loc[2]] = (n, v)

    def loc_size(self, v, loc):
        s = v.sort
        if s == 'B': return 1
        if s == 'R': return self.rsize.get(loc, 8) if hasattr(self, 'rsize') else 8
        return s[1] // 8

    def changed(self, t, s, havoc):
        """locations whose value in s differs from the template t"""
        out = []
        for k, o in s.mem.items():
            ot = t.mem.get(k)
            if ot is None:
                continue  # allocated inside the loop: not visible to the next iteration
            if ot is o: continue
            for off, (n, v) in o.cells.items():
                c = ot.cells.get(off)
                if c is None:
                    if ot.lazy and isinstance(v, Term) and v is self.lazy_like('%s+%d' % (ot.lazy, off), (n, v)): continue
                    if ot.lazy and isptr(v): continue
                    if self.overlap(ot, off, n): raise Extraction('loop changes cell layout of %s+%d' % (o.name, off))
                    if not isinstance(v, Term): continue
                    if ot.lazy: out.append((('m', k, off), None, v))
                    continue  # uninitialised before the loop: stays uninitialised (arbitrary)
                if c[0] != n: raise Extraction('loop changes cell layout of %s+%d' % (o.name, off))
                if not same(c[1], v):
                    if isptr(c[1]) or isptr(v): raise Extraction('loop-carried pointer in %s+%d' % (o.name, off))
                    out.append((('m', k, off), c[1], v))
            for off in ot.cells:
                if off not in o.cells:
                    out.append((('m', k, off), ot.cells[off][1], None))
        for k, v in s.g.items():
            if k in t.g and isinstance(v, Term) and v is not t.g[k]: out.append((('g', k), t.g[k], v))
        return out

    # ---------------------------------------------------------------- block execution
    def run_block(self, f, b, st):
        """-> list of (kind, state, x); kind in jump/ret/throw/unreachable/fault"""
        work = [(st, 0)]
        res = []
        blk = f.blocks[b]
        while work:
            s, i = work.pop()
            try:
                self.run_instrs(f, blk, i, s, work, res)
            except MemFault as e:
                if TRACE: print('FAULT', e, f.name, b); HOOK and HOOK(e, f, b, s)
                res.append(('fault', s, str(e) + ' in ' + f.name))
        return res

    def run_instrs(self, f, blk, i, s, work, res):
        while True:
            ins = blk[i]
            op = ins.op
            self.steps += 1
            if self.steps > self.max_steps: raise Extraction('step limit')
            if op == 'phi':
                i += 1; continue
            if op in ('call', 'invoke'):
                outs = self.do_call(f, ins, s)
                if outs is None:
                    if op == 'invoke':
                        res.append(('jump', s, ins.x[0])); return
                    i += 1; continue
                for o in outs:
                    if o.kind == 'ret':
                        if ins.dst: o.st.regs[ins.dst] = o.val
                        if op == 'invoke': res.append(('jump', o.st, ins.x[0]))
                        else: work.append((o.st, i + 1))
                    elif o.kind == 'throw':
                        if op == 'invoke':
                            o.st.exc = o.val
                            res.append(('jump', o.st, ins.x[1]))
                        else: res.append(('throw', o.st, o.val))
                    else: res.append((o.kind, o.st, o.val))
                return
            if op == 'jmp':
                res.append(('jump', s, ins.x)); return
            if op == 'br':
                c = self.defd(self.cval(s, ('i', 1), ins.a[0]), ('i', 1))
                c = self.decide(s, c)
                if ins.x[0] == ins.x[1]: c = TRUE
                if c is TRUE: res.append(('jump', s, ins.x[0])); return
                if c is FALSE: res.append(('jump', s, ins.x[1])); return
                s2 = s.fork()
                s.assume(c); s2.assume(Not(c))
                res.append(('jump', s, ins.x[0])); res.append(('jump', s2, ins.x[1]))
                return
            if op == 'switch':
                v = self.defd(self.cval(s, ins.ty, ins.a[0]), ins.ty)
                rest = []
                for cv, lab in ins.x[1]:
                    c = self.decide(s, Eq(v, self.cval(s, ins.ty, cv)))
                    if c is FALSE: continue
                    if c is TRUE:
                        res.append(('jump', s, lab)); return
                    s2 = s.fork()
                    s2.assume(c)
                    s.assume(Not(c))
                    res.append(('jump', s2, lab))
                res.append(('jump', s, ins.x[0])); return
            if op == 'ret':
                res.append(('ret', s, self.cval(s, ins.ty, ins.a[0]) if ins.a else None)); return
            if op == 'unreachable':
                res.append(('unreachable', s, None)); return
            if op == 'resume':
                res.append(('throw', s, s.exc)); return
            if op == 'landingpad':
                s.regs[ins.dst] = self.landing(s, ins)
                i += 1; continue
            if op == 'store':
                self.store(s, self.cval(s, ('ptr',), ins.a[1]), ins.ty, self.cval(s, ins.ty, ins.a[0]))
                i += 1; continue
            s.regs[ins.dst] = self.compute(s, ins)
            i += 1

    def landing(self, s, ins):
        toks = ins.x
        ti = s.exc[0] if s.exc else None
        sel = BV(0, 32)
        for k, w in enumerate(toks):
            if w == 'catch':
                nm = toks[k + 2]
                if nm == 'null' or self.catches(nm, ti):
                    sel = BV(self.typeid(nm), 32); break
        return (s.exc[1] if s.exc else NULL, sel)

    def catches(self, catch, thrown):
        if catch == thrown: return True
        return thrown in {'@_ZTISt9bad_alloc': ('@_ZTISt20bad_array_new_length',),
                          '@_ZTISt9exception': ('@_ZTISt9bad_alloc', '@_ZTISt16invalid_argument', '@_ZTISt11logic_error',
                                                '@_ZTISt12length_error', '@_ZTISt19bad_optional_access',
                                                '@_ZTISt13runtime_error'),
                          '@_ZTISt11logic_error': ('@_ZTISt16invalid_argument', '@_ZTISt12length_error')}.get(catch, ())

    def typeid(self, nm):
        self._tids = getattr(self, '_tids', {})
        return self._tids.setdefault(nm, len(self._tids) + 1)

    def compute(self, s, ins):
        op = ins.op
        if op in ir.BIN:
            return self.binop(s, op, self.cval(s, ins.ty, ins.a[0]), self.cval(s, ins.ty, ins.a[1]), ins.ty)
        if op == 'load': return self.load(s, self.cval(s, ('ptr',), ins.a[0]), ins.ty)
        if op == 'gep':
            if ins.x and ins.x[0][0][0] == 'vec': raise Extraction('vector gep')
            return self.gep(s, ins.ty, self.cval(s, ('ptr',), ins.a[0]), ins.x)
        if op == 'icmp':
            a, b = self.cval(s, ins.ty, ins.a[0]), self.cval(s, ins.ty, ins.a[1])
            if isinstance(a, tuple): return tuple(self.icmp(ins.x, x, y) for x, y in zip(a, b))
            return self.icmp(ins.x, a, b)
        if op == 'fcmp':
            a, b = self.cval(s, ins.ty, ins.a[0]), self.cval(s, ins.ty, ins.a[1])
            if isinstance(a, tuple): return tuple(self.fcmp(ins.x, x, y) for x, y in zip(a, b))
            return self.fcmp(ins.x, self.defd(a, ins.ty), self.defd(b, ins.ty))
        if op in ir.CASTS: return self.cast(s, op, self.cval(s, ins.x, ins.a[0]), ins.x, ins.ty)
        if op == 'select':
            c = self.cval(s, ins.x, ins.a[0])
            a, b = self.cval(s, ins.ty, ins.a[1]), self.cval(s, ins.ty, ins.a[2])
            if isinstance(c, tuple): return tuple(vite(x, y, z) for x, y, z in zip(c, a, b))
            c = self.decide(s, self.defd(c, ('i', 1)))
            if c is TRUE: return a
            if c is FALSE: return b
            if isinstance(a, Undef): return b
            if isinstance(b, Undef): return a
            return vite(c, a, b)
        if op == 'fneg':
            v = self.cval(s, ins.ty, ins.a[0])
            f = rneg if self.mode == 'real' else fneg
            if isinstance(v, tuple): return tuple(f(x) for x in v)
            return f(self.defd(v, ins.ty))
        if op == 'freeze':
            return self.defd(self.cval(s, ins.ty, ins.a[0]), ins.ty)
        if op == 'alloca':
            n = 1
            if ins.x is not None:
                k = self.cval(s, ('i', 64), ins.x)
                if not is_c(k): raise Extraction('dynamic alloca')
                n = k.val
            return self.new_obj(s, ins.dst[1:], self.size(ins.ty) * n)
        if op == 'extractvalue':
            v = self.cval(s, ins.ty, ins.a[0])
            for k in ins.x:
                if isinstance(v, Undef): return UNDEF
                v = v[k]
            return v
        if op == 'insertvalue':
            v = self.cval(s, ins.ty, ins.a[0])
            if isinstance(v, Undef): v = self.undef_agg(ins.ty)
            w = self.cval(s, ins.x[1], ins.a[1])
            return insert(v, ins.x[0], w)
        if op == 'extractelement':
            v = self.cval(s, ins.ty, ins.a[0]); k = self.cval(s, ins.x, ins.a[1])
            if isinstance(v, Undef): return UNDEF
            if not is_c(k): raise Extraction('symbolic extractelement')
            return v[k.val]
        if op == 'insertelement':
            v = self.cval(s, ins.ty, ins.a[0])
            if isinstance(v, Undef): v = self.undef_agg(ins.ty)
            k = self.cval(s, ins.x[1], ins.a[2])
            return insert(v, [k.val], self.cval(s, ins.x[0], ins.a[1]))
        if op == 'shufflevector':
            t = self.res(ins.ty)
            a, b = self.cval(s, t, ins.a[0]), self.cval(s, t, ins.a[1])
            if isinstance(a, Undef): a = self.undef_agg(t)
            if isinstance(b, Undef): b = self.undef_agg(t)
            ab = a + b
            mt = self.res(ins.x[1])
            m = self.cval(s, mt, ins.a[2])
            if isinstance(m, Undef): m = (UNDEF,) * mt[1]
            return tuple(UNDEF if isinstance(z, Undef) else ab[z.val] for z in m)
        if op == 'nop': return None
        raise Extraction('instruction ' + op)

    def undef_agg(self, t):
        t = self.res(t)
        if t[0] == 'struct': return tuple(self.undef_agg(x) for x in t[1])
        if t[0] in ('arr', 'vec'): return tuple(self.undef_agg(t[2]) for _ in range(t[1]))
        return UNDEF

    # ---------------------------------------------------------------- calls
    def do_call(self, f, ins, s):
        """returns None when handled in place, or a list of Outcome"""
        cal, args = ins.a
        p = self.cval(s, ('ptr',), cal)
        if isinstance(p, PIte):
            # conditional callee (e.g. null std::function manager): fork
            outs = []
            for q, c in ((p.a, p.c), (p.b, Not(p.c))):
                s2 = s.fork(); s2.assume(c)
                if isinstance(q, Ptr) and q.obj == 0: continue
                s2.regs = dict(s2.regs)
                r = self.call_ptr(f, ins, s2, q, args)
                outs += r if r is not None else [Outcome('ret', s2, s2.regs.get(ins.dst))]
            return outs
        return self.call_ptr(f, ins, s, p, args)

    def call_ptr(self, f, ins, s, p, args):
        if not (isinstance(p, Ptr) and isinstance(p.obj, str) and p.obj.startswith('fn:')):
            raise Extraction('indirect call through %r' % (p,))
        name = p.obj[3:]
        av = [self.cval(s, t, a) for t, a in args]
        h = self.find_extern(name)
        if h is not None:
            self.extern_used[name] = self.extern_used.get(name, 0) + 1
            r = h(self, s, av, ins)
            if isinstance(r, list): return r
            if ins.dst: s.regs[ins.dst] = r
            return None
        if name in self.m.funcs:
            return self.call_function(s, name, av)
        return self.builtin(f, ins, s, name, av)

    def find_extern(self, name):
        c = getattr(self, '_ecache', None)
        if c is None: c = self._ecache = {}
        if name in c: return c[name]
        n = name[1:].strip('"')
        h = self.externs.get(n)
        if h is None:
            for pat, hh in self.externs.items():
                if isinstance(pat, re.Pattern) and pat.search(n):
                    h = hh; break
        c[name] = h
        return h

    def builtin(self, f, ins, s, name, a):
        n = name[1:].strip('"')
        real = self.mode == 'real'
        def ret(v):
            if ins.dst: s.regs[ins.dst] = v
            return None
        if EXC_CTOR.match(n): return ret(None)     # constructors/destructors of the standard exceptions: no effect on modelled state
        if n.startswith('llvm.'):
            b = n[5:]
            if b.startswith(('lifetime.', 'dbg.', 'experimental.noalias', 'assume', 'var.annotation', 'donothing', 'prefetch',
                             'invariant.', 'sideeffect', 'pseudoprobe')): return ret(None)
            if b.startswith('memcpy') or b.startswith('memmove'):
                if not is_c(a[2]): raise Extraction('memcpy of symbolic length')
                self.memcpy(s, a[0], a[1], a[2].val); return ret(None)
            if b.startswith('memset'):
                if not is_c(a[2]) or not is_c(a[1]): raise Extraction('memset symbolic')
                self.memset(s, a[0], a[1].val, a[2].val); return ret(None)
            if b.startswith('fabs'):
                return ret(self.map1(lambda x: rabs(x) if real else fabs(x), a[0]))
            if b.startswith(('sqrt', 'exp.', 'exp2.', 'log.', 'log2.', 'log10.', 'sin.', 'cos.', 'floor', 'ceil', 'tan.', 'round.', 'rint', 'trunc.', 'nearbyint')):
                return ret(self.math1(b.split('.')[0], a[0]))
            if b.startswith(('lround.', 'llround.')): return ret(self.cast(s, 'fptosi', self.nearest(s, 'round', a[0]) if self.ints and real else self.math1('round', a[0]), ('f', 64), ins.ty))
            if b.startswith('pow.'): return ret(self.mathn('pow', a))
            if b.startswith('powi.'):
                if real and is_c(a[1]):
                    k = signed(a[1].val, 32)
                    r = a[0] ** abs(k)
                    return ret(r if k >= 0 else 1 / r)
                return ret(self.mathn('powi', a))
            if b.startswith(('fma.', 'fmuladd.')):
                if real: return ret(a[0] * a[1] + a[2])
                return ret(fop('fp.add', fop('fp.mul', a[0], a[1]), a[2]))
            if b.startswith('minnum') or b.startswith('maxnum'):
                if real: return ret((rmin if b[1] == 'i' else rmax)(a[0], a[1]))
                lt = fcmp('fp.lt', a[1], a[0]) if b[1] == 'i' else fcmp('fp.lt', a[0], a[1])
                return ret(Ite(isnan(a[0]), a[1], Ite(isnan(a[1]), a[0], Ite(lt, a[1], a[0]))))
            if b.startswith('copysign'):
                if real:
                    m = rabs(a[0])
                    return ret(Ite(rlt(a[1], R(0)), rneg(m), m))
                return ret(Ite(self.signbit(a[1]), fneg(fabs(a[0])), fabs(a[0])))
            m = re.match(r'(smax|smin|umax|umin)\.', b)
            if m:
                k = m.group(1)
                c = bvcmp('bv%slt' % k[0], a[0], a[1])
                return ret(Ite(c, a[1], a[0]) if k[1:] == 'max' else Ite(c, a[0], a[1]))
            m = re.match(r'abs\.i(\d+)', b)
            if m:
                z = BV(0, int(m.group(1)))
                return ret(Ite(bvcmp('bvslt', a[0], z), bvop('bvsub', z, a[0]), a[0]))
            m = re.match(r'(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', b)
            if m:
                w = int(m.group(3)); o = 'bv' + m.group(2)
                x = sext if m.group(1) == 's' else zext
                r = bvop(o, a[0], a[1])
                big = bvop(o, x(a[0], 2 * w), x(a[1], 2 * w))
                return ret((r, Not(Eq(big, x(r, 2 * w)))))
            m = re.match(r'(u|s)(add|sub)\.sat\.i(\d+)', b)
            if m:
                w = int(m.group(3)); x = a
                if m.group(1) == 'u' and m.group(2) == 'sub':
                    return ret(Ite(bvcmp('bvult', a[0], a[1]), BV(0, w), bvop('bvsub', a[0], a[1])))
                if m.group(1) == 'u':
                    r = bvop('bvadd', a[0], a[1])
                    return ret(Ite(bvcmp('bvult', r, a[0]), BV(-1, w), r))
            m = re.match(r'fpto(s|u)i\.sat\.i(\d+)', b)
            if m: return ret(mk('fpto%si' % m.group(1), (a[0],), ('BV', int(m.group(2)))))
            if b.startswith('is.fpclass'):
                k = a[1].val
                if real: return ret(self.fpclass_real(a[0], k))
                return ret(self.fpclass(a[0], k))
            if b.startswith('eh.typeid.for'):
                return ret(BV(self.typeid(a[0].obj[2:] if isinstance(a[0].obj, str) else '?'), 32))
            if b.startswith('objectsize'): return ret(BV(-1, 64))
            if b.startswith('is.constant'): return ret(FALSE)
            if b.startswith('expect'): return ret(a[0])
            if b == 'stacksave' or b.startswith('stacksave.'): return ret(NULL)
            if b.startswith('stackrestore'): return ret(None)
            if b.startswith('threadlocal.address'): return ret(a[0])
            if b == 'trap': return [Outcome('abort', s, 'trap')]
            m = re.match(r'vector\.reduce\.(fadd|fmul)\.', b)
            if m:
                acc = a[0]
                for x in a[1]:
                    acc = self.binop(s, m.group(1), acc, x, ('f', 64))
                return ret(acc)
            m = re.match(r'ctlz\.i(\d+)|cttz\.i(\d+)|ctpop', b)
            if m and is_c(a[0]):
                w = a[0].sort[1]; v = a[0].val
                if b.startswith('ctlz'): return ret(BV(w - v.bit_length(), w))
                if b.startswith('cttz'): return ret(BV((v & -v).bit_length() - 1 if v else w, w))
                return ret(BV(bin(v).count('1'), w))
            raise Extraction('intrinsic ' + n)
        if n in ('malloc', '_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', 'aligned_alloc', 'calloc', 'realloc'):
            sz = a[1] if n == 'aligned_alloc' else a[0]
            if n == 'calloc': sz = bvop('bvmul', a[0], a[1])
            if n == 'realloc':
                sz = a[1]
            size = sz.val if is_c(sz) else None
            if size is None and not getattr(self, 'allow_sym_alloc', False) and n != 'realloc':
                base = next((t for t in subterms([sz]) if t.op == 'ite' and t.sort != 'B' and const_leaves(t) is not None), None)
                if base is not None:    # a choice between constants: one path for each
                    outs = []
                    for v, c in const_leaves(base).items():
                        c = self.decide(s, c)
                        if c is FALSE: continue
                        s2 = s.fork(); s2.assume(c)
                        m, memo = {base.id: BV(v, base.sort[1])}, {}
                        s2.regs = {k: subst(x, m, memo) if isinstance(x, Term) and x.sort != 'R' else x for k, x in s2.regs.items()}
                        r = self.builtin(f, ins, s2, name, [subst(x, m, memo) if isinstance(x, Term) else x for x in a])
                        outs += r if r is not None else [Outcome('ret', s2, s2.regs.get(ins.dst))]
                    return outs
            if size is None and not getattr(self, 'allow_sym_alloc', False): raise Extraction('allocation of symbolic size %s' % show(sz, 3))
            q = self.new_obj(s, 'heap', size)
            if n == 'calloc': self.zero_fill(s.w(q.obj), 0, size)
            if n == 'realloc' and isinstance(a[0], Ptr) and a[0].obj != 0:
                self.memcpy(s, q, a[0], min(size, s.mem[a[0].obj].size))
            return ret(q)
        if n in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
            def fr(q):
                if isinstance(q, PIte): fr(q.a); fr(q.b); return
                if isinstance(q, Ptr) and q.obj != 0 and q.obj in s.mem:
                    if q.off != 0: raise MemFault('free of interior pointer')
                    if isinstance(a[0], Ptr):
                        if s.mem[q.obj].dead: raise MemFault('double free')
                        s.w(q.obj).dead = True
            fr(a[0])
            return ret(None)
        base = {'sqrt': 1, 'exp': 1, 'log': 1, 'sin': 1, 'cos': 1, 'tan': 1, 'asin': 1, 'acos': 1, 'atan': 1, 'sinh': 1,
                'cosh': 1, 'tanh': 1, 'floor': 1, 'ceil': 1, 'cbrt': 1, 'exp2': 1, 'log2': 1, 'log10': 1, 'log1p': 1,
                'expm1': 1, 'erf': 1, 'erfc': 1, 'asinh': 1, 'acosh': 1, 'atanh': 1, 'round': 1, 'trunc': 1,
                'lround': 0, 'j0': 1, 'j1': 1,
                'pow': 2, 'atan2': 2, 'fmod': 2, 'hypot': 2, 'fmax': 2, 'fmin': 2, 'copysign': 2}
        bn = n[:-1] if n.endswith('f') and n[:-1] in base else n
        if bn in base:
            if bn == 'fabs': return ret(rabs(a[0]) if real else fabs(a[0]))
            if bn == 'lround': return ret(self.cast(s, 'fptosi', self.nearest(s, 'round', a[0]) if self.ints and real else self.math1('round', a[0]), ('f', 64), ins.ty))
            if real and bn == 'fmax': return ret(rmax(a[0], a[1]))
            if real and bn == 'fmin': return ret(rmin(a[0], a[1]))
            if base[bn] == 1: return ret(self.math1(bn, a[0]))
            return ret(self.mathn(bn, a))
        if n in ('fabs', 'fabsf'): return ret(rabs(a[0]) if real else fabs(a[0]))
        if n == '__cxa_allocate_exception':
            q = self.new_obj(s, 'exc', None)
            s.mem[q.obj].lazy = 'exc'
            return ret(q)
        if n == '__cxa_throw':
            ti = a[1].obj
            ti = ti[2:] if isinstance(ti, str) and ti.startswith('g:') else str(ti)
            return [Outcome('throw', s, (ti, a[0]))]
        if n.startswith('_ZSt') and '__throw_' in n:
            m = re.search(r'__throw_([a-z_]+?)(?:PKc|v|PKcz)', n)
            k = m.group(1) if m else 'x'
            return [Outcome('throw', s, ('@_ZTISt%d%s' % (len(k), k), NULL))]
        if n in ('__cxa_begin_catch',): return ret(a[0])
        if n in ('__cxa_end_catch', '__cxa_free_exception'): return ret(None)
        if n == '__cxa_rethrow': return [Outcome('throw', s, s.exc)]
        if n in ('__assert_fail', 'abort', '_ZSt9terminatev', 'exit', '__cxa_pure_virtual', '__clang_call_terminate'):
            return [Outcome('abort', s, n)]
        if n in ('__cxa_guard_acquire',): return ret(BV(1, 32))
        if n in ('__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort'): return ret(BV(0, 32) if ins.dst else None)
        if n == 'memcmp' and is_c(a[2]) and a[2].val == 0: return ret(BV(0, 32))
        if n == 'memcpy' or n == 'memmove':
            self.memcpy(s, a[0], a[1], a[2].val); return ret(a[0])
        if n == 'memset':
            self.memset(s, a[0], a[1].val & 255, a[2].val); return ret(a[0])
        raise Extraction('call to unknown external function ' + n)

    def map1(self, f, x): return tuple(f(z) for z in x) if isinstance(x, tuple) else f(x)

    def signbit(self, x):
        w = x.sort[1]
        if is_c(x): return B(math.copysign(1, x.val) < 0)
        return mk('fp.isNegative', (x,), 'B')

    def math1(self, nm, x):
        if isinstance(x, tuple): return tuple(self.math1(nm, z) for z in x)
        if self.mode == 'real': return app(nm, x)
        if nm == 'sqrt': return mk('fp.sqrt', (x,), x.sort)
        return mk('app', (x,), x.sort, '%s%d' % (nm, x.sort[1]))

    def mathn(self, nm, a):
        if self.mode == 'real': return app(nm, *a)
        return mk('app', tuple(a), a[0].sort, '%s%d' % (nm, a[0].sort[1]))

    def fpclass(self, x, k):
        # bits: 0 snan 1 qnan 2 -inf 3 -norm 4 -sub 5 -0 6 +0 7 +sub 8 +norm 9 +inf
        parts = []
        k0 = k
        if k & 3 == 3: parts.append(isnan(x)); k &= ~3
        if k & 0x204 == 0x204: parts.append(isinf(x)); k &= ~0x204
        if k == 0: return Or(*parts)
        if k0 & 3 == 3 and k0 & 0x204 != 0x204 or True:
            if k0 == 0x1f8: return And(Not(isnan(x)), Not(isinf(x)))
            if k0 == 0x1fb: return Not(isinf(x))
            if k0 == 0x207: return Or(isnan(x), isinf(x))
            if k0 == 0x3fc: return Not(isnan(x))
            if k0 == 0x108 and x.sort[1] == 64: return And(Not(isinf(x)), fcmp('fp.leq', F(2.0 ** -1022, 64), mk('fp.abs', (x,), x.sort)))
            if k0 == 0x60: return fcmp('fp.eq', x, F(0.0, x.sort[1]))
        raise Extraction('fpclass %x' % k0)

    def fpclass_real(self, x, k):
        if k in (3, 0x204, 0x207): return FALSE
        if k in (0x1f8, 0x1fb, 0x3fc): return TRUE
        if k == 0x108: return Not(req(x, 0))
        if k == 0x60: return req(x, 0)
        raise Extraction('fpclass %x' % k)


def insert(v, idx, w):
    if len(idx) == 1: return v[:idx[0]] + (w,) + v[idx[0] + 1:]
    return v[:idx[0]] + (insert(v[idx[0]], idx[1:], w),) + v[idx[0] + 1:]


def same(a, b):
    if a is b: return True
    if isinstance(a, (Ptr, PIte)): return a == b
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def operands(ins):
    out = []

    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'reg': out.append(v[1]); return
            for x in v: walk(x)
        elif isinstance(v, list):
            for x in v: walk(x)
    walk(ins.a)
    if ins.op == 'gep': walk(ins.x)
    if ins.op == 'alloca' and ins.x: walk(ins.x)
    return out
