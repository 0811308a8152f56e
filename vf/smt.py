"""SMT-LIB2 printing, solver portfolio, and obligation discharge."""
import os, re, subprocess, tempfile, time, threading, shutil
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from .terms import *
from . import ratfun, split, linear

SOLVERS = {'z3': ['z3-new', '-in', '-smt2'], 'z3-old': ['z3', '-in', '-smt2'],
           'cvc5': ['cvc5', '--lang=smt2', '--produce-models', '-q']}


def sort_s(s):
    if s == 'B': return 'Bool'
    if s == 'R': return 'Real'
    if s == 'I': return 'Int'
    if s[0] == 'BV': return '(_ BitVec %d)' % s[1]
    if s[0] == 'F': return '(_ FloatingPoint 11 53)' if s[1] == 64 else '(_ FloatingPoint 8 24)'
    if s[0] == 'U': return s[1]
    if s[0] == 'A': return '(Array %s %s)' % (sort_s(s[1]), sort_s(s[2]))
    raise ValueError(s)


def q(n): return '|%s|' % n.replace('|', '_').replace('\\', '_')


def fbits(v, w):
    b = int.from_bytes(struct.pack('>d' if w == 64 else '>f', v), 'big')
    if w == 64: return '(fp #b%s #b%s #b%s)' % (format(b >> 63, '01b'), format(b >> 52 & 0x7ff, '011b'), format(b & (1 << 52) - 1, '052b'))
    return '(fp #b%s #b%s #b%s)' % (format(b >> 31, '01b'), format(b >> 23 & 0xff, '08b'), format(b & (1 << 23) - 1, '023b'))


def const_s(t):
    s, v = t.sort, t.val
    if s == 'B': return 'true' if v else 'false'
    if s == 'R':
        n, d = v.numerator, v.denominator
        x = '%d.0' % abs(n) if d == 1 else '(/ %d.0 %d.0)' % (abs(n), d)
        return x if n >= 0 else '(- %s)' % x
    if s == 'I': return str(v) if v >= 0 else '(- %d)' % -v
    if s[0] == 'BV': return '(_ bv%d %d)' % (v, s[1])
    if s[0] == 'F':
        if math.isnan(v): return '(_ NaN %s)' % ('11 53' if s[1] == 64 else '8 24')
        return fbits(v, s[1])
    raise ValueError(t)


FPP = {64: '11 53', 32: '8 24'}


class Printer:
    def __init__(self, abstract_fp=False):
        self.decl, self.defs, self.names, self.funs, self.extra = [], [], {}, {}, []
        self.sorts = set()
        self.abstract_fp = abstract_fp

    def uf(self, name, ins, out):
        k = (name, tuple(map(str, ins)), str(out))
        if k not in self.funs:
            nm = q('f_%s' % name if not any(x[0] == name for x in self.funs) else 'f_%s_%d' % (name, len(self.funs)))
            self.funs[k] = nm
            for s in list(ins) + [out]: self.need(s)
            self.decl.append('(declare-fun %s (%s) %s)' % (nm, ' '.join(sort_s(s) for s in ins), sort_s(out)))
        return self.funs[k]

    def need(self, s):
        if isinstance(s, tuple) and s[0] == 'U' and s not in self.sorts:
            self.sorts.add(s)
            self.decl.append('(declare-sort %s 0)' % s[1])

    def term(self, t):
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.names:
                stack.pop(); continue
            todo = [a for a in x.args if a.id not in self.names]
            if todo:
                stack.extend(todo); continue
            self.names[x.id] = self.one(x)
            stack.pop()
        return self.names[t.id]

    def one(self, t):
        op = t.op
        if op == 'const': return const_s(t)
        if op == 'var':
            self.need(t.sort)
            self.decl.append('(declare-fun %s () %s)' % (q(t.val), sort_s(t.sort)))
            return q(t.val)
        a = [self.names[x.id] for x in t.args]
        s0 = t.args[0].sort
        if op in ('not', 'and', 'or', 'ite', '=', '+', '*', '/', '<', 'concat', 'select', 'store') or \
                (op.startswith('bv') and op not in ('bv2nat',)):
            e = '(%s %s)' % (op, ' '.join(a))
        elif op == 'rneg': e = '(- %s)' % a[0]
        elif op in ('zext', 'sext'):
            e = '((_ %s %d) %s)' % ('zero_extend' if op == 'zext' else 'sign_extend', t.sort[1] - s0[1], a[0])
        elif op == 'extract': e = '((_ extract %d %d) %s)' % (t.val[0], t.val[1], a[0])
        elif op in ('fp.add', 'fp.sub', 'fp.mul', 'fp.div'):
            if self.abstract_fp:
                e = '(%s %s)' % (self.uf(op, [s0, s0], s0), ' '.join(a))
                if op in ('fp.add', 'fp.sub', 'fp.mul', 'fp.div'):
                    self.extra.append('(=> (or (fp.isNaN %s) (fp.isNaN %s)) (fp.isNaN %s))' % (a[0], a[1], e))
                if op == 'fp.sub':   # lemma over IEEE subtraction (gradual underflow)
                    z = fbits(0.0, s0[1])
                    self.extra.append('(= (fp.lt %s %s) (fp.lt %s %s))' % (e, z, a[0], a[1]))
                    self.extra.append('(= (fp.lt %s %s) (fp.lt %s %s))' % (z, e, a[1], a[0]))
                    self.extra.append('(=> (not (or (fp.isInfinite %s) (fp.isInfinite %s) (fp.isNaN %s) (fp.isNaN %s))) (not (fp.isNaN %s)))' % (a[0], a[1], a[0], a[1], e))
            else:
                e = '(%s RNE %s %s)' % (op, a[0], a[1])
        elif op == 'fp.sqrt': e = '(fp.sqrt RNE %s)' % a[0]
        elif op in ('fp.neg', 'fp.abs', 'fp.lt', 'fp.leq', 'fp.eq', 'fp.isNaN', 'fp.isInfinite', 'fp.isNegative'):
            e = '(%s %s)' % (op, ' '.join(a))
        elif op in ('fpext', 'fptrunc'): e = '((_ to_fp %s) RNE %s)' % (FPP[t.sort[1]], a[0])
        elif op == 'sitofp' and t.sort != 'R': e = '((_ to_fp %s) RNE %s)' % (FPP[t.sort[1]], a[0])
        elif op == 'uitofp' and t.sort != 'R': e = '((_ to_fp_unsigned %s) RNE %s)' % (FPP[t.sort[1]], a[0])
        elif op in ('sitofp', 'uitofp'):
            n = s0[1]
            nat = '(bv2nat %s)' % a[0]
            e = '(to_real %s)' % nat if op == 'uitofp' else \
                '(to_real (ite (bvslt %s (_ bv0 %d)) (- %s %d) %s))' % (a[0], n, nat, 1 << n, nat)
        elif op in ('fptosi', 'fptoui') and s0 != 'R':
            e = '((_ fp.to_%sbv %d) RTZ %s)' % ('s' if op == 'fptosi' else 'u', t.sort[1], a[0])
        elif op == 'fpof' and t.sort != 'R': e = '((_ to_fp %s) %s)' % (FPP[t.sort[1]], a[0])
        elif op == 'bitsof' and s0 != 'R':
            nm = q('bits!%d' % t.id)
            self.decl.append('(declare-fun %s () %s)' % (nm, sort_s(t.sort)))
            self.extra.append('(= ((_ to_fp %s) %s) %s)' % (FPP[s0[1]], nm, a[0]))
            e = nm
        elif op == 'app':
            e = '(%s %s)' % (self.uf(t.val, [x.sort for x in t.args], t.sort), ' '.join(a))
        else:
            e = '(%s %s)' % (self.uf(op + ('' if t.val is None else str(t.val)), [x.sort for x in t.args], t.sort), ' '.join(a))
        nm = '$%d' % t.id
        self.decl.append('(define-fun %s () %s %s)' % (nm, sort_s(t.sort), e))
        return nm


class BVPrinter(Printer):
    """floats as bit vectors with one NaN pattern: comparisons exact, arithmetic and conversions uninterpreted with lemmas"""

    def __init__(self): super().__init__(True)

    @staticmethod
    def so(s): return ('BV', s[1]) if isinstance(s, tuple) and s[0] == 'F' else s

    def cst(self, t):
        if isinstance(t.sort, tuple) and t.sort[0] == 'F':
            w = t.sort[1]
            if math.isnan(t.val): return self.nan(w)
            return '(_ bv%d %d)' % (int.from_bytes(struct.pack('>d' if w == 64 else '>f', t.val), 'big'), w)
        return const_s(t)

    def nan(self, w): return '(_ bv%d %d)' % (0x7ff8 << 48 if w == 64 else 0x7fc00000, w)

    def low(self, a, w): return '((_ extract %d 0) %s)' % (w - 2, a)

    def infm(self, w): return '(_ bv%d %d)' % (0x7ff << 52 if w == 64 else 0xff << 23, w - 1)

    def isnan(self, a, w): return '(= %s %s)' % (a, self.nan(w))

    def isinf(self, a, w): return '(= %s %s)' % (self.low(a, w), self.infm(w))

    def sgn(self, a, w): return '(= ((_ extract %d %d) %s) #b1)' % (w - 1, w - 1, a)

    def zero(self, a, w): return '(= %s (_ bv0 %d))' % (self.low(a, w), w - 1)

    def canon(self, a, w): self.extra.append('(=> (bvugt %s %s) (= %s %s))' % (self.low(a, w), self.infm(w), a, self.nan(w)))

    def lt(self, a, b, w):
        return '(and (not %s) (not %s) (not (and %s %s)) (ite %s (or (not %s) (bvult %s %s)) (and (not %s) (bvult %s %s))))' % (
            self.isnan(a, w), self.isnan(b, w), self.zero(a, w), self.zero(b, w), self.sgn(a, w), self.sgn(b, w), b, a, self.sgn(b, w), a, b)

    def feq(self, a, b, w):
        return '(and (not %s) (not %s) (or (= %s %s) (and %s %s)))' % (self.isnan(a, w), self.isnan(b, w), a, b, self.zero(a, w), self.zero(b, w))

    def one(self, t):
        op, so = t.op, self.so
        isF = isinstance(t.sort, tuple) and t.sort[0] == 'F'
        if op == 'const': return self.cst(t)
        if op == 'var':
            self.need(t.sort)
            self.decl.append('(declare-fun %s () %s)' % (q(t.val), sort_s(so(t.sort))))
            if isF: self.canon(q(t.val), t.sort[1])
            return q(t.val)
        s0 = t.args[0].sort
        aF = any(isinstance(x.sort, tuple) and x.sort[0] == 'F' for x in t.args)
        if not aF and not isF: return super().one(t)
        a = [self.names[x.id] for x in t.args]
        w = s0[1] if isinstance(s0, tuple) else 0
        ex = self.extra
        e = None
        if op in ('ite', '=', 'select', 'store'): e = '(%s %s)' % (op, ' '.join(a))
        elif op == 'fp.lt': e = self.lt(a[0], a[1], w)
        elif op == 'fp.eq': e = self.feq(a[0], a[1], w)
        elif op == 'fp.leq': e = '(or %s %s)' % (self.lt(a[0], a[1], w), self.feq(a[0], a[1], w))
        elif op == 'fp.isNaN': e = self.isnan(a[0], w)
        elif op == 'fp.isInfinite': e = self.isinf(a[0], w)
        elif op == 'fp.isNegative': e = '(and %s (not %s))' % (self.sgn(a[0], w), self.isnan(a[0], w))
        elif op == 'fp.neg': e = '(ite %s %s (bvxor %s (_ bv%d %d)))' % (self.isnan(a[0], w), a[0], a[0], 1 << (w - 1), w)
        elif op == 'fp.abs': e = '(ite %s %s (bvand %s (_ bv%d %d)))' % (self.isnan(a[0], w), a[0], a[0], (1 << (w - 1)) - 1, w)
        elif op == 'fpof':
            w = t.sort[1]
            e = '(ite (bvugt %s %s) %s %s)' % (self.low(a[0], w), self.infm(w), self.nan(w), a[0])
        elif op == 'bitsof':
            nm = q('bits!%d' % t.id)
            self.decl.append('(declare-fun %s () %s)' % (nm, sort_s(t.sort)))
            ex.append('(= (ite (bvugt %s %s) %s %s) %s)' % (self.low(nm, w), self.infm(w), self.nan(w), nm, a[0]))
            return nm
        if e is None:
            f = self.uf(t.val if op == 'app' else op + ('' if t.val is None else str(t.val)), [so(x.sort) for x in t.args], so(t.sort))
            e = '(%s %s)' % (f, ' '.join(a))
            nm = '$%d' % t.id
            self.decl.append('(define-fun %s () %s %s)' % (nm, sort_s(so(t.sort)), e))
            if isF:
                W = t.sort[1]
                self.canon(nm, W)
                if op in ('fp.add', 'fp.sub', 'fp.mul', 'fp.div'):
                    ex.append('(=> (or %s %s) %s)' % (self.isnan(a[0], w), self.isnan(a[1], w), self.isnan(nm, W)))
                if op == 'fp.mul':
                    ex.append('(=> (and %s (not %s) (not %s)) %s)' % (self.isinf(a[0], w), self.zero(a[1], w), self.isnan(a[1], w), self.isinf(nm, W)))
                if op == 'fp.sub':
                    z = '(_ bv0 %d)' % W
                    ex.append('(= %s %s)' % (self.lt(nm, z, W), self.lt(a[0], a[1], W)))
                    ex.append('(= %s %s)' % (self.lt(z, nm, W), self.lt(a[1], a[0], W)))
                    ex.append('(=> (not (or %s %s %s %s)) (not %s))' % (self.isnan(a[0], w), self.isnan(a[1], w), self.isinf(a[0], w), self.isinf(a[1], w), self.isnan(nm, W)))
                elif op in ('fpext', 'fptrunc'):
                    ex.append('(= %s %s)' % (self.isnan(nm, W), self.isnan(a[0], w)))
                    ex.append('(= %s %s)' % (self.sgn(nm, W), self.sgn(a[0], w)))
                    ex.append('(=> %s %s)' % (self.zero(a[0], w), self.zero(nm, W)))
                    ex.append('(=> %s %s)' % (self.isinf(a[0], w), self.isinf(nm, W)))
                    if op == 'fpext':
                        ex.append('(=> (not %s) (not %s))' % (self.zero(a[0], w), self.zero(nm, W)))
                        ex.append('(=> (not %s) (not %s))' % (self.isinf(a[0], w), self.isinf(nm, W)))
                elif op in ('sitofp', 'uitofp'):
                    ex.append('(not (or %s %s))' % (self.isnan(nm, W), self.isinf(nm, W)))
            return nm
        nm = '$%d' % t.id
        self.decl.append('(define-fun %s () %s %s)' % (nm, sort_s(so(t.sort)), e))
        return nm


class EUFPrinter(Printer):
    """floats as an uninterpreted sort, every floating point operation and comparison as an uninterpreted function"""

    @staticmethod
    def so(s): return ('U', 'F%d' % s[1]) if isinstance(s, tuple) and s[0] == 'F' else ('A', EUFPrinter.so(s[1]), EUFPrinter.so(s[2])) if isinstance(s, tuple) and s[0] == 'A' else s

    def one(self, t):
        op, so = t.op, self.so
        if so(t.sort) == t.sort and all(so(x.sort) == x.sort for x in t.args): return super().one(t)
        if op in ('const', 'var'):
            nm = q(t.val if op == 'var' else 'c%d!%r' % (t.sort[1], t.val))
            for s in [t.sort] if t.sort[0] == 'F' else t.sort[1:]: self.need(so(s))
            self.decl.append('(declare-fun %s () %s)' % (nm, sort_s(so(t.sort))))
            return nm
        a = [self.names[x.id] for x in t.args]
        if op in ('ite', '=', 'select', 'store'): f = op
        else: f = self.uf(t.val if op == 'app' else op + ('' if t.val is None else str(t.val)), [so(x.sort) for x in t.args], so(t.sort))
        nm = '$%d' % t.id
        self.decl.append('(define-fun %s () %s (%s %s))' % (nm, sort_s(so(t.sort)), f, ' '.join(a)))
        return nm


def auto_axioms(ts):
    """sound facts about the transcendental applications that occur"""
    ax = []
    seen = {}
    for t in subterms(ts):
        if t.op == 'app' and t.sort == 'R':
            a = t.args
            if t.val == 'sqrt':
                ax.append(Implies(rge(a[0], 0), And(rge(t, 0), req(t * t, a[0]))))
            elif t.val == 'exp':
                ax.append(And(rgt(t, 0), rge(t, a[0] + 1), Eq(rlt(a[0], 0), rlt(t, 1)), Eq(req(a[0], 0), req(t, 1))))
            elif t.val == 'tanh':
                ax.append(And(rlt(t, 1), rgt(t, -1)))
            elif t.val in ('sin', 'cos'):
                seen.setdefault(a[0].id, {})[t.val] = t
            elif t.val == 'hypot':
                ax.append(And(rge(t, 0), req(t * t, a[0] * a[0] + a[1] * a[1])))
    for d in seen.values():
        if len(d) == 2: ax.append(req(d['sin'] * d['sin'] + d['cos'] * d['cos'], 1))
    return ax


def script(asserts, get=(), abstract_fp=False, timeout=10, logic=None):
    p = Printer(abstract_fp)
    body = []
    for t in asserts: body.append('(assert %s)' % p.term(t))
    gv = [p.term(v) for v in get]
    out = []
    if logic: out.append('(set-logic %s)' % logic)
    out += p.decl
    out += ['(assert %s)' % e for e in p.extra]
    out += body
    out.append('(check-sat)')
    if gv: out.append('(get-value (%s))' % ' '.join(gv))
    return '\n'.join(out) + '\n'


solver_time = {}
solver_calls = {}
_lock = threading.Lock()


def run_solver(name, text, timeout):
    cmd = list(SOLVERS[name])
    if name.startswith('z3'):
        cmd.append('-T:%d' % max(1, int(timeout)))
        text = '(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n' + text
    else:
        cmd.append('--tlimit=%d' % int(timeout * 1000))
        if '(set-logic' not in text: text = '(set-logic ALL)\n' + text
    t0 = time.time()
    try:
        r = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    dt = time.time() - t0
    with _lock:
        solver_time[name] = solver_time.get(name, 0) + dt
        solver_calls[name] = solver_calls.get(name, 0) + 1
    first = out.strip().split('\n')[0].strip() if out.strip() else 'unknown'
    if first not in ('sat', 'unsat', 'unknown', 'timeout'):
        if 'error' in first and os.environ.get('VF_DEBUG'): print('SOLVER', name, first[:300])
        st = 'unknown'
        for l in out.split('\n'):
            if l.strip() in ('sat', 'unsat'): st = 'error'
        return ('unknown', out)
    return (first, out)


def parse_values(out, get):
    """parse the get-value answer into {var name: python value}"""
    i = out.find('((')
    if i < 0: return {}
    s = out[i:]
    toks = re.findall(r'\|[^|]*\||\(|\)|[^\s()]+', s)
    pos = [0]

    def rd():
        t = toks[pos[0]]; pos[0] += 1
        if t == '(':
            l = []
            while toks[pos[0]] != ')': l.append(rd())
            pos[0] += 1
            return l
        return t
    try:
        tree = rd()
    except IndexError:
        return {}
    vals = {}
    for (n, v), t in zip(tree, get):
        try:
            vals[t.val if t.op == 'var' else t.id] = toval(v)
        except Exception:
            pass
    return vals


def toval(v):
    if isinstance(v, str):
        if v == 'true': return True
        if v == 'false': return False
        if v.startswith('#x'): return int(v[2:], 16)
        if v.startswith('#b'): return int(v[2:], 2)
        return float(Fraction(v.rstrip('?')))
    if v[0] == '-': return -toval(v[1])
    if v[0] == '/': return toval(v[1]) / toval(v[2])
    if v[0] == '_':
        if v[1].startswith('bv'): return int(v[1][2:])
        if v[1] == 'NaN': return math.nan
        if v[1] == '+oo': return math.inf
        if v[1] == '-oo': return -math.inf
        if v[1] == '+zero': return 0.0
        if v[1] == '-zero': return -0.0
    if v[0] == 'fp':
        s, e, m = v[1:]
        b = ''.join(bits(x) for x in (s, e, m))
        if len(b) == 64: return struct.unpack('>d', int(b, 2).to_bytes(8, 'big'))[0]
        return struct.unpack('>f', int(b, 2).to_bytes(4, 'big'))[0]
    raise ValueError(v)


def bits(x):
    if x.startswith('#b'): return x[2:]
    return format(int(x[2:], 16), '0%db' % (4 * (len(x) - 2)))


class Result:
    __slots__ = ('status', 'backend', 'time', 'model', 'out')

    def __init__(s, status, backend='', time=0, model=None, out=''):
        s.status, s.backend, s.time, s.model, s.out = status, backend, time, model, out


def slice_pc(assm, goal):
    """cone of influence: keep only assumptions sharing variables (transitively) with the goal"""
    gv = {v.id for v in free_vars([goal])}
    items = [(a, {v.id for v in free_vars([a])}) for a in assm]
    keep, ch = [], True
    while ch:
        ch = False
        rest = []
        for a, vs in items:
            if vs & gv or not vs:
                keep.append(a); gv |= vs; ch = True
            else: rest.append((a, vs))
        items = rest
    return keep


def side_prove(assm, goal, timeout):
    """side conditions (non-zero denominators, impossible cases): also tried with square-root arguments made opaque"""
    if smt_prove(assm, goal, solvers=[('z3', 1)]).status == 'proved': return True
    args = {}
    for t in subterms(list(assm) + [goal]):
        if t.op == 'app' and t.val == 'sqrt' and t.args[0].op not in ('var', 'const'): args[t.args[0].id] = t.args[0]
    if args:
        m = {k: var('opq!%d' % k, 'R') for k in args}
        memo = {}
        A = [subst(a, m, memo) for a in assm]
        for k, t in args.items():
            if smt_prove([], rge(t, 0), solvers=[('z3', 1)]).status == 'proved': A.append(rge(m[k], 0))
        if smt_prove(A, subst(goal, m, memo), solvers=[('z3', 2), ('cvc5', 2)]).status == 'proved': return True
    return smt_prove(assm, goal, timeout=min(timeout, 10), quick=3).status == 'proved'


def prove(assm, goal, get=(), timeout=20, real=True, quick=2, axioms=True, solvers=None):
    """is (and assm) => goal valid?  status: proved | refuted | unknown"""
    t0 = time.time()
    if goal is TRUE: return Result('proved', 'simplifier', 0)
    assm = [a for a in assm if a is not TRUE]
    if any(a is FALSE for a in assm): return Result('proved', 'simplifier', 0)
    if any(a is goal for a in assm): return Result('proved', 'simplifier', 0)
    if real:
        r = ratfun.try_prove(assm, goal, lambda A, g: side_prove(A, g, timeout))
        if r: return Result('proved', 'ring', time.time() - t0)
    if real and solvers is None and any(t.op == 'ite' for t in subterms(assm + [goal])):
        r = smt_prove(assm, goal, get, timeout, quick, axioms, [('z3', quick)])
        if r.status == 'unknown':
            if linear.prove(assm, goal, lambda A, g: smt_prove(A, g, solvers=[('z3', 1)]).status == 'proved',
                            lambda A, g: smt_prove(A, g, axioms=False, solvers=[('z3', quick)]).status == 'proved'):
                return Result('proved', 'linear+z3', time.time() - t0)
            used = set()

            def leaf(A, g):
                if g is not FALSE: A = slice_pc(A, g)
                if ratfun.try_prove(A, g, lambda A, g: side_prove(A, g, timeout)): used.add('ring'); return True
                r = smt_prove(A, g, axioms=axioms, solvers=[('z3', quick)])
                if r.status == 'unknown' and any(t.op == '/' for t in subterms(A + [g])):
                    A2, g2 = split.rationalise(A, g, lambda A, g: side_prove(A, g, timeout))
                    r = smt_prove(A2, g2, axioms=axioms, solvers=[('z3', quick), ('cvc5', quick), ('z3', timeout)])
                if r.status == 'unknown': r = smt_prove(A, g, timeout=timeout, quick=quick, axioms=axioms)
                used.add(r.backend)
                return r.status == 'proved'

            def feasible(A):
                return smt_prove(A, FALSE, solvers=[('z3', 1)], axioms=axioms).status != 'proved'
            if split.split_prove(assm, goal, leaf, feasible, [128], time.time() + 8 * timeout):
                return Result('proved', '+'.join(['split'] + sorted(used)), time.time() - t0)
            r = smt_prove(assm, goal, get, timeout, quick, axioms)
    else: r = smt_prove(assm, goal, get, timeout, quick, real and axioms, solvers)
    r.time = time.time() - t0
    return r


def smt_prove_bv(assm, goal, get=(), timeout=30):
    """floats as ordered bit patterns, arithmetic uninterpreted with lemmas; exact floating point if that is not enough"""
    p = BVPrinter()
    a = [p.term(t) for t in assm]
    g = p.term(goal)
    txt = '\n'.join(p.decl + ['(assert %s)' % e for e in p.extra + a] + ['(assert (not %s))' % g, '(check-sat)', '']) 
    t0 = time.time()
    s, out = run_solver('z3', txt, timeout)
    if s == 'unsat': r = Result('proved', 'z3')
    else: r = Result('refuted' if s == 'sat' else 'unknown', 'z3', out=out)
    r.time = time.time() - t0
    return r


def smt_prove(assm, goal, get=(), timeout=20, quick=2, axioms=True, solvers=None, abstract_fp=None):
    base = list(assm) + [Not(goal)]
    if axioms: base = auto_axioms(base) + base
    hasfp = any(isinstance(t.sort, tuple) and t.sort[0] == 'F' for t in subterms(base))
    if hasfp and abstract_fp is None:
        p = EUFPrinter()
        body = ['(assert %s)' % p.term(t) for t in base]
        if run_solver('z3', '\n'.join(p.decl + body + ['(check-sat)', '']), max(quick, timeout / 2))[0] == 'unsat': return Result('proved', 'z3')
        txt = script(base, get, abstract_fp=True)
        s, out = run_solver('z3', txt, max(quick, timeout / 2))
        if s == 'unsat': return Result('proved', 'z3')
        if s != 'sat':
            s, out = run_solver('cvc5', txt, max(quick, timeout / 2))
            if s == 'unsat': return Result('proved', 'cvc5')
        if not any(t.op in ('fp.add', 'fp.sub', 'fp.mul', 'fp.div') for t in subterms(base)) and s == 'sat':
            return Result('refuted', 'z3', model=parse_values(out, get), out=out)
    txt = script(base, get)
    last = ''
    for nm, tmo in ([('z3', quick), ('cvc5', quick), ('z3-old', quick), ('cvc5', timeout), ('z3', timeout), ('z3-old', timeout)] if solvers is None else solvers):
        s, out = run_solver(nm, txt, tmo)
        if s == 'unsat': return Result('proved', nm)
        if s == 'sat': return Result('refuted', nm, model=parse_values(out, get), out=out)
        last = out
    return Result('unknown', '', out=last[:2000])
