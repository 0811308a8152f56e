"""Parser for the subset of textual LLVM IR (opaque pointers, LLVM 18) that clang emits for us."""
import re


class IRError(Exception):
    pass


# ---- types: ('i',n) ('f',32|64|80) ('ptr',) ('void',) ('arr',n,T) ('struct',[T],packed) ('vec',n,T)
#             ('named',name) ('label',) ('metadata',) ('fn',)
TOK = re.compile(r'''
  \s+ | ;[^\n]* |
  (?P<str>c?"(?:[^"\\]|\\.)*") |
  (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) |
  (?P<meta>![-a-zA-Z$._0-9]*) |
  (?P<attr>\#[0-9]+) |
  (?P<num>-?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+) |
  (?P<word>[-a-zA-Z$._][-a-zA-Z$._0-9]*) |
  (?P<dots>\.\.\.) |
  (?P<punct>[][(){}<>,=*:|])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m: raise IRError('tokenize at: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k: out.append((k, m.group(k)))
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'signext',
               'zeroext', 'inreg', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'allocptr', 'allocalign',
               'noreturn', 'nounwind', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'protected',
               'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'linkonce_odr', 'internal', 'private',
               'weak_odr', 'weak', 'external', 'available_externally', 'linkonce', 'common', 'extern_weak',
               'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'inbounds', 'nuw', 'nsw',
               'exact', 'volatile', 'nneg', 'disjoint', 'writable', 'appending', 'dllimport', 'dllexport', 'default',
               'preallocated', 'dead_on_unwind', 'thread_local', 'externally_initialized'}


class P:
    def __init__(self, toks, mod=None):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'str':
            self.i += 1
            return True
        return False

    def exp(self, v):
        x = self.next()
        if x[1] != v: raise IRError('expected %r got %r near %s' % (v, x, ' '.join(z[1] for z in self.t[max(0, self.i - 8):self.i + 6])))

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
            elif k == 'word' and v in ('align', 'addrspace') and self.peek(1)[1] != '(':
                self.i += 2
            elif k == 'word' and self.peek(1)[1] == '(' and v in (
                    'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'elementtype', 'nofpclass',
                    'memory', 'allockind', 'allocsize', 'captures', 'range', 'initializes', 'byref', 'inalloca', 'alignstack'):
                self.i += 1
                self.paren()
            elif k == 'attr':
                self.i += 1
            else:
                return

    def paren(self):
        self.exp('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1
            elif v == '' : raise IRError('eof in paren')

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'void': r = ('void',)
            elif v == 'ptr': r = ('ptr',)
            elif v == 'double': r = ('f', 64)
            elif v == 'float': r = ('f', 32)
            elif v == 'x86_fp80': r = ('f', 80)
            elif v == 'half': r = ('f', 16)
            elif v == 'label': r = ('label',)
            elif v == 'metadata': r = ('metadata',)
            elif v == 'token': r = ('token',)
            elif v == 'opaque': r = ('opaque',)
            elif re.fullmatch(r'i\d+', v): r = ('i', int(v[1:]))
            else: raise IRError('type? ' + v)
        elif k == 'id':
            r = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.exp('x')
            t = self.type(); self.exp(']')
            r = ('arr', n, t)
        elif v == '{':
            r = ('struct', self.types('}'), False)
        elif v == '<':
            if self.acc('{'):
                r = ('struct', self.types('}'), True)
                self.exp('>')
            else:
                n = int(self.next()[1]); self.exp('x')
                t = self.type(); self.exp('>')
                r = ('vec', n, t)
        else:
            raise IRError('type? %r near %s' % (v, ' '.join(z[1] for z in self.t[max(0, self.i - 8):self.i + 6])))
        if self.peek()[1] == 'addrspace':
            self.i += 1
            self.paren()
        while self.peek()[1] == '(' and self.peek()[0] == 'punct' and self._isfn():
            self.paren()
            r = ('fn', r)
        return r

    def _isfn(self):
        # function type "T (T, ...)" appears only in calls to vararg/with explicit type
        d, j = 0, self.i
        while True:
            v = self.t[j][1] if j < len(self.t) else ''
            if v == '(': d += 1
            elif v == ')':
                d -= 1
                if d == 0: break
            elif v == '': return False
            j += 1
        nx = self.t[j + 1] if j + 1 < len(self.t) else ('', '')
        return nx[0] == 'id' and nx[1][0] in '@%'

    def types(self, end):
        ts = []
        if self.acc(end): return ts
        while True:
            ts.append(self.type())
            if self.acc(end): return ts
            self.exp(',')

    # ---- values: ('c',int) ('fc',float) ('null',) ('undef',) ('zero',) ('reg',name) ('glob',name)
    #              ('agg',[(T,val)]) ('gep',srcT,(ptrval),[idx]) ('cast',op,val,T,T2) ('str',bytes)
    def value(self, ty):
        k, v = self.next()
        if k == 'id':
            return ('reg', v) if v[0] == '%' else ('glob', v)
        if k == 'num':
            if ty[0] == 'f': return ('fc', parse_fp(v))
            if v.startswith('0x'): return ('c', int(v, 16))
            return ('c', int(v))
        if k == 'str':
            return ('str', unescape(v))
        if k == 'word':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('undef',)
            if v == 'getelementptr':
                self.skip_attrs()
                if self.peek()[1] == 'inrange': self.i += 1; self.paren()
                self.exp('(')
                st = self.type(); self.exp(',')
                pt = self.type(); pv = self.value(pt)
                idx = []
                while self.acc(','):
                    if self.peek()[1] == 'inrange':
                        self.i += 1
                    it = self.type(); idx.append((it, self.value(it)))
                self.exp(')')
                return ('gep', st, pv, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                t1 = self.type(); x = self.value(t1); self.exp('to'); t2 = self.type(); self.exp(')')
                return ('cast', v, x, t1, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'icmp'):
                self.skip_attrs()
                if v == 'icmp': pr = self.next()[1]
                else: pr = None
                self.exp('(')
                t1 = self.type(); a = self.value(t1); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('cbin', v, pr, t1, a, b)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
        if v == '[' or v == '{':
            return ('agg', self.aggs(']' if v == '[' else '}'))
        if v == '<':
            if self.acc('{'):
                r = ('agg', self.aggs('}')); self.exp('>'); return r
            r = ('agg', self.aggs('>')); return r
        raise IRError('value? %r (%r) near %s' % (v, k, ' '.join(z[1] for z in self.t[max(0, self.i - 8):self.i + 6])))

    def aggs(self, end):
        out = []
        if self.acc(end): return out
        while True:
            t = self.type(); out.append((t, self.value(t)))
            if self.acc(end): return out
            self.exp(',')

    def tv(self):
        t = self.type()
        self.skip_attrs()
        if t[0] == 'metadata':
            # skip the metadata operand
            d = 0
            while True:
                v = self.peek()[1]
                if d == 0 and v in (',', ')', ''): break
                if v in ('(', '{'): d += 1
                if v in (')', '}'): d -= 1
                self.i += 1
            return t, ('undef',)
        return t, self.value(t)


def parse_fp(v):
    import struct
    if v.startswith('0xK') or v.startswith('0xL') or v.startswith('0xM') or v.startswith('0xH'):
        return ('raw', v)
    if v.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
    return float(v)


def unescape(s):
    if s.startswith('c'): s = s[1:]
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and i + 2 < len(s) + 1 and re.fullmatch('[0-9A-Fa-f]{2}', s[i + 1:i + 3]):
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        elif s[i] == '\\' and s[i + 1:i + 2] == '\\':
            out.append(92); i += 2
        else:
            out.extend(s[i].encode()); i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x')

    def __init__(self, op, dst=None, ty=None, a=(), x=None):
        self.op, self.dst, self.ty, self.a, self.x = op, dst, ty, a, x

    def __repr__(self): return '%s = %s %s %s %s' % (self.dst, self.op, self.ty, self.a, self.x)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


def parse_instr(toks):
    p = P(toks)
    dst = None
    if p.peek()[0] == 'id' and p.peek(1)[1] == '=':
        dst = p.next()[1]; p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op in BIN:
        p.skip_attrs()
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr(op, dst, t, (a, b))
    if op == 'fneg' or op == 'freeze':
        p.skip_attrs()
        t = p.type(); return Instr(op, dst, t, (p.value(t),))
    if op in CASTS:
        p.skip_attrs()
        t, a = p.tv(); p.exp('to'); t2 = p.type()
        return Instr(op, dst, t2, (a,), t)
    if op in ('icmp', 'fcmp'):
        p.skip_attrs()
        pr = p.next()[1]
        p.skip_attrs()
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr(op, dst, t, (a, b), pr)
    if op == 'load':
        p.skip_attrs()
        if p.acc('atomic'): p.skip_attrs()
        t = p.type(); p.exp(','); pt = p.type(); a = p.value(pt)
        return Instr('load', dst, t, (a,))
    if op == 'store':
        p.skip_attrs()
        if p.acc('atomic'): p.skip_attrs()
        t, a = p.tv(); p.exp(','); pt = p.type(); b = p.value(pt)
        return Instr('store', None, t, (a, b))
    if op == 'alloca':
        p.skip_attrs()
        if p.acc('inalloca'): pass
        t = p.type(); n = None
        if p.acc(',') and p.peek()[1] != 'align':
            nt, n = p.tv()
        return Instr('alloca', dst, t, (), n)
    if op == 'getelementptr':
        p.skip_attrs()
        st = p.type(); p.exp(','); pt, pv = p.tv()
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            idx.append(p.tv())
        return Instr('gep', dst, st, (pv,), idx)
    if op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t); p.exp(','); b = p.next()[1]; p.exp(']')
            inc.append((v, b))
            if not p.acc(','): break
            if p.peek()[0] == 'meta': break
        return Instr('phi', dst, t, (), inc)
    if op == 'select':
        p.skip_attrs()
        ct, c = p.tv(); p.exp(','); t, a = p.tv(); p.exp(','); t2, b = p.tv()
        return Instr('select', dst, t, (c, a, b), ct)
    if op == 'br':
        if p.acc('label'):
            return Instr('jmp', None, None, (), p.next()[1])
        t, c = p.tv(); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
        return Instr('br', None, None, (c,), (a, b))
    if op == 'switch':
        t, v = p.tv(); p.exp(','); p.exp('label'); d = p.next()[1]
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct, cv = p.tv(); p.exp(','); p.exp('label'); cases.append((cv, p.next()[1]))
        return Instr('switch', None, t, (v,), (d, cases))
    if op == 'ret':
        t = p.type()
        if t[0] == 'void': return Instr('ret', None, t, ())
        return Instr('ret', None, t, (p.value(t),))
    if op in ('call', 'invoke'):
        p.skip_attrs()
        t = p.type()
        if t[0] == 'fn': t = t[1]
        p.skip_attrs()
        if p.peek()[1] == 'asm':
            toks = []
            try:
                for _ in range(12):
                    k = p.next()[1]; toks.append(k)
                    if k == '(': break
            except Exception: pass
            empty = dst is None and any(str(k).lstrip('c').startswith('"#') or str(k) in ('""',) for k in toks)
            return Instr('nop' if empty else 'asm', dst, t)
        callee = p.value(('ptr',))
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                args.append(p.tv())
                if p.acc(')'): break
                p.exp(',')
        p.skip_attrs()
        ex = None
        if op == 'invoke':
            while p.peek()[1] != 'to': p.i += 1
            p.exp('to'); p.exp('label'); a = p.next()[1]; p.exp('unwind'); p.exp('label'); b = p.next()[1]
            ex = (a, b)
        return Instr(op, dst, t, (callee, args), ex)
    if op == 'landingpad':
        t = p.type()
        return Instr('landingpad', dst, t, (), [x[1] for x in toks])
    if op == 'resume':
        t, a = p.tv()
        return Instr('resume', None, t, (a,))
    if op == 'unreachable':
        return Instr('unreachable')
    if op == 'extractvalue':
        t, a = p.tv(); idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            idx.append(int(p.next()[1]))
        return Instr('extractvalue', dst, t, (a,), idx)
    if op == 'insertvalue':
        t, a = p.tv(); p.exp(','); t2, b = p.tv(); idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta': break
            idx.append(int(p.next()[1]))
        return Instr('insertvalue', dst, t, (a, b), (idx, t2))
    if op == 'extractelement':
        t, a = p.tv(); p.exp(','); t2, b = p.tv()
        return Instr(op, dst, t, (a, b), t2)
    if op == 'insertelement':
        t, a = p.tv(); p.exp(','); t2, b = p.tv(); p.exp(','); t3, c = p.tv()
        return Instr(op, dst, t, (a, b, c), (t2, t3))
    if op == 'shufflevector':
        t, a = p.tv(); p.exp(','); t2, b = p.tv(); p.exp(','); t3, c = p.tv()
        return Instr(op, dst, t, (a, b, c), (t2, t3))
    if op == 'fence':
        return Instr('nop')
    if op in ('atomicrmw', 'cmpxchg'):
        return Instr('unsupported', dst, None, (), op)
    raise IRError('instruction ' + op)


class Func:
    def __init__(self, name):
        self.name = name
        self.ret = None
        self.params = []  # (type, regname)
        self.blocks = {}  # label -> raw list
        self.order = []
        self.raw = None
        self.parsed = False
        self.rpo = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.globraw = {}
        self.funcs = {}
        self.decls = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
                f = Func(m.group(1))
                f.raw = (ln, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j + 1
                continue
            if ln.startswith('declare'):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1)] = ln
            elif ln.startswith('%'):
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = P(tokenize(m.group(2))).type()
            elif ln.startswith('@'):
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
                self.globraw[m.group(1)] = m.group(2)
            i += 1

    def glob(self, name):
        """-> (type, init value or None, is_alias)"""
        if name in self.globals: return self.globals[name]
        raw = self.globraw[name]
        p = P(tokenize(raw))
        ext = False
        while True:
            k, v = p.peek()
            if v in ('global', 'constant', 'alias'):
                p.next(); break
            if v == 'external': ext = True
            if v == 'thread_local' and p.peek(1)[1] == '(':
                p.next(); p.paren(); continue
            if k == 'eof': raise IRError('global ' + raw[:80])
            p.next()
        if v == 'alias':
            t = p.type(); p.exp(','); t2 = p.type(); r = ('alias', p.value(t2))
        else:
            t = p.type()
            nx = p.peek()
            init = None
            if not (ext or nx[0] == 'eof' or nx[1] == ','):
                init = p.value(t)
            r = (t, init)
        self.globals[name] = r
        return r

    def func(self, name):
        f = self.funcs[name]
        if f.parsed: return f
        hdr, body = f.raw
        toks = tokenize(hdr)
        p = P(toks)
        p.exp('define')
        p.skip_attrs()
        f.ret = p.type()
        p.skip_attrs()
        p.next()
        p.exp('(')
        k = 0
        if not p.acc(')'):
            while True:
                if p.acc('...'): p.exp(')'); break
                t = p.type(); p.skip_attrs()
                if p.peek()[0] == 'id': nm = p.next()[1]
                else: nm = '%' + str(k)
                k += 1
                f.params.append((t, nm))
                if p.acc(')'): break
                p.exp(',')
        # blocks
        cur = None
        j = 0
        first = True
        while j < len(body):
            ln = body[j]
            if not ln.strip() or ln.lstrip().startswith(';'):
                j += 1; continue
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m and not ln.startswith(' '):
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
                j += 1
                continue
            if first:
                cur = '%' + str(k)  # implicit entry label
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
            s = ln
            if re.search(r'\bswitch\b', ln) and ln.rstrip().endswith('['):
                while not body[j].strip().startswith(']'):
                    j += 1
                    s += '\n' + body[j]
            elif re.search(r'\blandingpad\b', ln) or re.search(r'\binvoke\b', ln):
                while j + 1 < len(body) and re.match(r'\s+(to label|cleanup|catch|filter)\b', body[j + 1]):
                    j += 1
                    s += '\n' + body[j]
            f.blocks[cur].append(s)
            j += 1
        for b in f.order:
            f.blocks[b] = [parse_instr(tokenize(strip_meta(s))) for s in f.blocks[b]]
        f.parsed = True
        f.rpo = rpo(f)
        return f


def strip_meta(s):
    s = re.sub(r', !(tbaa|noalias|alias\.scope|range|llvm\.loop|prof|nonnull|noundef|align|srcloc|invariant\.load|dereferenceable|heapallocsite|tbaa\.struct|unpredictable|annotation)(\.[a-z]+)? ![0-9]+', '', s)
    s = re.sub(r', !dbg ![0-9]+', '', s)
    return s


def succs(ins):
    if ins.op == 'jmp': return [ins.x]
    if ins.op == 'br': return [ins.x[0], ins.x[1]]
    if ins.op == 'switch': return [ins.x[0]] + [b for _, b in ins.x[1]]
    if ins.op == 'invoke': return list(ins.x)
    return []


def rpo(f):
    seen, post = set(), []
    st = [(f.order[0], iter(succs(f.blocks[f.order[0]][-1])))]
    seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(f.blocks[s][-1]))))
                break
        else:
            post.append(b); st.pop()
    return {b: i for i, b in enumerate(post[::-1])}


def loops(f):
    """natural loop headers -> set of body blocks (back edges found by dominators)"""
    order = sorted(f.rpo, key=lambda b: f.rpo[b])
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(f.blocks[b][-1]):
            if s in preds: preds[s].append(b)
    dom = {order[0]: {order[0]}}
    allb = set(order)
    for b in order[1:]: dom[b] = allb
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            d = set.intersection(*[dom[p] for p in preds[b]]) | {b} if preds[b] else {b}
            if d != dom[b]:
                dom[b] = d; ch = True
    res = {}
    for b in order:
        for s in succs(f.blocks[b][-1]):
            if s in dom[b]:
                body = res.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(preds[x])
    return res
