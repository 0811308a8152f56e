"""Compile harness translation units against /repo's current headers, to IR and to native code."""
import os, re, subprocess, hashlib, shutil, ctypes, tempfile
from . import ir

REPO = os.environ.get('VF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(HERE, 'harness')
COMMON = ['-std=c++20', '-DNDEBUG', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE', '-DEIGEN_NO_CPUID', '-ffp-contract=off',
          '-fno-math-errno', '-I', HARN, '-I', os.path.join(REPO, 'include'), '-I', '/usr/include/eigen3']
FP = 'function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,gvn,dse,adce,simplifycfg,instcombine<no-verify-fixpoint>)'
LIGHT = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)'
PIPE = '%s,cgscc(inline,%s),globaldce,%s,cgscc(inline),globaldce,%s,%s,globalopt,globaldce' % (LIGHT, LIGHT, FP, FP, FP)


class BuildError(Exception):
    pass


def workdir():
    d = os.environ.get('VF_TMP') or tempfile.mkdtemp(prefix='vf_', dir=os.environ.get('TMPDIR', '/tmp'))
    os.makedirs(d, exist_ok=True)
    return d


def sh(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    if r.returncode:
        errs = [l for l in r.stderr.splitlines() if 'error' in l][:6] or r.stderr.splitlines()[-6:]
        raise BuildError('%s: %s' % (cmd[0], ' | '.join(x[:300] for x in errs)))
    return r


def build_ir(src, wd, defs=(), keep=(), pipe=None, entries=None, extra=()):
    """-> (Module, path).  keep: regexes (POSIX, on mangled names) of functions whose bodies are dropped and that are
    replaced by an assumed contract."""
    base = os.path.splitext(os.path.basename(src))[0] + '_' + hashlib.md5(repr((defs, keep, extra)).encode()).hexdigest()[:6]
    ll = os.path.join(wd, base + '.ll')
    sh(['clang++'] + COMMON + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w', '-S', '-emit-llvm'] +
       ['-D' + d for d in defs] + list(extra) + [src, '-o', ll])
    if keep:
        l2 = os.path.join(wd, base + '.k.ll')
        names = re.findall(r'^define [^@\n]*(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', open(ll).read(), re.M)
        pats = [re.compile(k) for k in keep]
        drop = [n[1:].strip('"') for n in names if any(p.search(n[1:].strip('"')) for p in pats)]
        if drop:
            cmd = ['llvm-extract', '--delete', '-S', ll, '-o', l2]
            for n in drop: cmd += ['--func=' + n]
            sh(cmd)
            ll = l2
    out = os.path.join(wd, base + '.opt.ll')
    # internalise everything but the entry points so that unused code disappears
    ents = entries or re.findall(r'^define [^@\n]*@(h_[A-Za-z0-9_]+)\(', open(ll).read(), re.M)
    sh(['opt', '-S', '-inline-threshold=1000000', '-inlinehint-threshold=1000000', '-inlinecold-threshold=1000000',
        '-internalize-public-api-list=' + ','.join(ents),
        '-passes=internalize,globaldce,' + (pipe or PIPE), ll, '-o', out])
    text = open(out).read()
    return ir.Module(text), out


def build_native(src, wd, defs=(), opt='-O1', extra=()):
    base = os.path.splitext(os.path.basename(src))[0] + '_' + hashlib.md5(repr((defs, extra)).encode()).hexdigest()[:6]
    so = os.path.join(wd, base + '.so')
    sh(['clang++'] + COMMON + [opt, '-w', '-shared', '-fPIC'] + ['-D' + d for d in defs] + list(extra) + [src, '-o', so])
    return so
