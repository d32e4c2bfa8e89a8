"""Check framework: extraction of the real code to IR, contract checking, native replay, evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, ctypes, traceback, random
import z3
from . import ir
from .sym import *
from .exe import Engine, Path
from .rat import Rat
from . import rat

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XVC_REPO', '/repo')
CLANG = 'clang++'; OPT = '/usr/lib/llvm-18/bin/opt'
PASSES = 'cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify,adce,simplifycfg,loop-simplify,lcssa),globaldce'

class BuildError(Exception): pass

_TMP = None
def tmpdir():
    global _TMP
    if _TMP is None:
        _TMP = os.environ.get('XVC_KEEP') or tempfile.mkdtemp(prefix='xvc.')
        import atexit
        if not os.environ.get('XVC_KEEP'): atexit.register(lambda: shutil.rmtree(_TMP, ignore_errors=True))
    return _TMP

def sh(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode(errors='replace')

INC = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'private'), '-I' + os.path.join(VERIF, 'drivers')]

def extract(name, src, defs=(), flags=('-mavx2',), noinline=()):
    """driver text (which only includes /repo headers and wraps the real functions) -> IR module"""
    d = tmpdir()
    cpp = os.path.join(d, name + '.cpp'); l0 = os.path.join(d, name + '.0.ll'); l1 = os.path.join(d, name + '.1.ll')
    open(cpp, 'w').write(src)
    rc, out = sh([CLANG, '-std=c++20', *INC, *['-D' + x for x in defs], *flags, '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-g0',
                  '-fno-discard-value-names', '-w', '-fno-caret-diagnostics', '-fno-vectorize', cpp, '-o', l0])
    if rc: raise BuildError('clang: ' + '\n'.join(l for l in out.split('\n') if 'error:' in l)[:3000])
    rc, out = sh([OPT, '-S', l0, '-passes=' + PASSES, '-inline-threshold=100000', '-o', l1])
    if rc: raise BuildError('opt: ' + out[-3000:])
    t = open(l1).read()
    m = ir.parse(t) if hasattr(ir, 'parse') else ir.Parser(t).parse()
    m.text_hash = hashlib.sha256(t.encode()).hexdigest()
    m.ninst = sum(len(b.insts) for f in m.funcs.values() if not f.is_decl for b in f.blocks.values())
    return m

def native(name, src, defs=(), flags=('-mavx2',), extra=(), cc='g++'):
    """the same driver compiled natively for replay; -> path of the shared object"""
    d = tmpdir()
    cpp = os.path.join(d, name + '.n.cpp'); so = os.path.join(d, name + '.so')
    open(cpp, 'w').write(src)
    cmd = [cc, '-std=c++20', *INC, *['-D' + x for x in defs], *flags, '-DXV_NATIVE', '-O0', '-g', '-w', '-fPIC', '-shared', cpp, *extra, '-o', so]
    rc, out = sh(cmd + ['-ltbb'])          # <execution> of libstdc++ refers to it
    if rc: rc, out = sh(cmd)
    if rc: raise BuildError('native: ' + out[-3000:])
    return so

def extract_units(name, pre, units, decl, defs=(), flags=('-mavx2',)):
    """extract pre + every unit; a unit that no longer compiles (while the headers do) is a violation of its own: the program that
    uses the interface as documented is rejected. -> (module, units that compile, [(unit, compiler error)])"""
    try: return extract(name, pre + '\n'.join(decl(u) for u in units) + '\n', defs, flags), units, []
    except BuildError as e: first = e
    from concurrent.futures import ThreadPoolExecutor
    d = tmpdir()
    def one(k, cc='clang++'):
        cpp = os.path.join(d, '%s.u%s.cpp' % (name, k))
        open(cpp, 'w').write(pre + (decl(units[k]) if k is not None else '') + '\n')
        fl = ['-fno-caret-diagnostics', '-ferror-limit=4'] if cc == 'clang++' else ['-fno-diagnostics-show-caret', '-fmax-errors=4']
        rc, out = sh([cc, '-std=c++20', *INC, *['-D' + x for x in defs], *flags, '-fsyntax-only', '-w', *fl, cpp])
        return rc, out
    if one(None)[0]: raise first
    with ThreadPoolExecutor(8) as ex: r = list(ex.map(one, range(len(units))))
    bad = []
    for k, (rc, out) in enumerate(r):
        if rc and one(k, 'g++')[0]: bad.append((units[k], '\n'.join([l for l in out.split('\n') if 'error:' in l or 'note: ' in l][:8])))
    good = [u for k, u in enumerate(units) if not r[k][0]]
    if not bad or not good: raise first
    return extract(name, pre + '\n'.join(decl(u) for u in good) + '\n', defs, flags), good, bad
def compile_failures(R, bad, decl, pre):
    for u, err in bad:
        if os.environ.get('XVC_DEBUG'): print('   DOES NOT COMPILE', u.what, err)
        R['failed'].append({'unit': u.what, 'obligation': 'a program that uses the interface as specified compiles', 'status': 'refuted', 'detail': {'compiler': err}, 'where': 'clang++ and g++ -std=c++20'})
        R['obs'] += 1
        R['native'].append({'unit': u.what, 'error': 'clang++ and g++ reject the program', 'compiler': err, 'driver': (pre + decl(u))[-6000:]})

class Check:
    def __init__(s, pid, tier, seed=1):
        s.pid = pid; s.tier = tier; s.seed = seed; s.t0 = time.time()
        s.obs = 0; s.discharged = 0; s.failed = []      # failed: dict(unit, label, detail)
        s.tool = []                                     # units that ended in a tool limit
        s.functions = set(); s.externals = set(); s.assume = []; s.units = []; s.solver_time = 0.0; s.queries = 0
        s.bounded = []; s.loops = 0; s.unrolled = 0; s.ninst = 0; s.findings_hit = []; s.configs = []
        s.replays = []; s.labels = {}
        s.known = load_known(pid)
        s.vac = 0; s.summaries = 0; s.replay_dir = os.path.join(VERIF, 'evidence', 'replay')
        s.native_runs = 0; s.vacuity_fail = []
    def assume_(s, *t):
        for x in t:
            if x not in s.assume: s.assume.append(x)
    def absorb(s, eng, unit):
        ok = True
        n = len(eng.obs)
        for o in eng.obs:
            s.obs += 1
            s.labels[o.label] = s.labels.get(o.label, 0) + 1
            if o.status == 'proved': s.discharged += 1
            else:
                ok = False
                s.failed.append({'unit': unit, 'obligation': o.label, 'status': o.status, 'detail': o.detail, 'where': str(o.where)[:300]})
        s.solver_time += eng.solver.stats.time; s.queries += eng.solver.stats.queries
        s.functions |= eng.functions; s.externals |= eng.contracts_used
        s.unrolled += eng.unrolled
        s.summaries += getattr(eng, 'nsum', 0)
        return ok, n

def load_known(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out

def demangle(names):
    names = sorted(n.lstrip('@') for n in names)
    if not names: return []
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE, timeout=60)
        return p.stdout.decode().split('\n')
    except Exception: return names
