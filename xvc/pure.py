"""Contracts for functions from fixed-size values to fixed-size values (no heap): the whole postcondition is
'every output component equals the specified term of the inputs, and nothing else is written'."""
import ctypes, math, random, struct, json, os, time
from fractions import Fraction
import z3
from . import ir, core, rat
from .sym import *
from .exe import Engine, Path
from .rat import Rat, req

SZ = {'f': 4, 'd': 8, 'i': 4, 'u': 4, 'l': 8, 'ul': 8, 'b': 1, 'c': 1, 'uc': 1, 's': 2, 'us': 2, 'p': 8}
CT = {'f': ctypes.c_float, 'd': ctypes.c_double, 'i': ctypes.c_int32, 'u': ctypes.c_uint32, 'l': ctypes.c_int64, 'ul': ctypes.c_uint64, 'b': ctypes.c_uint8,
      'c': ctypes.c_int8, 'uc': ctypes.c_uint8, 's': ctypes.c_int16, 'us': ctypes.c_uint16}
CPP = {'f': 'float', 'd': 'double', 'i': 'std::int32_t', 'u': 'std::uint32_t', 'l': 'std::int64_t', 'ul': 'std::uint64_t', 'b': 'bool', 'c': 'std::int8_t', 'uc': 'std::uint8_t',
       's': 'std::int16_t', 'us': 'std::uint16_t'}
SIGNED = {'i', 'l', 'c', 's'}
FP = {'f', 'd'}

class SymM:
    """mathematical reading used by the verifier"""
    native = False
    def __init__(s, eng, st): s.eng = eng; s.st = st; s.dens = []
    def const(s, t, v):
        if t in FP: return Rat.const(Fraction(v)) if not isinstance(v, float) else Rat.const(Fraction(v))
        if t == 'b': return BV(8, int(v))
        return BV(8 * SZ[t], int(v))
    def add(s, a, b): return a + b
    def sub(s, a, b): return a - b
    def mul(s, a, b): return a * b if isinstance(a, Rat) else s.eng.binop('mul', a, b, s.st)
    def neg(s, a): return -a if isinstance(a, Rat) else a.scale(-1)
    def div(s, a, b, t):
        if isinstance(a, Rat):
            s.dens.append(Rat.co(b))
            return a / b
        return s.eng.binop('sdiv' if t in SIGNED else 'udiv', a, b, None)
    def fn(s, n, *a):
        if n == 'tan': s.dens.append(Rat.co(Rat.fn('cos', *a)))
        return Rat.fn(n, *a)
    def cast(s, x, f, t):
        if f == t: return x
        if f in FP and t in FP: return x.fptrunc() if (f, t) == ('d', 'f') else x
        if t in FP:
            if x.isc(): return Rat.const(x.sc() if f in SIGNED else x.c)
            w = x.z() if SZ[f] >= 1 else x.z()
            return Rat.sym(rat.i2f_name('s' if f in SIGNED else 'u', simp(w)))
        if f in FP:
            if x.is_const(): return BV(8 * SZ[t], math.trunc(x.const_value()))
            return bva(z3.BitVec('f2i_%s' % x.name(), 8 * SZ[t]))
        fw, tw = 8 * SZ[f], 8 * SZ[t]
        if fw == tw: return x
        if fw > tw: return s.eng.trunc(x, tw)
        return bva(simp((z3.SignExt if f in SIGNED else z3.ZeroExt)(tw - fw, x.z())))
    def lt(s, a, b, t):
        if isinstance(a, Rat): return a.cmp('olt', b)
        return cmp_bv('slt' if t in SIGNED else 'ult', a, b)
    def eq(s, a, b):
        return req(a, b) if isinstance(a, Rat) else eq(a, b)
    def bit(s, b): return b
    def isnz(s, x): return Not(eq(x, BV(x.w, 0)))
    def ite(s, c, a, b):
        """conditional spec value, kept symbolic as a guarded list"""
        return Cond(c, a, b)
    def Not(s, a): return Not(a)
    def And(s, *a): return And(*a)
    def Or(s, *a): return Or(*a)
class Cond:
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b

class NatM:
    native = True
    def const(s, t, v): return v
    def add(s, a, b): return a + b
    def sub(s, a, b): return a - b
    def mul(s, a, b): return a * b
    def neg(s, a): return -a
    def div(s, a, b, t):
        if t in FP: return a / b
        q = abs(a) // abs(b)
        return -q if (a < 0) != (b < 0) else q
    def fn(s, n, *a): return getattr(math, n)(*a)
    def cast(s, x, f, t):
        if t == 'f': return ctypes.c_float(x).value
        if t == 'd': return float(x)
        return CT[t](int(x)).value
    def lt(s, a, b, t): return a < b
    def eq(s, a, b): return a == b
    def bit(s, b): return b
    def isnz(s, x): return x != 0
    def ite(s, c, a, b): return a if c else b
    def Not(s, a): return not a
    def And(s, *a): return all(a)
    def Or(s, *a): return any(a)

class Fn:
    """one function under contract.
    params: list of (name, kind 'in'|'out'|'io'|'val', cpp type, elem type code, count); body: C++ statement(s);
    spec(M, dict name->list) -> dict name->list of expected elements ; pre(M, dict) -> list of conditions"""
    def __init__(s, name, what, params, body, spec, pre=None, tol=None, retbool=False, eqmode=None, noise=None, raw=False):
        s.name = name; s.what = what; s.params = params; s.body = body; s.spec = spec; s.pre = pre
        s.tol = tol; s.noise = noise
    def decl(s):
        ps = []
        for n, k, ct, t, c in s.params:
            if k == 'in': ps.append('const %s& %s' % (ct, n))
            elif k in ('out', 'io'): ps.append('%s& %s' % (ct, n))
            else: ps.append('%s %s' % (ct, n))
        return 'extern "C" void %s(%s) { %s }' % (s.name, ', '.join(ps), s.body)

def symval(name, t, fpmode):
    if t in FP:
        if fpmode == 'real': return Rat.sym(name)
        return z3.FP(name, z3.Float32() if t == 'f' else z3.Float64())
    return bva(z3.BitVec(name, 8 * SZ[t]))

def mkin(st, name, t, n, kind, fpmode):
    o = Obj(name, kind, SZ[t] * n)
    vals = [symval('%s%d' % (name, i), t, fpmode) for i in range(n)]
    f = Flat({i * SZ[t]: (SZ[t], v) for i, v in enumerate(vals)})
    st.mem[o] = f
    if t == 'b':
        for v in vals: st.assume(ule(v, BV(8, 1)))
    return o, vals

def verify_fn(chk, mod, fn, contracts=None, fpmode='real', tol=1e-6, timeout=8000, trunc_identity=True):
    rat.reset()
    rat.TRUNC_IDENTITY[0] = trunc_identity
    eng = Engine(mod, contracts or {}, fpmode=fpmode, timeout=timeout)
    eng.cur = fn.what
    st = State()
    ins = {}; objs = {}; args = []
    for n, k, ct, t, c in fn.params:
        if k == 'val':
            if t == 'b':
                v = bva(z3.BitVec(n + '0', 8)); st.assume(ule(v, BV(8, 1)))
                ins[n] = [v]; args.append(eng.trunc(v, 1))
            else:
                v = symval(n + '0', t, fpmode); ins[n] = [v]; args.append(v)
        elif k == 'out':
            o = Obj(n, 'out', SZ[t] * c); st.mem[o] = Flat(); objs[n] = (o, t, c); args.append(Ptr(o, 0))
        else:
            o, v = mkin(st, n, t, c, 'const' if k == 'in' else 'io', fpmode); ins[n] = v
            args.append(Ptr(o, 0))
            if k == 'io': objs[n] = (o, t, c)
    M = SymM(eng, st)
    if fn.pre:
        for c in fn.pre(M, ins): st.assume(c)
    try:
        if fpmode == 'real':
            # the specified value is defined: the denominators of the specification are non-zero; the code may divide by nothing else
            eng.nonzero = []
            fn.spec(M, ins)
            for d in M.dens:
                if d.is_const(): continue
                st.assume(z3.Not(Rat(d.num).z3() == 0)); eng.nonzero.append(d.num)
        if not eng.feasible(st): chk.vacuity_fail.append(fn.what + ': precondition is unsatisfiable')
        outs = eng.run('@' + fn.name, args, st)
        rets = 0
        for kind, v, s2 in outs:
            if kind != 'ret':
                eng.ob(s2, False, fn.what + ': leaves without an exception'); continue
            rets += 1
            want = fn.spec(SymM(eng, s2), ins)
            for n, exp in want.items():
                o, t, c = objs[n]
                m = s2.mem[o]
                for i, e in enumerate(exp):
                    if e is None: continue
                    got = eng.load_flat(s2, o, m, i * SZ[t], {'f': ir.FpTy('float'), 'd': ir.FpTy('double')}.get(t) if t in FP else ir.I(8 * SZ[t]), None)
                    lab = '%s: post %s[%d]' % (fn.what, n, i)
                    if got is UNDEF:
                        try: eng.ob(s2, False, lab + ' is written')
                        except Path: pass
                        continue
                    try: eng.ob(s2, goal(got, e, fn.tol or tol, t), lab)
                    except Path: pass
        if not rets and not any(o.status != 'proved' for o in eng.obs): chk.vacuity_fail.append(fn.what + ': no returning path')
    except Path: pass
    except (Unsupported, NeedFork, OverflowError) as e:
        chk.tool.append({'unit': fn.what, 'fn': fn.name, 'reason': '%s: %s' % (type(e).__name__, e)})
    ok, n = chk.absorb(eng, fn.what)
    return ok

def goal(got, e, tol, t):
    if isinstance(e, Cond): return And(Implies(e.c, goal(got, e.a, tol, t)), Implies(Not(e.c), goal(got, e.b, tol, t)))
    if isinstance(e, (bool, z3.BoolRef)):
        return eqb(simp(got.z() == 1) if not got.isc() else got.c == 1, e)
    if isinstance(got, Rat): return req(got, e, tol)
    if isinstance(e, z3.FPRef): return z3.Or(got == e, z3.And(z3.fpIsNaN(got), z3.fpIsNaN(e)))
    return eq(got, e)
def eqb(a, b):
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return a == b

# ---------------------------------------------------------------- native replay
def rnd(t, r, mode):
    if t in FP:
        return float(r.choice([0, 1, -1, 2, 3, -2, 0.5, 5, 7, -3])) if mode % 3 == 0 else (float(r.randint(-9, 9)) if mode % 3 == 1 else r.uniform(-4, 4))
    if t == 'b': return r.randint(0, 1)
    w = 8 * SZ[t]
    if mode % 2 == 0: v = r.choice([0, 1, 2, 3, 5, 7, 4, 8, (1 << w) - 1, 1 << (w - 1), 100, 127])
    else: v = r.getrandbits(w)
    return CT[t](v).value

def replay_fn(lib, fn, seed, n=400, ntol=None):
    """run the real function on concrete inputs and compare with the specification; -> dict or None"""
    if not [p for p in fn.params if p[1] != 'out'] and fn.tol: ntol = fn.tol * 2
    r = random.Random(seed)
    f = getattr(lib, fn.name); f.restype = None
    M = NatM()
    for it in range(n):
        ins = {}; bufs = {}; args = []
        for pn, k, ct, t, c in fn.params:
            vals = [rnd(t, r, it) for _ in range(c)]
            if t == 'f': vals = [ctypes.c_float(v).value for v in vals]
            if k == 'val':
                ins[pn] = vals[:1]; args.append(CT[t](vals[0])); continue
            raw = ctypes.create_string_buffer(SZ[t] * c + 64)
            al = (ctypes.addressof(raw) + 31) & ~31
            a = (CT[t] * c).from_address(al)
            a._keep = raw
            if k == 'out':
                for i in range(c): a[i] = 77 if t not in FP else float('nan')
            else:
                for i in range(c): a[i] = vals[i]
                ins[pn] = [a[i] for i in range(c)]
            bufs[pn] = (a, t, c, k); args.append(ctypes.c_void_p(al))
        if it % 4 == 3 and len([b for b in bufs.values() if b[3] == 'in']) > 1:
            pass
        try:
            if fn.pre and not all(fn.pre(M, ins)): continue
            want = fn.spec(M, ins)
        except (ZeroDivisionError, ValueError, OverflowError): continue
        f(*args)
        for pn, exp in want.items():
            a, t, c, k = bufs[pn]
            for i, e in enumerate(exp):
                if e is None: continue
                g = a[i]
                if t in FP:
                    if isinstance(e, bool): e = float(e)
                    tol = ntol or (2e-3 if t == 'f' else 1e-9)
                    bad = not (abs(g - e) <= tol * max(1.0, abs(e), max([abs(x) for v in ins.values() for x in v if isinstance(x, float)] or [1]) ** 2)) and not (g != g and e != e)
                else:
                    e2 = CT[t](int(e)).value
                    bad = g != e2
                if bad:
                    return {'function': fn.what, 'inputs': {x: list(v) for x, v in ins.items()}, 'output': '%s[%d]' % (pn, i), 'got': repr(g), 'expected': repr(e)}
        for pn, (a, t, c, k) in bufs.items():
            if k == 'in' and any(not (x == y or (x != x and y != y)) for x, y in zip([a[i] for i in range(c)], ins[pn])):
                return {'function': fn.what, 'inputs': {x: list(v) for x, v in ins.items()}, 'output': 'input %s was modified' % pn, 'got': [a[i] for i in range(c)], 'expected': ins[pn]}
    return None
