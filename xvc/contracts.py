"""Contracts of external functions (LLVM intrinsics, libc/libm, the C++ runtime): every one is an assumption
listed in the evidence of the checks that use it."""
import re, z3
from . import ir
from .sym import *
from .rat import Rat

MATH1 = {'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'fabs', 'floor', 'ceil', 'trunc', 'round'}
_UF = {}
def uf(name, *sorts):
    k = (name, str(sorts))
    if k not in _UF: _UF[k] = z3.Function(name, *sorts)
    return _UF[k]

def m1(fn):
    def c(eng, st, a, inst, env):
        x = a[0]
        def one(x):
            if isinstance(x, Rat):
                if fn == 'fabs':
                    d = eng.decide(st, x.cmp('oge', Rat.const(0)))
                    if d is None: raise NeedFork(x.cmp('oge', Rat.const(0)))
                    return x if d else -x
                return Rat.fn(fn, x)
            if fn == 'sqrt': return z3.fpSqrt(z3.RNE(), x)
            if fn == 'fabs': return z3.fpAbs(x)
            return uf('libm_' + fn, x.sort(), x.sort())(x)
        return VecV(one(y) for y in x) if isinstance(x, VecV) else one(x)
    return c
def mn(fn):
    def c(eng, st, a, inst, env):
        if isinstance(a[0], Rat):
            r = Rat.fn(fn, *a); return r
        return uf('libm_' + fn, *([a[0].sort()] * (len(a) + 1)))(*a)
    return c

def fma(eng, st, a, inst, env):
    f = lambda x, y, z: UNDEF if UNDEF in (x, y, z) else (x * y + z if isinstance(x, Rat) else z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), x, y), z))
    if isinstance(a[0], VecV): return VecV(f(x, y, z) for x, y, z in zip(*a))
    return f(*a)

def nop(eng, st, a, inst, env): return None
def first(eng, st, a, inst, env): return a[0]

def memcpy(eng, st, a, inst, env):
    eng.memcpy(st, a[0], a[1], eng_sext(a[2]), inst); return a[0]
def memmove(eng, st, a, inst, env):
    eng.memcpy(st, a[0], a[1], eng_sext(a[2]), inst, move=True); return a[0]
def memset(eng, st, a, inst, env):
    v = a[1]
    if isinstance(v, BV) and v.w != 8: v = eng.trunc(v, 8)
    eng.memset(st, a[0], v, eng_sext(a[2]), inst); return a[0]
def eng_sext(n):
    if isinstance(n, BV) and n.w < 64: return BV(64, n.c) if n.isc() else bva(simp(z3.ZeroExt(64 - n.w, n.z())))
    return n

def memcmp(eng, st, a, inst, env):
    """memcmp/strncmp over fixed objects or arrays of bytes with constant length"""
    n = a[2]
    if not n.isc() or n.c > 64: raise Unsupported('memcmp of symbolic length')
    lt = eqv = None
    res = BV(32, 0)
    bs = []
    for i in range(n.c):
        x = eng.load(st, Ptr(a[0].obj, a[0].off + i), ir.I(8), inst); y = eng.load(st, Ptr(a[1].obj, a[1].off + i), ir.I(8), inst)
        bs.append((x, y))
    for x, y in bs[::-1]:
        d = bva(simp(z3.ZeroExt(24, x.z()) - z3.ZeroExt(24, y.z())))
        res = merge(eq(x, y), res, d)
    return res

def assume(eng, st, a, inst, env):
    if a[0] is not UNDEF: st.assume(a[0])
def bswap(eng, st, a, inst, env):
    def f(x):
        n = x.w // 8
        if x.isc(): return BV(x.w, int.from_bytes(x.c.to_bytes(n, 'little'), 'big'))
        return bva(simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x.z()) for k in range(n)])))
    return VecV(f(x) for x in a[0]) if isinstance(a[0], VecV) else f(a[0])
def cttz(eng, st, a, inst, env):
    x = a[0]
    if x.isc():
        k = 0
        if x.c == 0: return BV(x.w, x.w)
        while not (x.c >> k) & 1: k += 1
        return BV(x.w, k)
    xz = simp(x.z())
    if xz.decl().kind() == z3.Z3_OP_CONCAT and xz.size() > 5 and all(z3.is_bv_value(c) or c.size() == 1 or c.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(c.arg(1)) and z3.is_bv_value(c.arg(2)) for c in xz.children()):
        # a mask of lanes: the answer is named and characterised
        lanes = [simp(z3.Extract(k, k, xz) == 1) for k in range(x.w)]
        # lanes of several equal bits (a 2-byte lane sets two) : the answer is a multiple of their number
        r = 1
        while 2 * r <= len(lanes) and len(lanes) % (2 * r) == 0 and all(lanes[k].eq(lanes[k - k % (2 * r)]) for k in range(len(lanes))): r *= 2
        n = len(lanes) // r; top = x.w // r
        sw = top.bit_length()
        d = bva(z3.Concat(z3.BitVecVal(0, x.w - sw), eng.fresh_bv(st, 'cttz', sw).z()))
        st.assume(ule(d, BV(x.w, top)) if n == top else Or(ult(d, BV(x.w, n)), eq(d, BV(x.w, top))))
        for k in range(n):
            b = lanes[k * r]
            st.assume(Or(Not(eq(d, BV(x.w, k))), b)); st.assume(Or(ule(d, BV(x.w, k)), Not(b)))
        c = d.scale(r)
        return c
    e = z3.BitVecVal(x.w, x.w)
    for k in range(x.w - 1, -1, -1):
        e = z3.If(z3.Extract(k, k, x.z()) == 1, z3.BitVecVal(k, x.w), e)
    return bva(simp(e))
def ctlz(eng, st, a, inst, env):
    x = a[0]
    if x.isc(): return BV(x.w, x.w - x.c.bit_length())
    e = z3.BitVecVal(x.w, x.w)
    for k in range(x.w): e = z3.If(z3.Extract(k, k, x.z()) == 1, z3.BitVecVal(x.w - 1 - k, x.w), e)
    return bva(simp(e))
def ctpop(eng, st, a, inst, env):
    x = a[0]
    if x.isc(): return BV(x.w, bin(x.c).count('1'))
    if 'pow2' in st.ghost and st.ghost['pow2'].key() == x.key(): return BV(x.w, 1)
    e = z3.BitVecVal(0, x.w)
    for k in range(x.w): e = e + z3.ZeroExt(x.w - 1, z3.Extract(k, k, x.z())) if x.w > 1 else e + x.z()
    return bva(simp(e))
def minmax(pred):
    def c(eng, st, a, inst, env):
        f = lambda x, y: merge(cmp_bv(pred, x, y), x, y)
        return VecV(f(x, y) for x, y in zip(a[0], a[1])) if isinstance(a[0], VecV) else f(a[0], a[1])
    return c
def iabs(eng, st, a, inst, env):
    x = a[0]; return merge(slt(x, BV(x.w, 0)), x.scale(-1), x)
def ovf(kind):
    def c(eng, st, a, inst, env):
        x, y = a
        w = x.w
        sg = kind[0] == 's'; op = kind[1:]
        if x.isc() and y.isc():
            p, q = (x.sc(), y.sc()) if sg else (x.c, y.c)
            r = {'add': p + q, 'sub': p - q, 'mul': p * q}[op]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return Agg([BV(w, r), not (lo <= r <= hi)])
        ext = (z3.SignExt if sg else z3.ZeroExt)(w, x.z()), (z3.SignExt if sg else z3.ZeroExt)(w, y.z())
        r = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q}[op](*ext)
        if op == 'mul' and y.isc() and not sg:
            o = z3.UGT(x.z(), z3.BitVecVal(((1 << w) - 1) // y.c, w)) if y.c else False
            return Agg([x.scale(y.c), o])
        n = eng.binop(op, x, y, st)
        o = r != (z3.SignExt if sg else z3.ZeroExt)(w, z3.Extract(w - 1, 0, r))
        return Agg([n, simp(o)])
    return c
def fsh(eng, st, a, inst, env):
    x, y, k = a
    if not k.isc(): raise Unsupported('symbolic funnel shift')
    w = x.w; k = k.c % w
    left = 'fshl' in inst.x['callee'][2]
    if not k: return x if left else y
    e = z3.Concat(x.z(), y.z())
    lo = w - k if left else k
    return bva(simp(z3.Extract(lo + w - 1, lo, e)))
def vreduce(kind):
    def c(eng, st, a, inst, env):
        v = a[-1] if kind in ('fadd', 'fmul') else a[0]
        r = a[0] if kind in ('fadd', 'fmul') else None
        for x in v: r = x if r is None else eng.binop(kind, r, x, st)
        return r
    return c
def is_const(eng, st, a, inst, env): return False
def objsize(eng, st, a, inst, env): return BV(64, -1)

# x86 vector intrinsics
def movmsk(eng, st, a, inst, env):
    # one bit per lane, kept as a concatenation: tests of single lanes stay readable for the back ends
    bits = []
    for k, x in enumerate(a[0]):
        if x is UNDEF: eng.ob(st, False, 'movemask of an indeterminate lane', str(inst)); raise Path_()
        if isinstance(x, z3.FPRef):
            # the sign bit of a float lane: the stored bits when the lane was read from integer storage
            if x.decl().kind() == z3.Z3_OP_FPA_TO_FP and x.num_args() == 1 and z3.is_bv(x.arg(0)): x = from_z3(x.arg(0))
            else: raise Unsupported('movemask of a computed float lane')
        elif not isinstance(x, BV): raise Unsupported('movemask lane %s' % type(x).__name__)
        bits.append(simp(z3.Extract(x.w - 1, x.w - 1, x.z())) if not x.isc() else z3.BitVecVal((x.c >> (x.w - 1)) & 1, 1))
    if len(bits) < 32: bits.append(z3.BitVecVal(0, 32 - len(bits)))
    return bva(simp(z3.Concat(*bits[::-1])))
def Path_():
    from .exe import Path
    return Path()
def pshufb(eng, st, a, inst, env):
    v, m = a
    out = VecV()
    for k in range(len(v)):
        base = k // 16 * 16
        x = m[k]
        if not x.isc(): raise Unsupported('symbolic pshufb mask')
        out.append(BV(8, 0) if x.c & 0x80 else v[base + (x.c & 15)])
    return out
def permvar8(eng, st, a, inst, env):
    v, m = a
    return VecV(v[x.c & 7] for x in m)

def assert_fail(eng, st, a, inst, env):
    eng.ob(st, False, 'assertion in the source holds', str(inst)); return []
def terminate(eng, st, a, inst, env):
    eng.ob(st, False, 'std::terminate / noexcept violation is not reached', str(inst)); return []
def begin_catch(eng, st, a, inst, env):
    st.caught = st.caught + (st.exc,); st.exc = None
    return Ptr(None, eng.fresh_bv(st, 'excobj', 64))
def end_catch(eng, st, a, inst, env):
    st.caught = st.caught[:-1]
    return None
def rethrow(eng, st, a, inst, env):
    st.exc = st.caught[-1] if st.caught else 'rethrow'
    return [('throw', None, st)]
def throw(eng, st, a, inst, env):
    v = a[1]
    st.exc = v.obj.fn or v.obj.name if isinstance(v, Ptr) and v.obj is not None else 'exc'
    return [('throw', None, st)]
def alloc_exc(eng, st, a, inst, env):
    o = Obj('exception', 'stack', 64); st.mem[o] = Flat()
    return Ptr(o, 0)
def throw_lib(name):
    def c(eng, st, a, inst, env):
        st.exc = name
        return [('throw', None, st)]
    return c
def typeid_for(eng, st, a, inst, env):
    return BV(32, 7)
def guard_acquire(eng, st, a, inst, env): return BV(32, 1)

TABLE = {
    'llvm.lifetime.start': nop, 'llvm.lifetime.end': nop, 'llvm.dbg': nop, 'llvm.experimental.noalias.scope.decl': nop,
    'llvm.assume': assume, 'llvm.expect': first, 'llvm.launder.invariant.group': first, 'llvm.strip.invariant.group': first,
    'llvm.memcpy': memcpy, 'llvm.memmove': memmove, 'llvm.memset': memset, 'llvm.fmuladd': fma, 'llvm.fma': fma,
    'llvm.bswap': bswap, 'llvm.cttz': cttz, 'llvm.ctlz': ctlz, 'llvm.ctpop': ctpop, 'llvm.umin': minmax('ult'), 'llvm.umax': minmax('ugt'),
    'llvm.smin': minmax('slt'), 'llvm.smax': minmax('sgt'), 'llvm.abs': iabs, 'llvm.fshl': fsh, 'llvm.fshr': fsh,
    'llvm.is.constant': is_const, 'llvm.objectsize': objsize, 'llvm.prefetch': nop, 'llvm.donothing': nop,
    'llvm.x86.avx2.pmovmskb': movmsk, 'llvm.x86.sse2.pmovmskb.128': movmsk, 'llvm.x86.sse.movmsk.ps': movmsk, 'llvm.x86.avx.movmsk.ps.256': movmsk, 'llvm.x86.avx.movmsk.pd.256': movmsk, 'llvm.x86.sse2.movmsk.pd': movmsk,
    'llvm.x86.ssse3.pshuf.b.128': pshufb, 'llvm.x86.avx2.pshuf.b': pshufb, 'llvm.x86.avx2.permd': permvar8, 'llvm.x86.avx2.permps': permvar8,
    'llvm.eh.typeid.for': typeid_for, 'llvm.stacksave': lambda e, s, a, i, v: NULL, 'llvm.stackrestore': nop,
    'memcpy': memcpy, 'memmove': memmove, 'memset': memset, 'memcmp': memcmp, 'bcmp': memcmp,
    '__assert_fail': assert_fail, 'abort': assert_fail, 'llvm.trap': assert_fail, '__clang_call_terminate': terminate, '_ZSt9terminatev': terminate,
    '__cxa_begin_catch': begin_catch, '__cxa_end_catch': end_catch, '__cxa_rethrow': rethrow, '__cxa_throw': throw,
    '__cxa_allocate_exception': alloc_exc, '__cxa_free_exception': nop, '__cxa_pure_virtual': assert_fail,
    '_ZSt17__throw_bad_allocv': throw_lib('bad_alloc'), '_ZSt28__throw_bad_array_new_lengthv': throw_lib('bad_array_new_length'),
    '_ZSt20__throw_length_errorPKc': throw_lib('length_error'), '_ZSt24__throw_out_of_range_fmtPKcz': throw_lib('out_of_range'),
    '_ZSt25__throw_bad_function_callv': throw_lib('bad_function_call'),
    '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': nop, '__cxa_guard_abort': nop, 'llvm.invariant.start.p0': lambda e, s, a, i, v: Ptr(None, BV(64, 0)), '__cxa_atexit': lambda e, s, a, i, v: BV(32, 0),
}
for k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
    TABLE['llvm.%s.with.overflow' % k] = ovf(k)
for k in ('add', 'mul', 'and', 'or', 'xor', 'fadd', 'fmul'):
    TABLE['llvm.vector.reduce.' + k] = vreduce(k)
for k in MATH1:
    TABLE[k] = TABLE[k + 'f'] = TABLE['llvm.' + k] = m1(k)
for k in ('pow', 'atan2', 'fmod', 'hypot'):
    TABLE[k] = TABLE[k + 'f'] = mn(k)
TABLE['llvm.pow'] = mn('pow')

def builtin(name):
    n = name.lstrip('@').strip('"')
    if n in TABLE: return TABLE[n]
    if n.startswith('llvm.'):
        parts = n.split('.')
        for k in range(len(parts), 1, -1):
            q = '.'.join(parts[:k])
            if q in TABLE: return TABLE[q]
    return None
