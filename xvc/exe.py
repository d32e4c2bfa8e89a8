"""Path-sensitive symbolic executor over the extracted LLVM IR: generates proof obligations and discharges them with z3.
Calls to functions with a body are executed; calls to contract functions use the contract (xvc.contracts)."""
import z3, itertools, re, math
from . import ir
from .sym import *
from .sym import _ATOM
from .rat import Rat, i2f_name

class Path(Exception): pass
class Terminate(Exception): pass

class Obligation:
    __slots__ = ('fn', 'label', 'status', 'detail', 'where')
    def __init__(s, fn, label, status, detail, where): s.fn, s.label, s.status, s.detail, s.where = fn, label, status, detail, where

MAXUNROLL = 80
# shared by all engines of a process: states built by one engine are used by another
SKC = itertools.count(); UIDS = {}; UF = {}

def ctor_entries(g):
    out = []
    def walk(v):
        if isinstance(v, (list, tuple)):
            if len(v) == 3 and v[0] in ('struct', 'agg', 'cstruct') and isinstance(v[2], (list, tuple)):
                fs = [x[2] for x in v[2] if isinstance(x, tuple) and x[0] == 'g']
                if fs: out.append((None, fs[0], fs[1] if len(fs) > 1 else None)); return
            for x in v: walk(x)
    walk(g['init'])
    return out
class Engine:
    def __init__(s, mod, contracts, fpmode='real', timeout=20000):
        s.mod = mod; s.contracts = contracts; s.solver = Solver(timeout); s.fpmode = fpmode
        s.obs = []; s.mute = 0; s.cur = '?'; s.globals = {}; s.fnobjs = {}
        s.depth = 0; s.maxdepth = 40; s.paths = 0; s.functions = set(); s.loops_done = {}; s.unrolled = 0
        s.uids = UIDS; s.uf = UF; s.notes = set(); s.bounded = False; s.maxpaths = 4000
        s.contracts_used = set(); s.skc = SKC; s.fams = {}; s.maxunroll = MAXUNROLL
        s.cx_hooks = []; s.nosum = False; s.const_exit = False; s.bounded_depth = None

    # ------------------------------------------------------------ obligations
    def ob(s, st, goal, label, where=''):
        """proof obligation; afterwards the goal is assumed on this path"""
        if s.mute:
            if goal is False:
                raise Path()
            st.assume(goal, ob=True); return True
        r, d = s.solver.prove_hard(st.facts(), goal)
        det = None
        if r != 'proved':
            det = s.explain(st, goal, r, d)
        s.obs.append(Obligation(s.cur, label, r, det, where))
        if r != 'proved' and goal is False:
            raise Path()
        st.assume(goal)
        if r == 'proved' and not isinstance(goal, bool) and (' inside the allocation ' in label or label.endswith('is initialised')):
            SCHEMA[goal.get_id()] = goal           # proved from the other facts: the first attempts do without it
        return r == 'proved'
    def explain(s, st, goal, r, d):
        if r == 'refuted':
            try:
                items = []
                for x in d.decls():
                    v = d[x]
                    t = str(v)
                    if len(t) < 200: items.append('%s = %s' % (x.name(), t))
                return {'solver': 'sat (counterexample)', 'model': items[:60], 'goal': str(goal)[:600]}
            except Exception as e:
                return {'solver': 'sat', 'err': repr(e)}
        return {'solver': 'unknown', 'reason': str(d), 'goal': str(goal)[:600]}

    def decide(s, st, c, to=4000):
        if isinstance(c, bool): return c
        cs = simp(c)
        if z3.is_true(cs): return True
        if z3.is_false(cs): return False
        f = st.facts()
        if s.solver.check(f + [cs], to) == z3.unsat: return False
        if s.solver.check(f + [z3.Not(cs)], to) == z3.unsat: return True
        return None
    def feasible(s, st):
        return s.solver.check(st.facts(), 5000) != z3.unsat

    # ------------------------------------------------------------ fresh symbols
    def fresh(s, st, name, sort):
        """fresh constant; inside a summarised loop a function of the iteration numbers"""
        if st.fresh_ctx:
            its = [t for _, t in st.fresh_ctx]
            key = (tuple(u for u, _ in st.fresh_ctx), name, st.fcount.get(name, 0))
            st.fcount[name] = key[2] + 1
            k2 = (key, str(sort))
            if k2 not in s.uf:
                s.uf[k2] = z3.Function('%s!L%d' % (name, len(s.uf)), *([z3.BitVecSort(64)] * len(its)), sort)
            return s.uf[k2](*its)
        return z3.Const('%s!%d' % (name, next(s.skc)), sort)
    def fresh_bv(s, st, name, w): return bva(s.fresh(st, name, z3.BitVecSort(w)))
    def fresh_of(s, st, name, val):
        if isinstance(val, BV): return s.fresh_bv(st, name, val.w)
        if isinstance(val, Ptr): return Ptr(val.obj, s.fresh_bv(st, name, 64))
        if isinstance(val, bool) or isinstance(val, z3.BoolRef): return s.fresh(st, name, z3.BoolSort())
        if isinstance(val, z3.ExprRef): return s.fresh(st, name, val.sort())
        if isinstance(val, (VecV, Agg)): return type(val)(s.fresh_of(st, name, x) for x in val)
        if val is UNDEF: return UNDEF
        if isinstance(val, Rat): return Rat.sym('%s!%d' % (name, next(s.skc)))
        raise Unsupported('fresh_of %r' % (val,))

    # ------------------------------------------------------------ values
    def fconst(s, ty, txt):
        k = ir.res(ty).k
        import struct
        if txt.startswith('0x'):
            if txt[2] in 'KLMHR':
                if txt[2] == 'K':
                    b = int(txt[3:], 16)
                    sg = b >> 79; e = (b >> 64) & 0x7fff; mnt = b & ((1 << 64) - 1)
                    from fractions import Fraction
                    f = Fraction(mnt, 1) * Fraction(2) ** (e - 16383 - 63)
                    return s.fpc(ty, -f if sg else f)
                raise Unsupported('fp const ' + txt)
            d = struct.unpack('>d', bytes.fromhex(txt[2:].rjust(16, '0')))[0]
        else: d = float(txt)
        return s.fpc(ty, d)
    def fpc(s, ty, d):
        if s.fpmode == 'real':
            from fractions import Fraction
            if isinstance(d, float) and (math.isinf(d) or math.isnan(d)):
                return Rat.sym('special_' + repr(d))
            return Rat.const(Fraction(d))
        k = ir.res(ty).k
        return z3.FPVal(d, z3.Float32() if k == 'float' else z3.Float64())

    def zero(s, ty):
        ty = ir.res(ty)
        if isinstance(ty, ir.IntTy): return False if ty.w == 1 else BV(ty.w, 0)
        if isinstance(ty, ir.PtrTy): return NULL
        if isinstance(ty, ir.FpTy): return s.fpc(ty, 0.0)
        if isinstance(ty, ir.VecTy): return VecV(s.zero(ty.el) for _ in range(ty.n))
        if isinstance(ty, ir.ArrTy): return Agg(s.zero(ty.el) for _ in range(ty.n))
        if isinstance(ty, ir.StructTy): return Agg(s.zero(e) for e in ty.els)
        raise Unsupported('zero %r' % ty)
    def undef(s, ty):
        ty = ir.res(ty)
        if isinstance(ty, ir.VecTy): return VecV(UNDEF for _ in range(ty.n))
        if isinstance(ty, ir.ArrTy): return Agg(s.undef(ty.el) for _ in range(ty.n))
        if isinstance(ty, ir.StructTy): return Agg(s.undef(e) for e in ty.els)
        return UNDEF

    def val(s, v, env, st):
        k, ty, x = v
        if k == 'l':
            if x not in env: raise Unsupported('undefined local ' + x)
            return env[x]
        if k == 'c':
            t = ir.res(ty)
            return bool(x & 1) if t.w == 1 else BV(t.w, x)
        if k == 'fp': return s.fconst(ty, x)
        if k == 'null': return NULL
        if k == 'undef': return s.undef(ty)
        if k == 'zero': return s.zero(ty)
        if k == 'agg':
            els = [s.val(e, env, st) for e in x]
            return VecV(els) if isinstance(ir.res(ty), ir.VecTy) else Agg(els)
        if k == 'g': return s.globalptr(x, st)
        if k == 'ce':
            op, a, ops = x
            if op == 'getelementptr':
                p = s.val(ops[0], env, st)
                return s.gep(p, a, ops[1:], env, st)
            if op in ('bitcast', 'addrspacecast'): return s.val(ops[0], env, st)
            if op == 'ptrtoint': return s.p2i(s.val(ops[0], env, st))
            if op == 'inttoptr': return s.i2p(s.val(ops[0], env, st))
        raise Unsupported('value %r' % (v,))

    def globalptr(s, name, st):
        g = s.mod.globals.get(name)
        if g is None or name in s.mod.funcs:
            if name not in s.fnobjs:
                o = Obj(name, 'fn'); o.fn = name; s.fnobjs[name] = o
            return Ptr(s.fnobjs[name], 0)
        if g['alias']:
            return s.val(g['alias'] if isinstance(g['alias'], tuple) else ('g', ir.PTR, g['alias']), {}, st)
        if name not in s.globals:
            o = Obj(name, 'global', ir.size_of(g['ty']) if g['ty'] is not None else 8)
            o.align = g.get('align') or 1
            s.globals[name] = o
        o = s.globals[name]
        if o not in st.mem:
            f = Flat()
            st.mem[o] = f
            if g['init'] is not None and (g['const'] or not g['ext']):
                try:
                    s.store_flat(f, 0, g['ty'], s.val(g['init'], {}, st))
                except Unsupported: pass
            c = None if g['const'] else s.ctor_of(name)
            if c: s.run_ctor(c, st)
        return Ptr(o, 0)
    def ctor_of(s, name):
        """the function of llvm.global_ctors that initialises this global"""
        if not hasattr(s.mod, 'ctors'):
            s.mod.ctors = {}
            g = s.mod.globals.get('@llvm.global_ctors')
            todo = [e[1] for e in ctor_entries(g)] if g else []
            seen = set()
            while todo:
                fn = todo.pop()
                if fn in seen or fn not in s.mod.funcs: continue
                seen.add(fn)
                for b in s.mod.funcs[fn].blocks.values():
                    for i in b.insts:
                        if i.op in ('call', 'invoke') and isinstance(i.x, dict) and i.x.get('callee') and i.x['callee'][0] == 'g': todo.append(i.x['callee'][2])
                        for o in i.ops:
                            if i.op == 'store' and isinstance(o, tuple) and o[0] == 'g': s.mod.ctors.setdefault(o[2], fn)
        return s.mod.ctors.get(name)
    def run_ctor(s, fn, st):
        """static initialisation runs before the scenario: its effect is part of the initial state"""
        st2 = st.copy()
        r = s.exec_fn(s.mod.funcs[fn], [], st2)
        if len(r) != 1 or r[0][0] != 'ret': raise Unsupported('static initialiser with several outcomes')
        for o, m in r[0][2].mem.items():
            if o.kind == 'global': st.mem[o] = m

    def p2i(s, p):
        if isinstance(p, BV): return p
        if p is UNDEF: return UNDEF
        if p.obj is None: return p.off
        return BV(64, 0, {_aid_(p.obj): 1}) + p.off
    def i2p(s, v):
        if isinstance(v, Ptr): return v
        if v is UNDEF: return UNDEF
        objs = [(a, k) for a, k in v.t.items() if a in ADDR]
        if len(objs) == 1 and objs[0][1] == 1:
            o = ADDR[objs[0][0]]
            return Ptr(o, v - BV(64, 0, {objs[0][0]: 1}))
        return Ptr(None, v)

    def gep(s, p, ty, idxs, env, st):
        if p is UNDEF: raise Unsupported('gep on undef')
        off = p.off
        first = True
        t = ty
        for ix in idxs:
            if first:
                i = s.val(ix, env, st)
                off = off + s.sext64(i).scale(ir.size_of(t)); first = False
                continue
            rt = ir.res(t)
            if isinstance(rt, ir.StructTy):
                k = ix[2]
                off = off + ir.struct_layout(rt)[0][k]
                t = rt.els[k]
            elif isinstance(rt, (ir.ArrTy, ir.VecTy)):
                i = s.val(ix, env, st)
                t = rt.el
                off = off + s.sext64(i).scale(ir.size_of(t))
            else: raise Unsupported('gep type')
        return Ptr(p.obj, off)
    def sext64(s, i):
        if i is UNDEF: raise Unsupported('undef index')
        if isinstance(i, bool): return BV(64, 1 if i else 0)
        if i.w == 64: return i
        if i.isc(): return BV(64, i.sc())
        return bva(simp(z3.SignExt(64 - i.w, i.z())))

    # ------------------------------------------------------------ memory access
    def split(s, st, obj, off, w=None):
        """byte offset -> (element index, constant field offset)"""
        w = w or obj.stride
        if w == 1: return off, 0
        half = 1 << 63
        t = {}
        for a, k in off.t.items():
            ks = sgn(k, 64)
            if ks % w:
                raise Unsupported('offset %s not a multiple of element size %d in %s' % (off, w, obj))
            t[a] = (ks // w) % (1 << 64)
        cs = off.sc()
        f = cs % w
        return BV(64, (cs - f) // w, t), f

    def chk_access(s, st, p, size, what, inst):
        if p is UNDEF: s.ob(st, False, '%s through an indeterminate pointer' % what, str(inst)); raise Path()
        if p.obj is None:
            s.ob(st, False, '%s through a null/invalid pointer' % what, str(inst)); raise Path()
        if p.obj.kind == 'fn': raise Unsupported('access to function')
        m = st.mem.get(p.obj)
        if m is None: raise Unsupported('object %r has no state' % p.obj)
        if 'conc' in st.ghost and p.obj is st.ghost['conc'].q: conc.member(s, st, p, size, what, inst)
        if m.freed is not False:
            s.ob(st, Not(m.freed), '%s to released memory of %s' % (what, p.obj.name), str(inst))
        return m

    def load(s, st, p, ty, inst=None, align=None):
        rt = ir.res(ty)
        size = ir.size_of(rt)
        m = s.chk_access(st, p, size, 'load', inst)
        if align and align >= 16 and isinstance(rt, ir.VecTy): s.chk_align(st, p, align, inst)
        if isinstance(m, Flat):
            if not p.off.isc():
                return s.flat_sym(st, p, ty, inst, None)
            return s.load_flat(st, p.obj, m, p.off.sc(), ty, inst)
        return s.load_seq(st, p, m, rt, inst)
    def chk_align(s, st, p, align, inst):
        base = p.obj.align
        if base >= align:
            if all(sgn(k, 64) % align == 0 for k in p.off.t.values()):
                g = p.off.c % align == 0
            else:
                g = eq(bva(p.off.z() & z3.BitVecVal(align - 1, 64)), BV(64, 0))
        else:
            a = s.p2i(p).z()
            g = simp((a & z3.BitVecVal(align - 1, 64)) == 0)
            if z3.is_true(g): g = True
        s.ob(st, g, 'address of a %d-byte aligned vector access is aligned' % align, str(inst))

    def flat_sym(s, st, p, ty, inst, storeval):
        """access to a fixed-size object at a symbolic offset: fork over the possible offsets"""
        size = ir.size_of(ty)
        m = st.mem[p.obj]
        total = p.obj.size
        g = 0
        for k in p.off.t.values():
            g = math.gcd(g, abs(sgn(k, 64)))
        g = g or 1
        c0 = p.off.sc() % g
        cands = [o for o in range(c0, total - size + 1, g)]
        if len(cands) > 64: raise Unsupported('symbolic offset into large fixed object')
        s.ob(st, Or(*[eq(p.off, BV(64, o)) for o in cands]), 'access inside %s' % p.obj.name, str(inst))
        for o in cands:
            c = eq(p.off, BV(64, o))
            d = s.decide(st, c)
            if d is True:
                q = Ptr(p.obj, o)
                if storeval is not None: s.store(st, q, ty, storeval[0], inst); return
                return s.load(st, q, ty, inst)
            if d is None: raise NeedFork(c)
        raise Path()

    def load_flat(s, st, obj, m, off, ty, inst):
        rt = ir.res(ty)
        if isinstance(rt, ir.VecTy):
            es = ir.size_of(rt.el)
            return VecV(s.load_flat(st, obj, m, off + i * es, rt.el, inst) for i in range(rt.n))
        if isinstance(rt, ir.ArrTy):
            es = ir.size_of(rt.el)
            return Agg(s.load_flat(st, obj, m, off + i * es, rt.el, inst) for i in range(rt.n))
        if isinstance(rt, ir.StructTy):
            offs = ir.struct_layout(rt)[0]
            return Agg(s.load_flat(st, obj, m, off + o, e, inst) for o, e in zip(offs, rt.els))
        size = ir.size_of(rt)
        if obj.size is not None and (off < 0 or off + size > obj.size):
            s.ob(st, False, 'load out of bounds of %s' % obj.name, str(inst)); raise Path()
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            return s.conv(c[1], rt)
        if c is None and not any(o < off + size and off < o + sz for o, (sz, _) in m.cells.items()):
            if obj.init is not None:
                v = obj.init(off, size, rt)
                if v is not None:
                    m.cells[off] = (size, v)      # lazily materialised input
                    return s.conv(v, rt)
            return UNDEF
        # byte-wise composition
        if isinstance(rt, (ir.IntTy, ir.PtrTy)):
            bs = []
            for i in range(size):
                b = None
                for o, (sz, v) in m.cells.items():
                    if o <= off + i < o + sz:
                        v2 = v
                        if isinstance(v2, Ptr): v2 = s.p2i(v2)
                        if isinstance(v2, bool) or isinstance(v2, z3.BoolRef): v2 = s.b2bv(v2, 8 * sz)
                        if not isinstance(v2, BV):
                            if v2 is UNDEF: b = UNDEF; break
                            raise Unsupported('byte access to %r' % (v2,))
                        k = off + i - o
                        b = z3.Extract(8 * k + 7, 8 * k, v2.z())
                        break
                if b is None:
                    if obj.init is not None:
                        v2 = obj.init(off + i, 1, ir.I(8)); m.cells[off + i] = (1, v2); b = v2.z()
                    else: b = UNDEF
                bs.append(b)
            if any(b is UNDEF for b in bs): return UNDEF
            e = simp(z3.Concat(*bs[::-1]) if len(bs) > 1 else bs[0])
            v = bva(e)
            return s.conv(v, rt)
        if isinstance(rt, ir.FpTy): return s.conv(s.load_flat(st, obj, m, off, ir.I(8 * size), inst), rt)
        raise Unsupported('mixed-size load at %d of %s' % (off, obj.name))

    def b2bv(s, b, w):
        if isinstance(b, bool): return BV(w, int(b))
        return bva(z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))

    def conv(s, v, rt):
        """reinterpret a stored value for the accessed type"""
        if v is UNDEF: return v
        if isinstance(rt, ir.IntTy):
            if rt.w == 1:
                if isinstance(v, BV): return v.c & 1 == 1 if v.isc() else simp(z3.Extract(0, 0, v.z()) == 1)
                return v
            if isinstance(v, (bool, z3.BoolRef)): return s.b2bv(v, (rt.w + 7) // 8 * 8)
            if isinstance(v, Ptr): return s.p2i(v)
            if isinstance(v, BV):
                if v.w != rt.w:
                    if v.w > rt.w: return s.trunc(v, rt.w)
                return v
            if isinstance(v, z3.FPRef): return bva(z3.fpToIEEEBV(v))
            if isinstance(v, Rat):
                raise Unsupported('bit pattern of a real-valued float')
        if isinstance(rt, ir.PtrTy):
            if isinstance(v, BV): return s.i2p(v)
            return v
        if isinstance(rt, ir.FpTy):
            if isinstance(v, BV):
                if s.fpmode == 'real':
                    if v.isc():
                        import struct
                        return s.fpc(rt, struct.unpack('<f', struct.pack('<I', v.c))[0] if rt.k == 'float' else struct.unpack('<d', struct.pack('<Q', v.c))[0])
                    raise Unsupported('float from bits')
                return z3.fpBVToFP(v.z(), z3.Float32() if rt.k == 'float' else z3.Float64())
            return v
        return v

    def seq_inb(s, st, p, m, idx, n, what, inst):
        """elements idx .. idx+n-1 lie inside the allocation"""
        if isinstance(n, int): n = BV(64, n)
        if 'alloc' in m.meta:
            g = m.planes['alloc'].read(idx)[0]
            s.ob(st, g, '%s touches a node that is allocated' % what, str(inst))
            return
        g = And(ule(idx, m.cap), ule(n, m.cap - idx)) if not (n.isc() and n.c == 1) else ult(idx, m.cap)
        s.ob(st, g, '%s inside the allocation %s' % (what, p.obj.name), str(inst))
        if 'conc' in st.ghost and p.obj is st.ghost['conc'].buf: conc.slot(s, st, p, idx, n, what, inst)

    def load_seq(s, st, p, m, rt, inst):
        if isinstance(rt, ir.StructTy):
            offs = ir.struct_layout(rt)[0]
            return Agg(s.load_seq(st, Ptr(p.obj, p.off + o), m, ir.res(e), inst) for o, e in zip(offs, rt.els))
        if isinstance(rt, ir.ArrTy):
            es = ir.size_of(rt.el)
            return Agg(s.load_seq(st, Ptr(p.obj, p.off + i * es), m, ir.res(rt.el), inst) for i in range(rt.n))
        size = ir.size_of(rt)
        idx, f = s.split(st, p.obj, p.off)
        w = p.obj.stride
        if isinstance(rt, ir.VecTy) or size > w:
            if f: raise Unsupported('misaligned wide load')
            n = size // w
            if n * w != size: raise Unsupported('wide load size')
            s.seq_inb(st, p, m, idx, n, 'load', inst)
            els = [s.rd(st, p, m, ('d', 0, w), idx + i, inst) for i in range(n)]
            if isinstance(rt, ir.VecTy):
                es = ir.size_of(rt.el)
                if es == w: return VecV(s.conv(e, ir.res(rt.el)) for e in els)
                if es > w:
                    k = es // w
                    return VecV(bva(simp(z3.Concat(*[els[j * k + q].z() for q in range(k)][::-1]))) for j in range(rt.n))
                k = w // es
                out = VecV()
                for e in els:
                    for q in range(k): out.append(s.trunc_at(e, 8 * es * q, 8 * es))
                return out
            return s.conv(bva(simp(z3.Concat(*[e.z() for e in els][::-1]))), rt)
        s.seq_inb(st, p, m, idx, 1, 'load', inst)
        key = ('d', f, size)
        if key not in m.planes:
            for (k, f2, sz2) in [k for k in m.planes if isinstance(k, tuple) and k[0] == 'd']:
                if f2 <= f and f + size <= f2 + sz2:
                    v = s.rd(st, p, m, ('d', f2, sz2), idx, inst)
                    if isinstance(v, Ptr): v = s.p2i(v)
                    return s.conv(s.trunc_at(v, 8 * (f - f2), 8 * size), rt)
        return s.conv(s.rd(st, p, m, key, idx, inst), rt)
    def trunc_at(s, v, lo, w):
        if v is UNDEF: return v
        if v.isc(): return BV(w, v.c >> lo)
        return bva(simp(z3.Extract(lo + w - 1, lo, v.z())))

    def rd(s, st, p, m, key, idx, inst):
        if key not in m.planes:
            s.ob(st, False, 'read of never-written storage of %s' % p.obj.name, str(inst)); raise Path()
        live, v = m.planes[key].read(idx, lambda c: s.decide(st, c))
        if live is not True:
            s.ob(st, live, 'value read from %s is initialised' % p.obj.name, str(inst))
        return v

    def store(s, st, p, ty, v, inst=None, align=None):
        rt = ir.res(ty)
        size = ir.size_of(rt)
        m = s.chk_access(st, p, size, 'store', inst)
        if align and align >= 16 and isinstance(rt, ir.VecTy): s.chk_align(st, p, align, inst)
        if p.obj.kind == 'const':
            s.ob(st, False, 'store into read-only input %s' % p.obj.name, str(inst))
        if isinstance(m, Flat):
            if not p.off.isc():
                return s.flat_sym(st, p, ty, inst, (v,))
            off = p.off.sc()
            if off < 0 or (p.obj.size is not None and off + size > p.obj.size):
                s.ob(st, False, 'store out of bounds of %s' % p.obj.name, str(inst)); raise Path()
            m = st.w(p.obj)
            s.store_flat(m, off, ty, v)
            return
        s.store_seq(st, p, rt, v, inst)

    def store_flat(s, m, off, ty, v):
        rt = ir.res(ty)
        if isinstance(rt, (ir.VecTy, ir.ArrTy)):
            es = ir.size_of(rt.el)
            if v is UNDEF: v = [UNDEF] * rt.n
            for i in range(rt.n): s.store_flat(m, off + i * es, rt.el, v[i])
            return
        if isinstance(rt, ir.StructTy):
            if v is UNDEF: v = [UNDEF] * len(rt.els)
            for o, e, x in zip(ir.struct_layout(rt)[0], rt.els, v): s.store_flat(m, off + o, e, x)
            return
        size = ir.size_of(rt)
        s.clear_cells(m, off, size)
        if v is UNDEF: return
        if isinstance(v, (bool, z3.BoolRef)): v = s.b2bv(v, 8)
        m.cells[off] = (size, v)
    def clear_cells(s, m, off, size):
        for o in [o for o, (sz, _) in m.cells.items() if o < off + size and off < o + sz]:
            sz, v = m.cells.pop(o)
            if o < off or o + sz > off + size:
                # keep the parts outside
                if isinstance(v, Ptr): v = s.p2i(v)
                if isinstance(v, BV):
                    for b in range(sz):
                        if not (off <= o + b < off + size):
                            m.cells[o + b] = (1, s.trunc_at(v, 8 * b, 8))

    def store_seq(s, st, p, rt, v, inst):
        if isinstance(rt, ir.StructTy):
            for o, e, x in zip(ir.struct_layout(rt)[0], rt.els, v):
                s.store_seq(st, Ptr(p.obj, p.off + o), ir.res(e), x, inst)
            return
        if isinstance(rt, ir.ArrTy) and rt.n == 0: return
        m = st.mem[p.obj]
        size = ir.size_of(rt)
        idx, f = s.split(st, p.obj, p.off)
        w = p.obj.stride
        if isinstance(rt, (ir.VecTy, ir.ArrTy)) and not (f + size <= w):
            es = ir.size_of(rt.el)
            n = size // w
            if f: raise Unsupported('misaligned wide store')
            s.seq_inb(st, p, m, idx, n, 'store', inst)
            flat = []
            for e in v:
                if isinstance(e, Ptr): e = s.p2i(e)
                if es == w: flat.append(e)
                elif es > w:
                    for q in range(es // w): flat.append(s.trunc_at(e, 8 * w * q, 8 * w))
                else: flat.append(e)
            if es < w:
                k = w // es
                flat = [bva(simp(z3.Concat(*[x.z() for x in flat[j * k:(j + 1) * k]][::-1]))) for j in range(n)]
            m = st.w(p.obj)
            pl = m.planes.get(('d', 0, w), Plane(raw_base))
            for i, e in enumerate(flat): pl = pl.point(idx + i, True, e)
            m.planes[('d', 0, w)] = pl
            return
        if isinstance(rt, (ir.VecTy, ir.ArrTy)):
            es = ir.size_of(rt.el)
            for i, e in enumerate(v): s.store_seq(st, Ptr(p.obj, p.off + i * es), ir.res(rt.el), e, inst)
            return
        if size > w: raise Unsupported('wide scalar store')
        s.seq_inb(st, p, m, idx, 1, 'store', inst)
        m = st.w(p.obj)
        key = ('d', f, size)
        if isinstance(v, (bool, z3.BoolRef)): v = s.b2bv(v, 8)
        if v is UNDEF:
            if key in m.planes: m.planes[key] = m.planes[key].point(idx, False, UNDEF)
            return
        pl = m.planes.get(key)
        if pl is None: pl = Plane(raw_base)
        m.planes[key] = pl.point(idx, True, v)

    def memcpy(s, st, d, sr, n, inst, move=False):
        if n is UNDEF: raise Unsupported('memcpy undef len')
        dz = s.decide(st, eq(n, BV(64, 0)))
        if dz is True: return
        if dz is None: raise NeedFork(eq(n, BV(64, 0)))
        ms = s.chk_access(st, sr, n, 'memcpy read', inst); md = s.chk_access(st, d, n, 'memcpy write', inst)
        if isinstance(ms, Flat) and isinstance(md, Flat):
            if not n.isc() and d.off.isc() and sr.off.isc(): return s.memcpy_split(st, d, sr, n, inst, move)
            if n.isc() and not (d.off.isc() and sr.off.isc()):
                # one case per possible position
                for q in (d, sr):
                    if q.off.isc(): continue
                    if q.obj.size is None: raise Unsupported('memcpy symbolic on fixed objects')
                    g = 0
                    for _, k in q.off.t.items(): g = math.gcd(g, abs(sgn(k, 64)))
                    g = g or 1
                    cands = list(range(q.off.sc() % g, q.obj.size - n.c + 1, g))
                    if len(cands) > 64: raise Unsupported('memcpy at a symbolic place of a large fixed object')
                    s.ob(st, Or(*[eq(q.off, BV(64, o)) for o in cands]), 'memcpy inside %s' % q.obj.name, str(inst))
                    for o in cands:
                        c = eq(q.off, BV(64, o)); r = s.decide(st, c)
                        if r is True:
                            d2, s2 = (Ptr(d.obj, o), sr) if q is d else (d, Ptr(sr.obj, o))
                            return s.memcpy(st, d2, s2, n, inst, move)
                        if r is None: raise NeedFork(c)
                    raise Path()
            if not (n.isc() and d.off.isc() and sr.off.isc()): raise Unsupported('memcpy symbolic on fixed objects')
            n, do, so = n.c, d.off.sc(), sr.off.sc()
            for o, k, nm in ((d.obj, do, 'write'), (sr.obj, so, 'read')):
                if k < 0 or (o.size is not None and k + n > o.size):
                    s.ob(st, False, 'memcpy %s out of bounds of %s' % (nm, o.name), str(inst)); raise Path()
            cells = []
            covered = set()
            for o, (sz, v) in list(ms.cells.items()):
                if o >= so and o + sz <= so + n:
                    cells.append((o - so, sz, v)); covered.update(range(o, o + sz))
                elif o < so + n and so < o + sz:
                    if isinstance(v, Ptr): v = s.p2i(v)
                    for b in range(sz):
                        if so <= o + b < so + n:
                            cells.append((o + b - so, 1, s.trunc_at(v, 8 * b, 8))); covered.add(o + b)
            if sr.obj.init is not None and len(covered) < n:
                for (o, sz, rt) in getattr(sr.obj, 'layout', []):
                    if o >= so and o + sz <= so + n and o not in covered:
                        v = sr.obj.init(o, sz, rt)
                        if v is not None:
                            ms.cells[o] = (sz, v); cells.append((o - so, sz, v))
            md = st.w(d.obj)
            s.clear_cells(md, do, n)
            for o, sz, v in cells: md.cells[do + o] = (sz, v)
            return
        if isinstance(ms, Seq) and isinstance(md, Seq) and sr.obj.stride == d.obj.stride:
            w = d.obj.stride
            si, sf = s.split(st, sr.obj, sr.off); di, df = s.split(st, d.obj, d.off)
            if sf == 0 and df == 0:
                if n.isc() and n.c % w == 0: cnt = BV(64, n.c // w)
                else:
                    cnt, rest = s.split(st, d.obj, n)
                    if rest: raise Unsupported('memcpy of a partial element')
                s.seq_inb(st, sr, ms, si, cnt, 'memcpy read', inst)
                s.seq_inb(st, d, md, di, cnt, 'memcpy write', inst)
                if any(k[0] == 'e' for k in ms.planes) or any(k[0] == 'e' for k in md.planes):
                    s.ob(st, False, 'bytewise copy of an object that is not trivially copyable', str(inst))
                if not move and sr.obj is d.obj:
                    s.ob(st, Or(ule(si + cnt, di), ule(di + cnt, si)), 'memcpy ranges do not overlap', str(inst))
                md = st.w(d.obj)
                for key, pl in ms.planes.items():
                    if key == 'alloc': continue
                    dst = md.planes.get(key, Plane(raw_base))
                    if cnt.isc() and cnt.c <= 8:
                        for q in range(cnt.c):
                            l, v = pl.read(si + q, lambda c: s.decide(st, c))
                            dst = dst.point(di + q, l, v)
                        md.planes[key] = dst
                        continue
                    md.planes[key] = dst.rng(lambda i, di=di, cnt=cnt: inrange(di, i, cnt),
                                             lambda i, pl=pl, di=di, si=si: pl.read(i - di + si))
                return
            if n.isc() and sr.obj.stride == d.obj.stride and sf == df and n.c <= w:
                v = s.fieldcopy(st, ms, sr, si, sf, n.c)
                s.seq_inb(st, sr, ms, si, 1, 'memcpy read', inst); s.seq_inb(st, d, md, di, 1, 'memcpy write', inst)
                md = st.w(d.obj)
                for key, lv in v:
                    md.planes[key] = md.planes.get(key, Plane(raw_base)).point(di, *lv)
                return
        if not n.isc() and (isinstance(ms, Flat) or isinstance(md, Flat)): return s.memcpy_split(st, d, sr, n, inst, move)
        if n.isc():
            # element <-> fixed object
            if isinstance(ms, Seq) and isinstance(md, Flat) and d.off.isc():
                w = sr.obj.stride
                si, sf = s.split(st, sr.obj, sr.off)
                out = []
                k = 0
                while k < n.c:
                    ii = si + (sf + k) // w; ff = (sf + k) % w
                    s.seq_inb(st, sr, ms, ii, 1, 'memcpy read', inst)
                    for key in list(ms.planes):
                        if key != 'alloc' and key[0] == 'd' and key[1] >= ff and key[1] + key[2] <= ff + (n.c - k):
                            lv = ms.planes[key].read(ii, lambda c: s.decide(st, c))
                            if s.decide(st, lv[0]) is not False:
                                out.append((k + key[1] - ff, key[2], lv[1]))
                    k += w - ff
                md = st.w(d.obj)
                s.clear_cells(md, d.off.sc(), n.c)
                for o, sz, v in out:
                    if v is not UNDEF: md.cells[d.off.sc() + o] = (sz, v)
                return
            if isinstance(ms, Flat) and isinstance(md, Seq) and sr.off.isc():
                w = d.obj.stride
                di, df = s.split(st, d.obj, d.off)
                if (sr.obj.init is not None) and not any(sr.off.sc() <= o < sr.off.sc() + n.c for o in ms.cells):
                    for (o, sz, rt) in getattr(sr.obj, 'layout', []):
                        if sr.off.sc() <= o and o + sz <= sr.off.sc() + n.c:
                            ms.cells[o] = (sz, sr.obj.init(o, sz, rt))
                cells = [(o - sr.off.sc(), sz, v) for o, (sz, v) in ms.cells.items() if sr.off.sc() <= o and o + sz <= sr.off.sc() + n.c]
                s.seq_inb(st, d, md, di, (df + n.c + w - 1) // w, 'memcpy write', inst)
                md = st.w(d.obj)
                for o, sz, v in cells:
                    ii = di + (df + o) // w; key = ('d', (df + o) % w, sz)
                    md.planes[key] = md.planes.get(key, Plane(raw_base)).point(ii, True, v)
                return
        raise Unsupported('memcpy shape: %s' % inst)
    def memcpy_split(s, st, d, sr, n, inst, move):
        """a copy of symbolic length from or into a small fixed-size object: one case per length"""
        lim = None
        for q in (d, sr):
            if isinstance(st.mem[q.obj], Flat):
                if not q.off.isc() or q.obj.size is None: raise Unsupported('memcpy shape: %s' % inst)
                k = q.obj.size - q.off.sc()
                lim = k if lim is None else min(lim, k)
        if lim > 64: raise Unsupported('memcpy of symbolic length into a large fixed object')
        s.ob(st, ule(n, BV(64, max(lim, 0))), 'memcpy inside the fixed-size object', str(inst))
        for k in range(1, lim + 1):
            c = eq(n, BV(64, k)); r = s.decide(st, c)
            if r is True: return s.memcpy(st, d, sr, BV(64, k), inst, move)
            if r is None: raise NeedFork(c)
        raise Path()
    def fieldcopy(s, st, ms, sr, si, sf, n):
        out = []
        for key, pl in ms.planes.items():
            if key != 'alloc' and key[0] == 'd' and key[1] >= sf and key[1] + key[2] <= sf + n:
                out.append((key, pl.read(si, lambda c: s.decide(st, c))))
        return out

    def memset(s, st, d, v, n, inst):
        m = s.chk_access(st, d, n, 'memset', inst)
        if isinstance(m, Flat) and n.isc() and d.off.isc() and v.isc():
            off = d.off.sc()
            if off < 0 or (d.obj.size is not None and off + n.c > d.obj.size):
                s.ob(st, False, 'memset out of bounds', str(inst)); raise Path()
            m = st.w(d.obj)
            s.clear_cells(m, off, n.c)
            i = 0
            if v.c == 0:
                m.cells.update({off + i: (1, BV(8, 0)) for i in range(n.c)}) if n.c <= 4096 else None
            else:
                m.cells.update({off + i: (1, v) for i in range(n.c)})
            return
        if isinstance(m, Seq) and n.isc() and n.c <= 64 and v.isc():
            w = d.obj.stride
            di, df = s.split(st, d.obj, d.off)
            done = False
            for key in list(m.planes):
                if key != 'alloc' and key[0] == 'd' and key[1] >= df and key[1] + key[2] <= df + n.c and n.c <= w:
                    done = True
                    mm = st.w(d.obj)
                    b = v.c
                    mm.planes[key] = mm.planes[key].point(di, True, BV(8 * key[2], int.from_bytes(bytes([b]) * key[2], 'little')))
            if done or d.obj.kind == 'heap': return
        raise Unsupported('memset shape')

    # ------------------------------------------------------------ integer ops
    def trunc(s, v, w):
        if v is UNDEF: return v
        if isinstance(v, VecV): return VecV(s.trunc(x, w) for x in v)
        if w == 1:
            return bool(v.c & 1) if v.isc() else simp(z3.Extract(0, 0, v.z()) == 1)
        if v.isc(): return BV(w, v.c)
        return bva(simp(z3.Extract(w - 1, 0, v.z())))

    def binop(s, op, a, b, st, flags=()):
        if isinstance(a, VecV): return VecV(s.binop(op, x, y, st, flags) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF: return UNDEF
        if op[0] == 'f':
            return s.fop(op, a, b, st)
        if isinstance(a, Ptr): a = s.p2i(a)
        if isinstance(b, Ptr): b = s.p2i(b)
        if isinstance(a, (bool, z3.BoolRef)):
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, bool): return Not(a) if b else a
                if isinstance(a, bool): return Not(b) if a else b
                return z3.Xor(a, b)
            if op == 'mul': return And(a, b)
            raise Unsupported('i1 ' + op)
        w = a.w
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul':
            if b.isc(): return a.scale(b.c)
            if a.isc(): return b.scale(a.c)
            x, y = a.z(), b.z()
            if x.get_id() > y.get_id(): x, y = y, x
            return bva(x * y)
        if a.isc() and b.isc():
            return BV(w, s.cbin(op, a, b, w))
        if op == 'shl':
            if b.isc():
                return a.scale(1 << b.c) if b.c < w else UNDEF
            return bva(a.z() << b.z())
        if op in ('udiv', 'sdiv', 'lshr', 'ashr') and b.isc():
            k = b.c if op.endswith('div') else (1 << b.c)
            ks = b.sc() if op == 'sdiv' else k
            if k == 1: return a
            if ks > 0 and a.t and all(sgn(c, w) % k == 0 for c in a.t.values()) and a.sc() % k == 0 and st is not None:
                q = BV(w, a.sc() // k, {x: (sgn(c, w) // k) % (1 << w) for x, c in a.t.items()})
                # exact division when q*k does not wrap
                lim = (1 << w) // k
                if op in ('sdiv', 'ashr'):
                    g = And(sle(BV(w, -(lim // 2)), q), slt(q, BV(w, lim // 2)))
                else: g = ult(q, BV(w, lim))
                if s.decide(st, g) is True: return q
        if op in ('ashr', 'lshr', 'sdiv', 'udiv', 'srem', 'urem') and b.isc() and b.c and len(a.t) == 1:
            # a shift of a choice is the choice of the shifts
            (q, kq), = a.t.items()
            e = _ATOM[q]
            if kq == 1 and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                ch = [s.binop(op, from_z3(e.arg(i)) + BV(w, a.c), b, st, flags) for i in (1, 2)]
                if ch[0] is not UNDEF and ch[1] is not UNDEF: return merge(e.arg(0), ch[0], ch[1])
        if op == 'ashr' and b.isc() and b.c < w and st is not None and not a.isc() and s.decide(st, sle(BV(w, 0), a)) is True:
            return s.binop('lshr', a, b, st, flags)
        if op == 'sdiv' and b.isc() and 0 < b.sc() and st is not None and not a.isc() and 'watch' in st.ghost:
            c = sle(BV(w, 0), a); d = s.decide(st, c)
            if d is None: raise NeedFork(c)
            if d is False: return s.binop('udiv', -a, b, st, flags).scale(-1)
        if op in ('sdiv', 'srem') and b.isc() and 0 < b.sc() and st is not None and not a.isc() and s.decide(st, sle(BV(w, 0), a)) is True:
            return s.binop('u' + op[1:], a, b, st, flags)
        x, y = a.z(), b.z()
        if st is not None and w == 64 and 'pow2' in st.ghost and op in ('and', 'urem'):
            cap = st.ghost['pow2']
            for p, q in ((a, b), (b, a)):
                if q.key() == (cap - 1 if op == 'and' else cap).key(): return mkring(p, cap)
                if op == 'urem': break
        if op == 'and':
            if b.isc():
                if b.c == 0: return BV(w, 0)
                if b.c == (1 << w) - 1: return a
            if a.isc() and not b.isc(): return s.binop('and', b, a, st)
            # (linear & mask): atoms whose coefficient is a multiple of the mask+1 vanish
            if b.isc() and (b.c & (b.c + 1)) == 0:
                m = b.c + 1
                t = {q: c % m for q, c in a.t.items() if c % m and not (q in ADDR and (ADDR[q].align * c) % m == 0)}
                if not t: return BV(w, a.c & b.c)
                a2 = BV(w, a.c & b.c, t); x = a2.z()
            return bva(simp(x & y))
        f = {'udiv': z3.UDiv, 'sdiv': lambda p, q: p / q, 'urem': z3.URem, 'srem': z3.SRem, 'lshr': z3.LShR,
             'ashr': lambda p, q: p >> q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op]
        if op in ('udiv', 'sdiv', 'urem', 'srem') and st is not None:
            s.ob(st, Not(eq(b, BV(w, 0))), 'division by zero', op)
        return bva(simp(f(x, y)))
    def cbin(s, op, a, b, w):
        x, y, m = a.c, b.c, (1 << w) - 1
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if op == 'shl': return x << y if y < w else 0
        if op == 'lshr': return x >> y if y < w else 0
        if op == 'ashr': return a.sc() >> min(y, w - 1)
        if y == 0: raise Unsupported('constant division by zero')
        if op == 'udiv': return x // y
        if op == 'urem': return x % y
        sx, sy = a.sc(), b.sc()
        q = abs(sx) // abs(sy)
        if (sx < 0) != (sy < 0): q = -q
        if op == 'sdiv': return q
        if op == 'srem': return sx - q * sy
        raise Unsupported(op)

    nonzero = None      # polynomials known to be non-zero (the denominators of the specification); None: divisions are not checked
    def check_den(s, b, st):
        p = b.num
        if p and all(m == () for m in p): return
        def prop(p, q):
            if set(p) != set(q): return False
            k = None
            for m in p:
                if k is None: k = p[m] / q[m]
                elif p[m] != k * q[m]: return False
            return True
        if p:
            if any(prop(p, q) for q in s.nonzero): return
            if len(p) == 1 and all(any(prop({((a, 1),): 1}, q) or (len(q) == 1 and a in dict(list(q)[0])) for q in s.nonzero) for m in p for a, _ in m): return
        if s.ob(st, z3.Not(Rat(p).z3() == 0) if p else False, s.cur + ': no division by zero'): s.nonzero.append(p)

    def fop(s, op, a, b, st=None):
        if isinstance(a, Rat) or isinstance(b, Rat):
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if s.nonzero is not None: s.check_den(Rat.co(b), st)
                return a / b
            raise Unsupported(op)
        rm = z3.RNE()
        return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, a, b)

    def icmp(s, pred, a, b, st):
        if isinstance(a, VecV): return VecV(s.icmp(pred, x, y, st) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, BV): a = s.i2p(a)
            if isinstance(b, BV): b = s.i2p(b)
            if a.obj is b.obj:
                if a.obj is not None and a.obj.linear_only and pred not in ('eq', 'ne'):
                    raise Unsupported('ordering of node addresses')
                return cmp_bv(pred, a.off, b.off)
            if pred in ('eq', 'ne'):
                if a.obj is None or b.obj is None:
                    o, n = (a, b) if b.obj is None else (b, a)
                    if n.isnull():
                        r = eq(o.off, o.obj.nullable) if o.obj.nullable is not None else False
                    else: r = eq(s.p2i(a), s.p2i(b))
                else:
                    r = False
                    if a.obj.nullable is not None and b.obj.nullable is not None:
                        r = And(eq(a.off, a.obj.nullable), eq(b.off, b.obj.nullable))
                return r if pred == 'eq' else Not(r)
            if a.isnull() or b.isnull():
                # order against null
                if a.isnull(): return {'ult': True, 'ule': True, 'ugt': False, 'uge': False}.get(pred, None)
                return {'ult': False, 'ule': False, 'ugt': True, 'uge': True}.get(pred, None)
            return cmp_bv(pred, s.p2i(a), s.p2i(b))
        if isinstance(a, (bool, z3.BoolRef)):
            x = (a == b) if isinstance(a, bool) and isinstance(b, bool) else None
            if pred in ('eq', 'ne'):
                if x is None: x = simp(b_(a) == b_(b))
                return x if pred == 'eq' else Not(x)
            a, b = s.b2bv(a, 1), s.b2bv(b, 1)
        return cmp_bv(pred, a, b)

    def fcmp(s, pred, a, b, st):
        if isinstance(a, VecV): return VecV(s.fcmp(pred, x, y, st) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Rat) or isinstance(b, Rat):
            return a.cmp(pred, b)
        if pred == 'true': return True
        if pred == 'false': return False
        if pred == 'ord': return z3.And(z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b)))
        if pred == 'uno': return z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        f = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pred[1:]]
        r = f(a, b)
        if pred[0] == 'o':
            if pred == 'one': return z3.And(r, z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b)))
            return r
        return z3.Or(r, z3.fpIsNaN(a), z3.fpIsNaN(b))

    def cast(s, op, v, fty, tty, st):
        f, t = ir.res(fty), ir.res(tty)
        if op == 'bitcast':
            return s.bitcast(v, f, t)
        if isinstance(v, VecV): return VecV(s.cast(op, x, f.el, t.el, st) for x in v)
        if v is UNDEF: return v
        if op == 'trunc': return s.trunc(v, t.w)
        if op in ('zext', 'sext'):
            if isinstance(v, (bool, z3.BoolRef)):
                if isinstance(v, bool): return BV(t.w, (1 if op == 'zext' else -1) if v else 0)
                return bva(z3.If(v, z3.BitVecVal(1 if op == 'zext' else -1, t.w), z3.BitVecVal(0, t.w)))
            if v.isc(): return BV(t.w, v.c if op == 'zext' else v.sc())
            return bva(simp((z3.ZeroExt if op == 'zext' else z3.SignExt)(t.w - v.w, v.z())))
        if op == 'ptrtoint': return s.p2i(v) if t.w == 64 else s.trunc(s.p2i(v), t.w)
        if op == 'inttoptr': return s.i2p(v)
        if op == 'addrspacecast': return v
        if op in ('fpext', 'fptrunc'):
            if isinstance(v, Rat):
                return v if op == 'fpext' else v.fptrunc()
            return z3.fpFPToFP(z3.RNE(), v, z3.Float32() if t.k == 'float' else z3.Float64())
        if op in ('sitofp', 'uitofp'):
            if s.fpmode == 'real':
                if isinstance(v, bool): v = BV(1, int(v))
                if isinstance(v, z3.BoolRef):
                    d = s.decide(st, v) if st is not None else None
                    if d is None: raise NeedFork(v)
                    return Rat.const(-int(d) if op == 'sitofp' else int(d))
                if not v.isc():
                    for a in v.t:
                        e = ATOM(a)
                        c = find_ite(e)
                        if c is not None:
                            d = s.decide(st, c)
                            if d is None: raise NeedFork(c)
                            e2 = simp(z3.substitute(v.z(), (c, z3.BoolVal(d))))
                            return s.cast(op, from_z3(e2), fty, tty, st)
                if v.isc(): return Rat.const(v.sc() if op == 'sitofp' else v.c)
                return Rat.sym(i2f_name(op[0], simp(v.z())))
            if isinstance(v, (bool, z3.BoolRef)): v = s.b2bv(v, 1)
            return (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(z3.RNE(), v.z(), z3.Float32() if t.k == 'float' else z3.Float64())
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, Rat):
                if v.is_const():
                    return BV(t.w, math.trunc(v.const_value()))
                return bva(z3.BitVec('f2i_%s' % v.name(), t.w))
            return bva((z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(t.w)))
        raise Unsupported(op)

    def bitcast(s, v, f, t):
        if v is UNDEF: return s.undef(t)
        if isinstance(f, ir.PtrTy) and isinstance(t, ir.PtrTy): return v
        if repr(f) == repr(t): return v
        # to list of elements
        src = list(v) if isinstance(f, ir.VecTy) else [v]
        fe = ir.res(f.el) if isinstance(f, ir.VecTy) else f
        te = ir.res(t.el) if isinstance(t, ir.VecTy) else t
        def bits(x, ty):
            if x is UNDEF: return UNDEF
            if isinstance(x, (bool, z3.BoolRef)): return s.b2bv(x, 1)
            if isinstance(x, Ptr): return s.p2i(x)
            if isinstance(x, z3.FPRef): return bva(z3.fpToIEEEBV(x))
            if isinstance(x, Rat):
                if x.is_const() and x.const_value() == 0: return BV(32 if ty.k == 'float' else 64, 0)
                raise Unsupported('bits of real')
            return x
        fw = fe.w if isinstance(fe, ir.IntTy) else ir.size_of(fe) * 8
        tw = te.w if isinstance(te, ir.IntTy) else ir.size_of(te) * 8
        if isinstance(fe, ir.FpTy) and isinstance(te, ir.FpTy) and fw == tw:
            return v
        b = [bits(x, fe) for x in src]
        if fw == tw: out = b
        elif fw > tw:
            out = []
            for x in b:
                for k in range(fw // tw): out.append(UNDEF if x is UNDEF else s.trunc_at(x, k * tw, tw))
        else:
            k = tw // fw
            out = []
            for j in range(len(b) // k):
                ch = b[j * k:(j + 1) * k]
                if any(x is UNDEF for x in ch): out.append(UNDEF)
                else: out.append(bva(simp(z3.Concat(*[x.z() for x in ch][::-1]))))
        def un(x):
            if x is UNDEF: return x
            if isinstance(te, ir.IntTy) and te.w == 1: return bool(x.c & 1) if x.isc() else simp(x.z() == 1)
            return s.conv(x, te)
        out = [un(x) for x in out]
        return VecV(out) if isinstance(t, ir.VecTy) else out[0]

    # ------------------------------------------------------------ control
    def run(s, fname, args, st):
        """execute a function symbolically; -> list of outcomes (kind, value, state)"""
        f = s.mod.funcs[fname]
        s.functions.add(fname)
        return s.exec_fn(f, args, st)

    def exec_fn(s, f, args, st):
        s.depth += 1
        if s.depth > s.maxdepth:
            s.depth -= 1
            raise Unsupported('recursion depth in ' + f.name)
        try:
            if getattr(f, 'irreducible', False): raise Unsupported('irreducible CFG')
            ir.find_loops(f)
            env = {}
            for (t, n, a), v in zip(f.params, args): env[n] = v
            allocas = []
            outs, _, _ = s.run_blocks(f, [(f.order[0], None, env, st)], None)
            return outs
        finally:
            s.depth -= 1

    def run_blocks(s, f, work, region):
        """-> (returns/throws, backedges, exits)"""
        cexit = {}
        outs, back, exits = [], [], []
        loops = f.loops
        work = list(work)
        first = True
        n = 0
        while work:
            b, prev, env, st = work.pop()
            n += 1
            if n > s.maxpaths: raise Unsupported('too many paths in ' + f.name)
            if region is not None and not first:
                if b == region.header: back.append((prev, env, st)); continue
                if b not in region.blocks: exits.append((b, prev, env, st)); continue
            if b in loops and not (region is not None and first and b == region.header) and (prev is None or prev not in loops[b].blocks):
                first = False
                from .loops import handle_loop
                o, ex = handle_loop(s, f, loops[b], prev, env, st)
                outs += o
                work += ex
                continue
            first = False
            o, nx = s.exec_block(f, b, prev, env, st)
            outs += o
            work += nx
            if region is not None and nx:
                t = f.blocks[b].insts[-1]
                if t.op == 'br' and t.ops and any(x not in region.blocks for x in t.x):
                    v = t.ops[0]
                    # an exit that is decided by constants on every path of the iteration
                    cexit[b] = cexit.get(b, True) and len(nx) == 1 and nx[0][0] in region.blocks and v[0] == 'l' and isinstance(nx[0][2].get(v[2]), bool)
        if any(cexit.values()): s.const_exit = True
        return outs, back, exits

    def phis(s, blk, prev, env, st):
        new = {}
        for i in blk.insts:
            if i.op != 'phi': break
            for v, lab in i.x:
                if lab == prev:
                    new[i.dst] = s.val(v, env, st); break
            else: raise Unsupported('phi without incoming %s' % prev)
        env.update(new)

    def exec_block(s, f, b, prev, env, st, skip_phis=False):
        blk = f.blocks[b]
        env = dict(env)
        if prev is not None and not skip_phis: s.phis(blk, prev, env, st)
        return s.exec_insts(f, blk, 0, env, st)

    def exec_insts(s, f, blk, k, env, st):
        outs, nxt = [], []
        stack = [(k, env, st)]
        while stack:
            k, env, st = stack.pop()
            try:
                while True:
                    i = blk.insts[k]
                    if i.op == 'phi': k += 1; continue
                    r = s.step(f, blk, i, env, st)
                    if r is None: k += 1; continue
                    if r[0] == 'br':
                        nxt += r[1]; break
                    if r[0] == 'out':
                        outs += r[1]; break
                    if r[0] == 'fork':       # list of (env,st) continuing at k+1
                        for e2, s2 in r[1]: stack.append((k + 1, e2, s2))
                        nxt += r[2]; outs += r[3]
                        break
            except NeedFork as nf:
                c = nf.cond
                st2 = st.copy(); env2 = dict(env)
                st.assume(c); st2.assume(Not(c))
                if s.feasible(st): stack.append((k, env, st))
                if s.feasible(st2): stack.append((k, env2, st2))
            except Path:
                pass
        return outs, nxt

    def branch(s, st, env, cond, tb, fb, cur):
        if cond is UNDEF:
            s.ob(st, False, 'branch on an indeterminate value', cur); raise Path()
        d = s.decide(st, cond)
        if d is True: return [(tb, cur, env, st)]
        if d is False: return [(fb, cur, env, st)]
        st2 = st.copy()
        st.assume(cond); st2.assume(Not(cond))
        s.paths += 1
        return [(tb, cur, env, st), (fb, cur, dict(env), st2)]

    def step(s, f, blk, i, env, st):
        op = i.op
        V_ = lambda v: s.val(v, env, st)
        if op in ir.BIN:
            env[i.dst] = s.binop(op, V_(i.ops[0]), V_(i.ops[1]), st, i.x)
        elif op == 'icmp': env[i.dst] = s.icmp(i.x, V_(i.ops[0]), V_(i.ops[1]), st)
        elif op == 'fcmp':
            r = s.fcmp(i.x, V_(i.ops[0]), V_(i.ops[1]), st)
            env[i.dst] = r
        elif op in ir.CAST: env[i.dst] = s.cast(op, V_(i.ops[0]), i.ops[0][1], i.ty, st)
        elif op == 'fneg':
            v = V_(i.ops[0])
            neg = lambda x: UNDEF if x is UNDEF else (-x if isinstance(x, Rat) else z3.fpNeg(x))
            env[i.dst] = VecV(neg(x) for x in v) if isinstance(v, VecV) else neg(v)
        elif op == 'freeze': env[i.dst] = V_(i.ops[0])
        elif op == 'getelementptr':
            env[i.dst] = s.gep(V_(i.ops[0]), i.x, i.ops[1:], env, st)
        elif op == 'load':
            p = V_(i.ops[0])
            if i.x['atomic']:
                h = getattr(s, 'on_atomic', None)
                if h: 
                    r = h('load', st, p, i, None)
                    if r is not None:
                        env[i.dst] = r; return None
            env[i.dst] = s.load(st, p, i.ty, i, i.x['align'])
        elif op == 'store':
            v, p = V_(i.ops[0]), V_(i.ops[1])
            if i.x['atomic']:
                h = getattr(s, 'on_atomic', None)
                if h and h('store', st, p, i, v): return None
            s.store(st, p, i.ty, v, i, i.x['align'])
        elif op == 'alloca':
            n = 1
            if i.ops:
                c = V_(i.ops[0])
                if not c.isc(): raise Unsupported('dynamic alloca')
                n = c.c
            o = Obj('local' + i.dst, 'stack', ir.size_of(i.ty) * n, align=i.x or 16)
            st.mem[o] = Flat()
            env[i.dst] = Ptr(o, 0)
        elif op == 'br':
            if not i.ops: return ('br', [(i.x[0], blk.name, env, st)])
            return ('br', s.branch(st, env, V_(i.ops[0]), i.x[0], i.x[1], blk.name))
        elif op == 'switch':
            v = V_(i.ops[0])
            if v is UNDEF: s.ob(st, False, 'switch on an indeterminate value', str(i)); raise Path()
            out = []
            d, cs = i.x
            cur = st
            for c, lab in cs:
                cv = V_(c)
                cond = s.icmp('eq', v, cv, cur)
                dd = s.decide(cur, cond)
                if dd is True:
                    out.append((lab, blk.name, env, cur)); cur = None; break
                if dd is False: continue
                s2 = cur.copy(); s2.assume(cond)
                out.append((lab, blk.name, dict(env), s2))
                cur.assume(Not(cond))
            if cur is not None: out.append((d, blk.name, env, cur))
            return ('br', out)
        elif op == 'ret':
            return ('out', [('ret', V_(i.ops[0]) if i.ops else None, st)])
        elif op == 'unreachable':
            s.ob(st, False, 'unreachable code is not reached', f.name); raise Path()
        elif op == 'resume':
            return ('out', [('throw', None, st)])
        elif op == 'select':
            c = V_(i.ops[0]); a, b = V_(i.ops[1]), V_(i.ops[2])
            if isinstance(c, VecV):
                env[i.dst] = VecV(merge(x, p, q) for x, p, q in zip(c, a, b))
            else:
                if c is UNDEF: raise Unsupported('select on undef')
                if isinstance(a, Rat) or isinstance(b, Rat) or (a is UNDEF) != (b is UNDEF) or (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is not b.obj):
                    d = s.decide(st, c)
                    if d is None: raise NeedFork(c)
                    c = d
                env[i.dst] = merge(c, a, b)
        elif op == 'extractvalue':
            v = V_(i.ops[0])
            for k in i.x: v = UNDEF if v is UNDEF else v[k]
            env[i.dst] = v
        elif op == 'insertvalue':
            v, x = V_(i.ops[0]), V_(i.ops[1])
            def ins(v, path, t):
                t = ir.res(t)
                els = list(v) if v is not UNDEF else list(s.undef(t))
                if len(path) == 1: els[path[0]] = x
                else: els[path[0]] = ins(els[path[0]], path[1:], t.els[path[0]] if isinstance(t, ir.StructTy) else t.el)
                return Agg(els)
            env[i.dst] = ins(v, i.x, i.ty)
        elif op == 'extractelement':
            v, k = V_(i.ops[0]), V_(i.ops[1])
            if not k.isc(): raise Unsupported('dynamic extractelement')
            env[i.dst] = v[k.c]
        elif op == 'insertelement':
            v, x, k = V_(i.ops[0]), V_(i.ops[1]), V_(i.ops[2])
            v = VecV(v); v[k.c] = x
            env[i.dst] = v
        elif op == 'shufflevector':
            a, b, m = V_(i.ops[0]), V_(i.ops[1]), V_(i.ops[2])
            ab = list(a) + list(b)
            env[i.dst] = VecV(UNDEF if x is UNDEF else ab[x.c] for x in m)
        elif op == 'landingpad':
            cleanup, cl = i.x
            types = []
            sel = BV(32, 0)
            for k, v in cl:
                if k == 'catch' and v[0] == 'null': sel = BV(32, 1); break
                if k == 'catch':
                    if v[0] == 'g' and st.exc and st.exc == v[2]: sel = BV(32, 7); break
            env[i.dst] = Agg([Ptr(None, s.fresh_bv(st, 'exc', 64)), sel])
        elif op in ('call', 'invoke'):
            return s.do_call(f, blk, i, env, st)
        elif op == 'fence': conc.fence(s, st, i.x, i)
        elif op == 'asm':
            raise Unsupported('inline asm')
        else:
            raise Unsupported('instruction %s: %s' % (op, i.line[:120]))
        return None

    def do_call(s, f, blk, i, env, st):
        callee = i.x['callee']
        if callee[0] == 'l' or callee[0] == 'ce':
            p = s.val(callee, env, st)
            if not (isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'fn'):
                if isinstance(p, Ptr) and p.isnull():
                    s.ob(st, False, 'call through a null function pointer', str(i)); raise Path()
                raise Unsupported('indirect call to %r' % (p,))
            name = p.obj.fn
        else: name = callee[2]
        g = s.mod.globals.get(name)
        if g is not None and g.get('alias'):
            name = g['alias'] if isinstance(g['alias'], str) else g['alias'][2]
        args = [s.val(a, env, st) if not isinstance(a[1], ir.OtherTy) else None for a in i.ops]
        # byval aggregates are copied
        for k, a in enumerate(i.x['attrs']):
            if 'byval' in a:
                sz = ir.size_of(a['byval'])
                o = Obj('byval', 'stack', sz); st.mem[o] = Flat()
                s.memcpy(st, Ptr(o, 0), args[k], BV(64, sz), i)
                args[k] = Ptr(o, 0)
        from . import contracts as C
        c = s.contracts.get(name) or C.builtin(name)
        if c is not None:
            s.contracts_used.add(name)
            res = c(s, st, args, i, env)
        else:
            fn = s.mod.funcs.get(name)
            if fn is None or fn.is_decl:
                raise Unsupported('call to %s: no body and no contract' % name)
            s.functions.add(name)
            res = None
            if 'watch' in st.ghost:
                from .heaploop import recursive, heap_call
                if recursive(s.mod, fn): res = heap_call(s, fn, args, st)
            if res is None: res = s.exec_fn(fn, args, st)
        labels = i.x['labels']
        nx, ou, cont = [], [], []
        if type(res) is not list: res = [('ret', res, st)]
        for n, (kind, v, s2) in enumerate(res):
            e2 = env if len(res) == 1 else dict(env)
            if kind == 'ret':
                if i.dst is not None: e2[i.dst] = v
                if labels: nx.append((labels[0], blk.name, e2, s2))
                else: cont.append((e2, s2))
            elif kind == 'throw':
                if labels: nx.append((labels[1], blk.name, e2, s2))
                else:
                    ou.append(('throw', None, s2))
            elif kind == 'end': pass
        if labels:
            if ou: return ('fork', [], nx, ou)
            return ('br', nx)
        if len(cont) == 1 and not ou and cont[0][1] is st and cont[0][0] is env: return None
        return ('fork', cont, nx, ou)

def ATOM(a):
    from .sym import _ATOM
    return _ATOM[a]
def find_ite(e, depth=6):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE: return e.arg(0)
    if depth:
        for ch in e.children():
            if z3.is_bv(ch):
                c = find_ite(ch, depth - 1)
                if c is not None: return c
    return None

ADDR = {}
def _aid_(o):
    from .sym import _aid
    a = _aid(o.addr_atom())
    ADDR[a] = o
    return a

from . import conc
