"""Symbolic values, memory and solver interface of the xvc deductive verifier."""
import z3, time, itertools
from . import ir

z3.set_param('model.completion', True)

class Unsupported(Exception):
    """The verifier cannot express this construct (tool limit, never a violation by itself)."""
class NeedFork(Exception):
    def __init__(s, cond): s.cond = cond

# ---------------------------------------------------------------- linear bit-vector terms
_ATOM = {}
def _aid(e):
    i = e.get_id()
    if i not in _ATOM: _ATOM[i] = e
    return i

class BV:
    """constant + sum(coef * atom)  modulo 2^w ; atoms are z3 bit-vector terms of width w."""
    __slots__ = ('w', 'c', 't', '_z', '_k')
    def __init__(s, w, c, t=None):
        s.w = w; s.c = c & ((1 << w) - 1); s.t = t or {}
        s._z = None; s._k = None
    def isc(s): return not s.t
    def sc(s):
        return s.c - (1 << s.w) if s.c >> (s.w - 1) else s.c
    def z(s):
        if s._z is None:
            parts = []
            for a, k in sorted(s.t.items()):
                e = _ATOM[a]
                if k == 1: parts.append(e)
                elif k == (1 << s.w) - 1: parts.append(-e)
                else: parts.append(z3.BitVecVal(k, s.w) * e)
            if s.c or not parts: parts.append(z3.BitVecVal(s.c, s.w))
            r = parts[0]
            for p in parts[1:]: r = r + p
            s._z = r
        return s._z
    def key(s):
        if s._k is None: s._k = (s.w, s.c, tuple(sorted(s.t.items())))
        return s._k
    def __add__(s, o):
        if isinstance(o, int): o = BV(s.w, o)
        m = (1 << s.w) - 1
        if not o.t: return BV(s.w, s.c + o.c, s.t)
        t = dict(s.t)
        for a, k in o.t.items():
            n = (t.get(a, 0) + k) & m
            if n: t[a] = n
            else: t.pop(a, None)
        return BV(s.w, s.c + o.c, t)
    def scale(s, k):
        m = (1 << s.w) - 1
        k &= m
        t = {}
        for a, c in s.t.items():
            n = (c * k) & m
            if n: t[a] = n
        return BV(s.w, s.c * k, t)
    def __sub__(s, o):
        if isinstance(o, int): o = BV(s.w, o)
        return s + o.scale(-1)
    def __neg__(s): return s.scale(-1)
    def __repr__(s):
        return 'BV%d(%s)' % (s.w, s.z() if s.t else s.sc())

def sgn(k, w): return k - (1 << w) if k >> (w - 1) else k

def bvc(w, v): return BV(w, v)
def c64(v): return BV(64, v)
def bva(e):
    """z3 term -> BV (atom, or flattened linear term)"""
    return from_z3(e)

def from_z3(e):
    w = e.size()
    if z3.is_bv_value(e): return BV(w, e.as_long())
    k = e.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = BV(w, 0)
        for ch in e.children(): r = r + from_z3(ch)
        return r
    if k == z3.Z3_OP_BSUB:
        ch = e.children(); r = from_z3(ch[0])
        for x in ch[1:]: r = r - from_z3(x)
        return r
    if k == z3.Z3_OP_BNEG: return from_z3(e.arg(0)).scale(-1)
    if k == z3.Z3_OP_BMUL and e.num_args() == 2:
        a, b = e.children()
        if z3.is_bv_value(a): return from_z3(b).scale(a.as_long())
        if z3.is_bv_value(b): return from_z3(a).scale(b.as_long())
    if k == z3.Z3_OP_CONCAT and e.num_args() == 2:
        # zero bits over the top bits of x : x / 2^lo
        a, b = e.children()
        if z3.is_bv_value(a) and a.as_long() == 0 and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_EXTRACT:
            hi, lo = b.params(); x = b.arg(0)
            if hi == x.size() - 1 and x.size() == w: return BV(w, 0, {_aid(z3.UDiv(from_z3(x).z(), z3.BitVecVal(1 << lo, w))): 1})
    if k == z3.Z3_OP_UNINTERPRETED and e.decl().name() == 'ring' and e.num_args() == 2: return mkring(from_z3(e.arg(0)), from_z3(e.arg(1)))
    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I): return BV(w, 0, {_aid(z3.UDiv(from_z3(e.arg(0)).z(), from_z3(e.arg(1)).z())): 1})
    return BV(w, 0, {_aid(e): 1})

# ring(x, cap) stands for x & (cap - 1) where cap is a power of two. Facts about it are instances of the lemma proved by ring_lemma()
_B64 = z3.BitVecSort(64)
RING = z3.Function('ring', _B64, _B64, _B64)
RINGOF = {}          # id of a ring term -> (argument, capacity, term)
def mkring(x, cap):
    """inner ring terms and multiples of the capacity do not change the value"""
    ch = True
    while ch:
        ch = False
        for a, k in x.t.items():
            if a in cap.t and len(cap.t) == 1 and cap.c == 0 and cap.t[a] == 1: x = x - BV(64, 0, {a: k}); ch = True; break
            r = RINGOF.get(a)
            if r is not None and r[1].key() == cap.key(): x = x - BV(64, 0, {a: k}) + r[0].scale(k); ch = True; break
    if x.isc() and x.c == 0: return x
    e = RING(x.z(), cap.z())
    i = _aid(e)
    RINGOF.setdefault(i, (x, cap, e))
    return BV(64, 0, {i: 1})
def ring_arg(v):
    """the argument of a value that is a ring term (zero is one)"""
    if not isinstance(v, BV) or v.w != 64: return None
    if v.isc() and v.c == 0: return v, None
    if v.c or len(v.t) != 1: return None
    (a, k), = v.t.items()
    r = RINGOF.get(a)
    return (r[0], r[1]) if r is not None and k == 1 else None
_RT = {}
def ring_terms(f):
    """ring terms below f"""
    k = f.get_id()
    if k in _RT: return _RT[k][1]
    out = frozenset()
    if z3.is_app(f):
        for c in f.children(): out |= ring_terms(c)
        if f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.decl().name() == 'ring':
            b = from_z3(f)
            out |= frozenset(b.t)
            if not b.isc() and _ATOM[next(iter(b.t))].get_id() != k: out |= frozenset()
    _RT[k] = (f, out)
    return out
def ring_lemma(x, y, cap, rx=None, ry=None):
    """x - y at most cap: the value at x is the value at y advanced by x - y with at most one wrap"""
    d = x - y
    rx = rx if rx is not None else mkring(x, cap); ry = ry if ry is not None else mkring(y, cap)
    return Or(Not(ule(d, cap)), eq(rx, merge(ult(ry + d, cap), ry + d, ry + d - cap)))
def ring_facts(fs):
    ts = frozenset()
    for f in fs: ts |= ring_terms(f)
    out = []
    caps = {}
    for a in ts:
        if a in RINGOF: caps.setdefault(RINGOF[a][1].key(), []).append(RINGOF[a])
    for l in caps.values():
        cap = l[0][1]
        tm = {x.key(): (x, mkring(x, cap)) for x, _, e in l}
        for x, r in list(tm.values()):
            ng = BV(64, 0, {a: (-k) % (1 << 64) for a, k in x.t.items() if k >> 63})
            if not ng.t: continue
            ps = x + ng
            for y in (ps, ng):
                if y.key() not in tm: tm[y.key()] = (y, mkring(y, cap))
            u = tm[ng.key()][1] + r
            out.append(eq(tm[ps.key()][1], merge(ult(u, cap), u, u - cap)))        # ring(p) from ring(q) and ring(p - q)
        tm = [v for v in tm.values() if not v[0].isc() or v[0].c] + [(BV(64, 0), BV(64, 0))]
        for x, r in tm:
            if not r.isc(): out.append(ult(r, cap))
            for y, q in tm:
                if x.key() == y.key(): continue
                d = x - y
                if d.isc() and d.sc() < 0: continue
                out.append(ring_lemma(x, y, cap, r, q))
    return [f for f in out if f is not True]
def prove_ring():
    """the lemma and the rewriting rules, for each power of two"""
    x, y, z = [bva(z3.BitVec(n, 64)) for n in ('rx', 'ry', 'rz')]
    bad = []
    for k in range(64):
        c = BV(64, 1 << k); m = lambda v: bva(v.z() & z3.BitVecVal((1 << k) - 1, 64))
        u = m(x) + m(y)
        g = z3.And(m(x + y).z() == z3.If(ult(u, c), u.z(), (u - c).z()), ring_lemma(x, y, c, m(x), m(y)), ult(m(x), c), m(m(x) + y).z() == m(x + y).z(), m(y - m(x)).z() == m(y - x).z(), m(x + c).z() == m(x).z())
        so = z3.Solver(); so.set('timeout', 60000); so.add(z3.Not(g))
        if so.check() != z3.unsat: bad.append(k)
    return bad

def zz(v):
    """any scalar value -> z3"""
    if isinstance(v, BV): return v.z()
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): raise TypeError
    return v

def simp(e): return z3.simplify(e, bv_le2extract=False)

# ---------------------------------------------------------------- booleans
def b_(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def Not(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    out = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    out = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def Implies(a, b): return Or(Not(a), b)

def cmp_bv(pred, a, b):
    if isinstance(a, int): a = BV(b.w, a)
    if isinstance(b, int): b = BV(a.w, b)
    if pred in ('eq', 'ne'):
        d = a - b
        if d.isc(): r = d.c == 0
        else:
            r = None
            if len(d.t) == 1:
                (aid, k), = d.t.items()
                if k & 1:
                    # atom == const
                    inv = pow(k, -1, 1 << a.w)
                    r = _ATOM[aid] == z3.BitVecVal((-d.c * inv) & ((1 << a.w) - 1), a.w)
                    rs = simp(r)
                    if z3.is_true(rs): r = True
                    elif z3.is_false(rs): r = False
            if r is None: r = a.z() == b.z()
        return r if pred == 'eq' else Not(r)
    if a.isc() and b.isc():
        x, y = (a.c, b.c) if pred[0] == 'u' else (a.sc(), b.sc())
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
    if a.key() == b.key(): return pred in ('ule', 'uge', 'sle', 'sge')
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        return cmp_bv({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred], b, a)
    x, y = a.z(), b.z()
    if pred == 'ult':
        if b.isc() and b.c == 0: return False
        return z3.ULT(x, y)
    if pred == 'ule':
        if a.isc() and a.c == 0: return True
        return z3.ULE(x, y)
    if pred == 'slt': return x < y
    if pred == 'sle': return x <= y
    raise Unsupported(pred)

def eq(a, b): return cmp_bv('eq', a, b)
def ult(a, b): return cmp_bv('ult', a, b)
def ule(a, b): return cmp_bv('ule', a, b)
def slt(a, b): return cmp_bv('slt', a, b)
def sle(a, b): return cmp_bv('sle', a, b)
def inrange(lo, i, n):
    """lo <= i < lo+n (no wrap: i-lo <u n)"""
    return ult(i - lo, n)

# ---------------------------------------------------------------- other values
class _Undef:
    def __repr__(s): return 'undef'
UNDEF = _Undef()

V = z3.DeclareSort('V')       # abstract values of opaque element objects

class Obj:
    _n = itertools.count()
    def __init__(s, name, kind, size=None, stride=None, align=16):
        s.id = next(Obj._n); s.name = name; s.kind = kind; s.size = size; s.stride = stride
        s.align = align
        s.addr = None
        s.init = None         # callable(off,size,ty)->value for lazily symbolic input objects
        s.fn = None
        s.nullable = None     # Lin offset that stands for the null pointer (list pools)
        s.linear_only = False; s.owner = None; s.pool = False
    def addr_atom(s):
        if s.addr is None:
            s.addr = z3.BitVec('addr!%s!%d' % (s.name, s.id), 64)
        return s.addr
    def __repr__(s): return '<%s#%d>' % (s.name, s.id)

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off):
        s.obj = obj; s.off = off if isinstance(off, BV) else BV(64, off)
    def __repr__(s): return 'Ptr(%s,%s)' % (s.obj, s.off)
    def isnull(s): return s.obj is None and s.off.isc() and s.off.c == 0
NULL = Ptr(None, 0)

class VecV(list): pass     # vector value
class Agg(list): pass      # aggregate value

def merge(cond, a, b):
    """value-level ite; raises NeedFork when the two alternatives cannot be one term"""
    if cond is True: return a
    if cond is False: return b
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, BV) and isinstance(b, BV):
        if a.key() == b.key(): return a
        return bva(simp(z3.If(cond, a.z(), b.z())))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj is b.obj:
            if a.off.key() == b.off.key(): return a
            if a.obj is not None and a.obj.linear_only: raise NeedFork(cond)
            return Ptr(a.obj, merge(cond, a.off, b.off))
        if a.obj is not None and a.obj.linear_only or b.obj is not None and b.obj.linear_only: raise NeedFork(cond)
        if a.obj is not None and a.obj.nullable is not None and b.isnull():
            return Ptr(a.obj, merge(cond, a.off, a.obj.nullable))
        if b.obj is not None and b.obj.nullable is not None and a.isnull():
            return Ptr(b.obj, merge(cond, b.obj.nullable, b.off))
        raise NeedFork(cond)
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b: return a
            return cond if a else Not(cond)
        return simp(z3.If(cond, b_(a), b_(b)))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
        if a.eq(b): return a
        return z3.If(cond, a, b)
    if isinstance(a, (VecV, Agg)) and type(a) == type(b):
        return type(a)(merge(cond, x, y) for x, y in zip(a, b))
    raise NeedFork(cond)

# ---------------------------------------------------------------- memory
class Plane:
    """index -> (live, value): a base function and a list of updates, newest last. Immutable."""
    __slots__ = ('base', 'ups')
    def __init__(s, base, ups=()): s.base = base; s.ups = ups
    def point(s, idx, live, val): return Plane(s.base, s.ups + (('pt', idx, live, val),))
    def rng(s, cond, fn): return Plane(s.base, s.ups + (('rg', cond, fn),))
    def read(s, idx, decide=None):
        return s._read(idx, len(s.ups) - 1, decide)
    def _read(s, idx, k, decide):
        while k >= 0:
            u = s.ups[k]
            c = eq(idx, u[1]) if u[0] == 'pt' else u[1](idx)
            if decide is not None and not isinstance(c, bool):
                d = decide(c)
                if d is not None: c = d
            if c is True:
                return (u[2], u[3]) if u[0] == 'pt' else u[2](idx)
            if c is False:
                k -= 1; continue
            hi = (u[2], u[3]) if u[0] == 'pt' else u[2](idx)
            lo = s._read(idx, k - 1, decide)
            return (merge(c, hi[0], lo[0]), merge(c, hi[1], lo[1]))
        return s.base(idx)

def raw_base(idx): return (False, UNDEF)

class Flat:
    """state of a fixed-size object: byte offset -> (size, value); ghosts: offset -> (live, val)"""
    __slots__ = ('cells', 'ghost', 'freed')
    def __init__(s, cells=None, ghost=None, freed=False):
        s.cells = cells or {}; s.ghost = ghost or {}; s.freed = freed
    def copy(s): return Flat(dict(s.cells), dict(s.ghost), s.freed)

class Seq:
    """state of an array object: stride from Obj; cap elements; planes keyed by ('e',field) ghost element or ('d',field,size)"""
    __slots__ = ('cap', 'planes', 'freed', 'meta')
    def __init__(s, cap, planes=None, freed=False, meta=None):
        s.cap = cap; s.planes = planes or {}; s.freed = freed; s.meta = meta or {}
    def copy(s): return Seq(s.cap, dict(s.planes), s.freed, s.meta)

class PC:
    """persistent path condition"""
    __slots__ = ('prev', 'f', 'n', 'ob')
    def __init__(s, prev, f, ob=False): s.prev = prev; s.f = f; s.n = (prev.n if prev else 0) + 1; s.ob = ob
    def all(s):
        out = []; x = s
        while x is not None:
            out.append(x.f); x = x.prev
        return out[::-1]

class State:
    __slots__ = ('mem', 'pc', 'ctx', 'exc', 'caught', 'ghost', 'schemas', 'log', 'fresh_ctx', 'fcount', 'trace')
    def __init__(s):
        s.mem = {}; s.pc = None; s.ctx = None; s.exc = None; s.caught = (); s.ghost = {}; s.schemas = (); s.log = ()
        s.fresh_ctx = (); s.fcount = {}; s.trace = ()
    def copy(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.pc = s.pc; n.ctx = s.ctx; n.exc = s.exc; n.caught = s.caught
        n.ghost = dict(s.ghost); n.schemas = s.schemas; n.log = s.log
        n.fresh_ctx = s.fresh_ctx; n.fcount = dict(s.fcount); n.trace = s.trace
        return n
    def assume(s, f, ob=False):
        if f is True: return
        s.pc = PC(s.pc, b_(f), ob)
    def facts(s): return s.pc.all() if s.pc else []
    def w(s, obj):
        """object state for writing"""
        o = s.mem[obj].copy(); s.mem[obj] = o
        return o

# ---------------------------------------------------------------- solver
SCHEMA = {}      # formulas that are instances of loop facts
GOALF = set()    # those taken for the current goal
class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.unknown = 0
import os
CROSS = int(os.environ.get('XVC_CROSS', '0'))
XCOUNT = [0, 0, 0]
class Mismatch(Exception): pass
LIA = not os.environ.get('XVC_NOLIA')
SLOW = float(os.environ.get('XVC_SLOW', '0'))
class Solver:
    def __init__(s, timeout=20000):
        s.stats = Stats(); s.timeout = timeout; s.cache = {}
        s.axioms = []
        s.backend_cross = None
    def _solve(s, fs, timeout, last=1, lin=False):
        """-> (result, model, reason): linear conditions in integer arithmetic, the rest (or what that leaves open) bit-blasted"""
        t = time.time()
        r = z3.unknown; m = None; why = ''
        rf = ()
        if RINGOF:
            rf = ring_facts(fs)
            if rf: fs = fs + rf; last += len(rf)
        if LIA and not s.axioms:
            from .lia import translate, NotLinear
            try:
                li, approx = translate(fs[:-last] if last else fs, fs[-last:] if last else [])
                for rel, to in ((0, timeout), (2, timeout)):
                    so = z3.SimpleSolver(); so.set('timeout', to); so.set('auto_config', False); so.set('relevancy', rel); so.add(li)
                    r = so.check()
                    if r != z3.unknown: break
                if r == z3.sat:
                    if approx:
                        r = z3.unknown
                        if rf: lin = True; why = 'no proof from the ring lemmas'        # bit-blasting knows no more about ring terms
                    else: m = so.model()
                s.stats.lia = getattr(s.stats, 'lia', 0) + 1
                if r == z3.unsat and CROSS:
                    # thorough tier: the bit-blasted form must not have a model
                    so = z3.Solver(); so.set('timeout', CROSS); so.add(fs); q = so.check()
                    XCOUNT[0 if q == z3.unsat else 1 if q == z3.unknown else 2] += 1
                    if q == z3.sat: raise Mismatch('integer translation proves what bit-blasting refutes: ' + str(fs[-1])[:300])
            except NotLinear as e: why = str(e)
        if r == z3.unknown and not lin:
            so = z3.Solver(); so.set('timeout', timeout)
            for a in s.axioms: so.add(a)
            so.add(fs)
            r = so.check()
            if r == z3.sat: m = so.model()
            elif r == z3.unknown: why = so.reason_unknown()
        d = time.time() - t
        s.stats.queries += 1; s.stats.time += d
        if r == z3.unknown: s.stats.unknown += 1
        if SLOW and d > SLOW:
            print('SLOW %.1f %s %s' % (d, r, why), '\n   '.join(str(f) for f in fs)); print(flush=True)
        return r, m, why
    def check(s, facts, timeout=None):
        key = tuple(sorted(f.get_id() for f in facts))
        if key in s.cache: return s.cache[key][0]
        r, m, why = s._solve(facts, timeout or s.timeout)
        s.cache[key] = (r, facts)
        s.last_model = m
        if r == z3.sat: s.last = m
        return r
    def prove_hard(s, facts, goal):
        """an obligation: a query that runs out of time (a busy machine) gets much more of it, until that has once been in vain"""
        r, d = s.prove(facts, goal)
        if r == 'unknown' and s.patience:
            r, d = s.prove(facts, goal, 5 * s.timeout)
            if r == 'unknown': s.patience = False
        return r, d
    patience = True
    def prove(s, facts, goal, timeout=None):
        """-> ('proved',None) | ('refuted',model) | ('unknown',reason)"""
        if goal is True: return 'proved', None
        g = b_(goal)
        gs = simp(g)
        if z3.is_true(gs): return 'proved', None
        # first with only those loop facts that were taken for this goal
        few = [f for f in facts if f.get_id() not in SCHEMA or f.get_id() in GOALF]
        if len(few) < len(facts) and GOALF:
            r, m, why = s._solve(few + [z3.Not(g)], timeout or s.timeout, lin=True)
            if r == z3.unsat: return 'proved', None
        r, m, why = s._solve(facts + [z3.Not(g)], timeout or s.timeout)
        if r == z3.unsat: return 'proved', None
        if r == z3.sat: return 'refuted', m
        return 'unknown', why
