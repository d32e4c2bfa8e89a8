"""Inductive contracts for code that moves elements around in one array in heap order.

Used when a loop has no affine summary, and for a function that calls itself (both only while elements are counted, xv_watch).
Candidate conditions are instances of a few templates over the loop's own variables (heap order everywhere, everywhere except above
or below a variable, variable below the size, variable = parent / child of another variable); those that hold at entry and are
preserved by an arbitrary iteration remain (Houdini). The array contents are otherwise arbitrary, the number of elements of each
value (ghost count G) and which slots are alive are proved to be as claimed. Nothing is trusted: what is kept is proved."""
import z3, itertools
from . import ir
from .sym import *
from .exe import Path
from .summ import header_phis, phi_vals, changed_cells, vsame, NoGuess, delta, veq, subst

B64 = z3.BitVecSort(64)
RANK = z3.Function('rank', B64, B64)
CNT = z3.Function('count', B64, B64, B64, B64)
IN = z3.Function('in', B64, B64, B64)
ZERO = BV(64, 0)
def par(i): return bva(z3.UDiv((i - 1).z(), z3.BitVecVal(2, 64)))
def rank(v): return RANK(v.z())
def ordered(mn, up, low):
    """the element `low` is not above `up`"""
    return z3.ULE(rank(up), rank(low)) if mn else z3.ULE(rank(low), rank(up))

class HSchema:
    """for all i: at(i)"""
    maps = {}
    def __init__(s, fn): s.fn = fn
    def at_index(s, i):
        r = s.fn(i)
        return r
def index_terms(g):
    """indices at which a goal reads a sequence"""
    out = {}; seen = set(); stack = [b_(g)]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if not z3.is_app(e): continue
        n = e.decl().name()
        if n == 'in' and e.num_args() == 2: x = from_z3(e.arg(1)); out[x.key()] = x
        elif n.startswith('hv#') and e.num_args() == 1: x = from_z3(e.arg(0)); out[x.key()] = x
        stack.extend(e.children())
    return list(out.values())
def hfacts(st): return [x for x in st.schemas if isinstance(x, HSchema)]
def use(st, idxs):
    hs = hfacts(st)
    if not hs: return
    done = set()
    for i in list(idxs):
        for j in ((i, par(i)) if not i.isc() else (i,)):
            if j.key() in done: continue
            done.add(j.key())
            for h in hs: st.assume(h.at_index(j))

# ------------------------------------------------------------------ the state of the array
class Arr:
    """view of the array `o` in a state: n live elements"""
    def __init__(s, eng, o, n): s.eng = eng; s.o = o; s.n = n
    def plane(s, st): return st.mem[s.o].planes.get(('e', 0), Plane(raw_base))
    def read(s, st, i): return s.plane(st).read(i, lambda c: s.eng.decide(st, c))
    def val(s, st, i):
        v = s.read(st, i)[1]
        if v is UNDEF: raise Path()
        return v
def sizes(eng, st, o):
    """terms that may be the number of elements"""
    out = {}
    def add(x):
        if isinstance(x, BV) and x.w == 64: out.setdefault(x.key(), x)
        if isinstance(x, Ptr) and x.obj is o:
            try:
                i, f = eng.split(st, o, x.off)
                if f == 0: out.setdefault(i.key(), i)
            except Unsupported: pass
    for m in st.mem.values():
        if isinstance(m, Flat) and not m.freed is True:
            for sz, v in m.cells.values(): add(v)
    return list(out.values())
def live_goal(eng, st, o, n, cap):
    """exactly [0, n) is alive"""
    from .hooks import cases, beq
    sk = bva(z3.BitVec('sk!%d' % next(eng.skc), 64))
    res = []
    def f(s):
        l = s.mem[o].planes.get(('e', 0), Plane(raw_base)).read(sk, lambda c: eng.decide(s, c))[0]
        res.append((s, beq(l, ult(sk, n))))
    s0 = st.copy(); s0.assume(ult(sk, cap))
    cases(eng, s0, f)
    return res
def ok(eng, goals):
    for s, g in goals:
        if g is False or g is not True and eng.solver.prove(s.facts(), g, 4000)[0] != 'proved': return False
    return True
def find_size(eng, st, o):
    cap = st.mem[o].cap
    for n in sizes(eng, st, o):
        if eng.solver.prove(st.facts(), ule(n, cap), 2000)[0] != 'proved': continue
        if ok(eng, live_goal(eng, st, o, n, cap)): return n
    return None

# ------------------------------------------------------------------ candidate conditions
class Cand:
    """kind, args: names of slots. quantified kinds give one fact per index"""
    def __init__(s, kind, *a): s.kind = kind; s.a = a
    def __repr__(s): return '%s(%s)' % (s.kind, ','.join(map(str, s.a)))
    quant = property(lambda s: s.kind in ('HEAP', 'UP', 'DOWN', 'UPB', 'DOWNB'))
    def fact(s, mn, R, n, env, i):
        """quantified: the fact at index i, R: index -> value"""
        g = And(ult(ZERO, i), ult(i, n))
        p = par(i)
        if s.kind == 'HEAP': return Implies(g, ordered(mn, R(p), R(i)))
        x = env[s.a[0]]
        if s.kind == 'UP': return Implies(And(g, Not(eq(i, x))), ordered(mn, R(p), R(i)))
        if s.kind == 'DOWN': return Implies(And(g, Not(eq(p, x))), ordered(mn, R(p), R(i)))
        if s.kind in ('UPB', 'DOWNB'): return Implies(And(g, eq(p, x), ult(ZERO, x)), ordered(mn, R(par(x)), R(i)))
    def simple(s, n, env):
        x = env[s.a[0]]
        if s.kind == 'LT': return ult(x, n)
        if s.kind == 'LE': return ule(x, n)
        if s.kind == 'PAR': return Or(eq(x, ZERO), eq(env[s.a[1]], par(x)))
        if s.kind == 'L': return eq(env[s.a[1]], x.scale(2) + 1)
        if s.kind == 'R': return eq(env[s.a[1]], x.scale(2) + 2)
        if s.kind == 'BOUND': return ule(x, s.a[1])
def candidates(xs, bounds=()):
    out = [Cand('HEAP')]
    for x in xs: out += [Cand('UP', x), Cand('UPB', x), Cand('DOWN', x), Cand('LT', x), Cand('LE', x)]
    for x, y in itertools.permutations(xs, 2): out += [Cand('PAR', x, y), Cand('L', x, y), Cand('R', x, y)]
    return out

class Induct:
    def __init__(s, eng, st, where):
        s.eng = eng; s.st = st; s.where = where; s.mn = st.ghost['hmin']; s.k = next(_k)
        s.checked = 0
    def holds(s, c, st, o, n, env, extra=()):
        """is candidate c provable in this state?"""
        eng = s.eng
        if not c.quant:
            return eng.solver.prove(st.facts(), c.simple(n, env), 4000)[0] == 'proved'
        sk = bva(z3.BitVec('sk!%d' % next(eng.skc), 64))
        s0 = st.copy(); s0.assume(ult(sk, n)); s0.assume(ult(ZERO, sk))
        xs = [env[a] for a in c.a if a in env]
        use(s0, [sk] + xs + list(extra) + s.points(st, o))
        if not eng.feasible(s0): return True
        A = Arr(eng, o, n)
        from .hooks import cases
        res = []
        def f(t):
            if not eng.feasible(t): return
            g = c.fact(s.mn, lambda i: A.val(t, i), n, env, sk)
            t2 = t.copy(); use(t2, index_terms(g))
            res.append((t2, g))
        try: cases(eng, s0, lambda t: f(t), 10)
        except (Path, Unsupported): return False
        return ok(eng, res)
    def points(s, st, o):
        pl = st.mem[o].planes.get(('e', 0))
        return [u[1] for u in pl.ups if u[0] == 'pt'][-8:] if pl else []
    def havoc(s, st, o, n, cands, env):
        """arbitrary contents of which the candidates hold"""
        eng = s.eng
        A = z3.Function('hv#%d' % next(_k), B64, B64)
        R = lambda i: bva(A(i.z()))
        m = st.w(o)
        m.planes = dict(m.planes)
        m.planes[('e', 0)] = Plane(lambda i: (ult(i, n), R(i)))
        st.schemas = tuple(x for x in st.schemas)
        for c in cands:
            if c.quant: st.schemas = st.schemas + (HSchema(lambda i, c=c: c.fact(s.mn, R, n, env, i)),)
            else: st.assume(c.simple(n, env))
        # the facts at the variables themselves
        use(st, [v for v in env.values() if isinstance(v, BV)])
        return A
    def frame(s, st0, st, o, allow=()):
        """nothing else changes"""
        if changed_cells(st0, [st]) - set(allow): return 'a cell outside the array changes: %s' % list(changed_cells(st0, [st]) - set(allow))[:2]
        for q, m0 in st0.mem.items():
            m1 = st.mem.get(q)
            if m1 is m0: continue
            if m1 is None: return 'object gone'
            if m1.freed is not m0.freed: return 'storage released'
            if isinstance(m0, Flat):
                if m0.ghost != m1.ghost: return 'an element outside the array changes'
                continue
            for key in set(m0.planes) | set(m1.planes):
                if (q, key) == (o, ('e', 0)): continue
                if m0.planes.get(key) is not m1.planes.get(key): return 'another array changes'
        return None
    def good(s, label, where):
        if not s.eng.mute:
            from .exe import Obligation
            s.eng.obs.append(Obligation(s.eng.cur, label, 'proved', None, where))
_k = itertools.count()
import os
DBG = os.environ.get('XVC_DHEAP')

def changed_array(st0, sts):
    ch = set()
    for st in sts:
        for o, m0 in st0.mem.items():
            m1 = st.mem.get(o)
            if m1 is m0 or m1 is None or isinstance(m0, Flat): continue
            if any(m0.planes.get(k) is not m1.planes.get(k) for k in set(m0.planes) | set(m1.planes)): ch.add(o)
    return ch

def heap_loop(eng, f, loop, prev, env, st):
    """-> (outs, exits), or None when this is not such a loop"""
    if 'watch' not in st.ghost or st.fresh_ctx: return None
    def body(e, s, mute=True):
        if mute: eng.mute += 1
        try: return eng.run_blocks(f, [(loop.header, None, e, s)], loop)
        finally:
            if mute: eng.mute -= 1
    eng.mute += 1
    try: o0, back, ex0 = eng.run_blocks(f, [(loop.header, prev, dict(env), st.copy())], loop)
    finally: eng.mute -= 1
    back = [x for x in back if eng.feasible(x[2])]
    if not back: return None
    objs = changed_array(st, [x[2] for x in back])
    if len(objs) != 1: return None
    o = next(iter(objs))
    if o.stride is None or st.mem[o].freed is not False: return None
    cells = {c for c in changed_cells(st, [x[2] for x in back]) if c[0] in st.mem}
    def slots(p, e, s):
        r = {('phi', k): v for k, v in phi_vals(eng, f, loop, p, e, s).items()}
        for c in cells:
            v = s.mem[c[0]].cells.get(c[1])
            r[('cell',) + c] = v[1] if v is not None and v[0] == c[2] else UNDEF
        return r
    P0 = slots(prev, env, st)
    n0 = find_size(eng, st, o)
    if n0 is None: return None
    n1 = [find_size(eng, x[2], o) for x in back]
    if any(x is None for x in n1): return None
    dn = {delta(n0, x) for x in n1}
    if len(dn) != 1 or dn == {None}: return None
    dn = dn.pop()
    I = Induct(eng, st, f.name)
    # ---- slots: what stays the same; what is affine in the iteration number; arbitrary integers
    itz = z3.BitVec('hit!%d' % next(eng.skc), 64); it = bva(itz)
    P1 = [slots(*x) for x in back]
    aff = {}; var = []
    for k in P0:
        d = {delta(P0[k], q[k]) for q in P1}
        if d == {0}: continue
        if len(d) == 1 and isinstance(next(iter(d)), int) and not (isinstance(P0[k], BV) and P0[k].w != 64) and (k[0] == 'cell' or isinstance(P0[k], Ptr) or dn): aff[k] = next(iter(d)); continue
        if k[0] == 'phi' and isinstance(P0[k], BV) and P0[k].w == 64: var.append(k[1]); continue
        return None
    def cf(k, j):
        v = P0[k]; d = aff[k]
        return Ptr(v.obj, v.off + j.scale(d)) if isinstance(v, Ptr) else v + j.scale(d)
    size = lambda j: n0 + j.scale(dn)
    moving = bool(aff) or dn
    count = [None]
    def state(cands, bounds, g=None):
        s = st.copy(); e = dict(env)
        for k, v in P0.items():
            if k in aff: v = cf(k, it)
            if k[0] == 'phi': e[k[1]] = v
            elif k in aff: s.w(k[1]).cells[k[2]] = (k[3], v)
        X = {k: bva(z3.BitVec('%s!%d' % (k.lstrip('%'), next(eng.skc)), 64)) for k in var}
        e.update(X)
        if moving:
            if g is not None: s.ghost['G'] = g
            elif count[0] is not None: s.ghost['G'] = gcount(it); st_axiom(s)
            for c in bounds: s.assume(ule(it, c))
            s.assume(ule(it, BV(64, 1 << 60)))          # justified by a bound, which is required below
        I.havoc(s, o, size(it), cands, X)
        return e, s, X
    def gcount(j):
        tag, e0, qv = count[0]
        return st.ghost['G'] + bva(CNT(tag, (e0 + j).z(), qv)) - bva(CNT(tag, e0.z(), qv))
    def st_axiom(s):
        """count(tag, k + 1, q) = count(tag, k, q) + (in(tag, k) == q), and count(tag, 0, q) = 0"""
        tag, e0, qv = count[0]
        x = e0 + it
        s.assume(CNT(tag, (x + 1).z(), qv) == CNT(tag, x.z(), qv) + z3.If(IN(tag, x.z()) == qv, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        s.assume(CNT(tag, z3.BitVecVal(0, 64), qv) == 0)
        for k in range(e0.c if e0.isc() and e0.c < 8 else 0):
            kz = z3.BitVecVal(k, 64)
            s.assume(CNT(tag, z3.BitVecVal(k + 1, 64), qv) == CNT(tag, kz, qv) + z3.If(IN(tag, kz) == qv, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
    bounds = []
    if moving:
        # a generic iteration shows what is counted and which comparison ends the loop
        e, s, X = state([c for c in candidates(var) if c.kind == 'HEAP'], (), bva(z3.BitVec('g!%d' % next(eng.skc), 64)))
        g0 = s.ghost['G']; pc0 = s.pc
        _, bk, _ = body(e, s.copy())
        bk = [x for x in bk if eng.feasible(x[2])]
        cs = []
        for p_, e_, s_ in bk:
            d = s_.ghost['G'] - g0
            if d.isc() and d.c == 0: pass
            elif len(d.t) == 1 and d.c == 0:
                from .sym import _ATOM
                (x, k), = d.t.items(); y = _ATOM[x]
                if k != 1 or not z3.is_app_of(y, z3.Z3_OP_ITE): return None
                r = counted(y.arg(0), st.ghost['watch'], it)
                if r is None or count[0] is not None and not all(u.eq(v) if isinstance(u, z3.ExprRef) else u.key() == v.key() for u, v in zip(r, count[0])): return None
                count[0] = r
            else: return None
            x = s_.pc
            while x is not None and x is not pc0:
                if not x.ob: cs.append(x.f)
                x = x.prev
        from .summ import crossings
        if cs:
            for c in crossings(z3.And(*cs), itz, {}):
                if eng.solver.prove(st.facts(), ule(c, BV(64, 1 << 60)), 2000)[0] == 'proved': bounds.append(c)
        if not bounds: return None
    # ---- Houdini
    Z = {k: P0[('phi', k)] for k in var}
    cur = [c for c in candidates(var) if I.holds(c, st, o, n0, Z)]
    def vals(x):
        return phi_vals(eng, f, loop, *x)
    nxt = it + 1
    def nsz(j): return size(j)
    for rnd in range(8):
        if DBG: print('  round', rnd, loop.header, cur)
        e, s, X = state(cur, bounds)
        _, back, _ = body(e, s.copy())
        back = [x for x in back if eng.feasible(x[2])]
        keep = [c for c in cur if all(I.holds(c, x[2], o, size(nxt), vals(x), list(X.values())) for x in back)]
        kb = [c for c in bounds if all(eng.solver.prove(x[2].facts(), ule(nxt, c), 4000)[0] == 'proved' for x in back)]
        if len(keep) == len(cur) and len(kb) == len(bounds): break
        cur, bounds = keep, kb
    else: return None
    if moving and not bounds: return None
    if DBG: print('HEAP LOOP', f.name, loop.header, 'mute', eng.mute, 'n', n0, dn, cur, bounds, aff, var, flush=True)
    # ---- verification
    e, s, X = state(cur, bounds)
    s0 = s.copy()
    outs, back, exits = body(e, s, mute=False)
    back = [x for x in back if eng.feasible(x[2])]
    for c in cur: I.good('loop invariant holds at entry: %s' % c, f.name)
    for p, e2, s2 in back:
        why = I.frame(s0, s2, o, cells)
        if why: raise Unsupported('loop over the heap: ' + why)
        S1 = slots(p, e2, s2)
        for k in P0:
            if k[0] == 'phi' and k[1] in var: continue
            w = cf(k, nxt) if k in aff else P0[k]
            g = veq(S1[k], w)
            if g is not True and (g is False or eng.solver.prove(s2.facts(), g)[0] != 'proved'): raise Unsupported('loop over the heap: %s is not affine' % (k,))
        if not ok(eng, live_goal(eng, s2, o, size(nxt), st.mem[o].cap)): raise Unsupported('loop over the heap: the live elements change')
        want = gcount(nxt) if count[0] is not None else s0.ghost['G']
        g = eq(s2.ghost['G'], want)
        if g is not True and (g is False or eng.solver.prove(s2.facts(), g)[0] != 'proved'): raise Unsupported('loop over the heap: elements are lost or made')
        Y = vals((p, e2, s2))
        for c in cur:
            if not I.holds(c, s2, o, size(nxt), Y, list(X.values())): raise Unsupported('loop over the heap: %s is not inductive' % c)
            I.good('loop invariant preserved: %s' % c, f.name)
        for c in bounds:
            if eng.solver.prove(s2.facts(), ule(nxt, c))[0] != 'proved': raise Unsupported('loop over the heap: bound')
        I.good('loop invariant preserved: the elements are as expected', f.name)
    if moving:
        for c in bounds:
            if eng.solver.prove(st.facts(), ule(c, BV(64, 1 << 60)))[0] != 'proved': raise Unsupported('loop over the heap: bound')
    elif back and not measure(eng, n0, [(X, s2, vals((p, e2, s2))) for p, e2, s2 in back]): raise Unsupported('loop over the heap: no measure that decreases')
    I.good('loop terminates', f.name)
    if not eng.mute: eng.nsum = getattr(eng, 'nsum', 0) + 1
    return outs, [x for x in exits if eng.feasible(x[3])]
def counted(c, q, it):
    """(tag, first index, value) when c is in(tag, first + it) == q"""
    if not z3.is_eq(c): return None
    for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
        if z3.is_app(x) and x.decl().name() == 'in' and x.num_args() == 2 and y.eq(q.z()):
            e = from_z3(x.arg(1)); e0 = e - it
            if not any(a in e0.t for a in it.t): return (x.arg(0), e0, y)
    return None
def same_count(eng, s0, s1):
    g = eq(s0.ghost['G'], s1.ghost['G'])
    return g is True or g is not False and eng.solver.prove(s1.facts(), g, 4000)[0] == 'proved'
def measure(eng, n, steps):
    """some variable decreases, or increases below n"""
    for k in steps[0][0]:
        if all(eng.solver.prove(s.facts(), ult(Y[k], X[k]), 4000)[0] == 'proved' for X, s, Y in steps): return True
        if all(eng.solver.prove(s.facts(), And(ult(X[k], Y[k]), ule(Y[k], n)), 4000)[0] == 'proved' for X, s, Y in steps): return True
    return False

# ------------------------------------------------------------------ functions that call themselves
def recursive(mod, fn):
    r = getattr(fn, 'selfrec', None)
    if r is None:
        r = fn.selfrec = any(i.op in ('call', 'invoke') and isinstance(i.x, dict) and i.x.get('callee') and i.x['callee'][0] == 'g' and i.x['callee'][2] == fn.name for b in fn.blocks.values() for i in b.insts)
    return r

def heap_call(eng, fn, args, st):
    """-> outcomes, or None. A call of a function that calls itself: contract found and proved by induction over the calls"""
    if 'watch' not in st.ghost or st.fresh_ctx: return None
    act = getattr(eng, 'hrec', {}).get(fn.name)
    if act is not None: return act(args, st)
    names = ['a%d' % k for k, v in enumerate(args) if isinstance(v, BV) and v.w == 64]
    P0 = {'a%d' % k: v for k, v in enumerate(args) if isinstance(v, BV) and v.w == 64}
    arrs = [o for o, m in st.mem.items() if isinstance(m, Seq) and m.freed is False and o.kind == 'heap' and ('e', 0) in m.planes]
    cand = [(o, find_size(eng, st, o)) for o in arrs]
    cand = [(o, n) for o, n in cand if n is not None]
    if len(cand) != 1: return None
    o, n = cand[0]
    I = Induct(eng, st, fn.name)
    eng.hrec = getattr(eng, 'hrec', {})
    pre = [c for c in candidates(names) if I.holds(c, st, o, n, P0)]
    post = [Cand('HEAP')]
    def state():
        s = st.copy()
        X = {k: bva(z3.BitVec('%s!%d' % (k, next(eng.skc)), 64)) for k in names}
        I.havoc(s, o, n, pre, X)
        return s, X, [X.get('a%d' % k, v) for k, v in enumerate(args)]
    def after(s):
        I.havoc(s, o, n, post, {})
        return s
    def run(record, mute):
        s, X, a = state(); s0 = s.copy()
        calls = []
        def inner(a2, s2):
            Y = {'a%d' % k: v for k, v in enumerate(a2) if 'a%d' % k in X}
            same = all(vsame(v, a2[k]) for k, v in enumerate(args) if 'a%d' % k not in X)
            calls.append((s2.copy(), Y, same, X, I.frame(s0, s2, o), ok(eng, live_goal(eng, s2, o, n, st.mem[o].cap)), same_count(eng, s0, s2)))
            return [('ret', None, after(s2))]
        eng.hrec[fn.name] = inner
        if mute: eng.mute += 1
        try: outs = eng.exec_fn(fn, a, s)
        finally:
            if mute: eng.mute -= 1
            del eng.hrec[fn.name]
        return s0, X, calls, [x for x in outs if eng.feasible(x[2])]
    if not fn_void(fn): return None
    for rnd in range(8):
        s0, X, calls, outs = run(False, True)
        if any(k != 'ret' for k, _, _ in outs): return None
        k1 = [c for c in pre if all(I.holds(c, s2, o, n, Y, list(X.values())) for s2, Y, *_ in calls)]
        k2 = [c for c in post if all(I.holds(c, s2, o, n, {}, list(X.values())) for _, _, s2 in outs)]
        if len(k1) == len(pre) and len(k2) == len(post): break
        pre, post = k1, k2
    else: return None
    s0, X, calls, outs = run(True, False)
    for s2, Y, same, X_, why, lv, cnt in calls:
        if why: raise Unsupported('recursion over the heap: ' + why)
        if not same: raise Unsupported('recursion over another object')
        if not lv or not cnt: raise Unsupported('recursion over the heap: elements are lost or made')
        for c in pre:
            if not I.holds(c, s2, o, n, Y, list(X.values())): raise Unsupported('recursion over the heap: precondition %s' % c)
            I.good('precondition at the recursive call: %s' % c, fn.name)
    if calls and not measure(eng, n, [(X, s2, Y) for s2, Y, *_ in calls]): raise Unsupported('recursion over the heap: no measure that decreases')
    I.good('recursion terminates', fn.name)
    for kind, v, s2 in outs:
        why = I.frame(s0, s2, o)
        if why: raise Unsupported('recursion over the heap: ' + why)
        if not ok(eng, live_goal(eng, s2, o, n, st.mem[o].cap)) or not same_count(eng, s0, s2): raise Unsupported('recursion over the heap: elements are lost or made')
        for c in post:
            if not I.holds(c, s2, o, n, {}, list(X.values())): raise Unsupported('recursion over the heap: postcondition %s' % c)
            I.good('postcondition: %s' % c, fn.name)
        I.good('postcondition: the elements are the same', fn.name)
    for c in pre: I.good('precondition at the call: %s' % c, fn.name)
    if not eng.mute: eng.nsum = getattr(eng, 'nsum', 0) + 1
    return [('ret', None, after(st))]
def fn_void(fn):
    return not any(i.op == 'ret' and i.ops for b in fn.blocks.values() for i in b.insts)

# ------------------------------------------------------------------ hooks
def xv_heap(eng, st, a, inst, env):
    """precondition: in(tag, 0) .. in(tag, n-1) are in heap order"""
    d, n, tag, mn = a
    m = mn.c
    st.schemas = st.schemas + (HSchema(lambda i: Implies(And(ult(ZERO, i), ult(i, n)), ordered(m, bva(IN(tag.z(), par(i).z())), bva(IN(tag.z(), i.z()))))),)
    st.ghost['hmin'] = m
def xv_watch(eng, st, a, inst, env):
    d, n, tag, q = a
    st.ghost['watch'] = q
    st.ghost['G'] = BV(64, 0) if n.isc() and n.c == 0 else bva(CNT(tag.z(), n.z(), q.z()))
    st.ghost.setdefault('hmin', 0)
def xv_unwatch(eng, st, a, inst, env):
    for k in ('watch', 'G', 'hmin'): st.ghost.pop(k, None)
def xv_watched(eng, st, a, inst, env): return st.ghost['G']
def xv_count(eng, st, a, inst, env):
    st.assume(CNT(a[0].z(), z3.BitVecVal(0, 64), a[2].z()) == 0)
    return bva(CNT(a[0].z(), a[1].z(), a[2].z()))
def is_moved(v):
    if len(v.t) != 1 or v.c: return False
    (x, k), = v.t.items()
    from .sym import _ATOM
    return k == 1 and _ATOM[x].decl().name().startswith('moved')
def ind(st, v):
    if is_moved(v): return BV(64, 0)
    if len(v.t) == 1 and not v.c:
        from .sym import _ATOM
        (x, k), = v.t.items(); e = _ATOM[x]
        if k == 1 and z3.is_app_of(e, z3.Z3_OP_ITE): return merge(e.arg(0), ind(st, from_z3(e.arg(1))), ind(st, from_z3(e.arg(2))))
    c = eq(v, st.ghost['watch'])
    if isinstance(c, bool): return BV(64, 1 if c else 0)
    return bva(z3.If(c, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
def recount(eng, st, old, new):
    for (l, v), sg in ((old, -1), (new, 1)):
        if l is False: continue
        if l is not True: l = eng.decide(st, l)
        if l is None: raise Unsupported('count of elements that may be alive')
        if not l: continue
        if v is UNDEF: raise Unsupported('count of an unknown value')
        st.ghost['G'] = st.ghost['G'] + ind(st, v).scale(sg)
_lemma = {}
def top_lemma(eng, mn):
    """heap order between each element and its parent: one induction step of 'no element is above the first'"""
    if mn not in _lemma:
        A = z3.Function('lem', B64, B64); k = bva(z3.BitVec('lem!k', 64)); n = bva(z3.BitVec('lem!n', 64))
        R = lambda i: bva(A(i.z()))
        fs = [b_(And(ult(ZERO, k), ult(k, n))), ordered(mn, R(par(k)), R(k)), ordered(mn, R(ZERO), R(par(k)))]
        r1 = eng.solver.prove(fs, And(ordered(mn, R(ZERO), R(k)), ult(par(k), k)))[0]
        r2 = eng.solver.prove([], ordered(mn, R(ZERO), R(ZERO)))[0]
        _lemma[mn] = r1 == 'proved' and r2 == 'proved'
    return _lemma[mn]
def xv_top(eng, st, a, inst, env):
    """proves heap order at every index; by induction no element is above the first"""
    d, n, mn, k = a
    mn = mn.c
    if d is UNDEF or d.obj is None: return
    o = d.obj
    if not isinstance(st.mem.get(o), Seq): raise Unsupported('heap in a fixed object')
    from .hooks import cases, obl
    sk = eng.fresh_bv(st, 'sk', 64)
    s0 = st.copy(); s0.assume(ult(ZERO, sk)); s0.assume(ult(sk, n))
    I = Induct(eng, st, 'top')
    use(s0, [sk] + I.points(st, o))
    A = Arr(eng, o, n)
    def f(t):
        g = ordered(mn, A.val(t, par(sk)), A.val(t, sk))
        use(t, index_terms(g))
        obl(eng, t, g, 'heap order holds at every element', inst)
    cases(eng, s0, f, 10)
    if not top_lemma(eng, mn): raise Unsupported('lemma')
    I.good('no element is above the first (induction over the parents)', str(inst))
    s1 = st
    try: st.assume(Implies(ult(k, n), ordered(mn, A.val(st, ZERO), A.val(st, k))))
    except Path: pass
    use(st, [k])
