"""Inductive loop summaries.

For a loop whose exit is not decided by the state, a candidate invariant is computed from the code:
  * every loop-carried scalar ("slot": header phi, changed cell of a fixed object, changed ghost) is affine in the
    iteration number `it` (guessed from two muted trial iterations);
  * every array cell written by iteration j is a function of j; the memory before iteration `it` is the initial memory
    overwritten by the writes of all j < it;
  * every completed iteration j < it satisfied its continue condition C(j).
The candidate is then VERIFIED on an arbitrary iteration: all accesses are obligations, and each back edge must
re-establish the candidate for it+1. Nothing is trusted: a wrong guess makes the summary fail (tool limit)."""
import z3
from . import ir
from .sym import *
from .rat import Rat

MAXPEEL = 2

class Schema:
    """for all j < it: C(j)"""
    def __init__(s, it, sub, cond, maps, where): s.it = it; s.sub = sub; s.cond = cond; s.maps = maps; s.where = where
    def at(s, j):
        r = Or(Not(ult(j, s.it)), subst(s.cond, s.sub(j)))
        if not isinstance(r, bool): SCHEMA[r.get_id()] = r
        return r

def subst(v, pairs):
    """substitute BV-valued replacements for z3 constants in any value"""
    if v is UNDEF or v is None or isinstance(v, (bool, int)): return v
    if isinstance(v, BV):
        r = BV(v.w, v.c); ch = False
        d = {c.get_id(): b for c, b in pairs}
        zp = None
        for a, k in v.t.items():
            if a in d and d[a].w == v.w: r = r + d[a].scale(k); ch = True; continue
            e = ATOM(a)
            if zp is None: zp = [(c, b.z()) for c, b in pairs]
            e2 = z3.substitute(e, *zp)
            if e2.eq(e): r = r + BV(v.w, 0, {a: k})
            else: r = r + from_z3(simp(e2)).scale(k); ch = True
        return r if ch else v
    if isinstance(v, Ptr): return Ptr(v.obj, subst(v.off, pairs))
    if isinstance(v, (VecV, Agg)): return type(v)(subst(x, pairs) for x in v)
    if isinstance(v, z3.ExprRef):
        e = z3.substitute(v, *[(c, b.z()) for c, b in pairs])
        return e if e.eq(v) else norm(e)
    if isinstance(v, Rat): return v
    raise Unsupported('subst %r' % (v,))
def norm(e): return simp(e)
def ATOM(a):
    from .sym import _ATOM
    return _ATOM[a]

def veq(a, b):
    """value equality goal"""
    if a is b: return True
    if b is UNDEF: return True            # the invariant says nothing about this value
    if a is UNDEF: return False
    if isinstance(a, Ptr) and isinstance(b, BV): b = Ptr(None, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj is b.obj: return eq(a.off, b.off)
        if a.obj is not None and b.obj is not None and a.obj.nullable is not None and b.obj.nullable is not None:
            return And(eq(a.off, a.obj.nullable), eq(b.off, b.obj.nullable))
        if b.isnull() and a.obj.nullable is not None: return eq(a.off, a.obj.nullable)
        if a.isnull() and b.obj.nullable is not None: return eq(b.off, b.obj.nullable)
        return False
    if isinstance(a, BV) and isinstance(b, BV): return eq(a, b) if a.w == b.w else False
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if isinstance(b, bool): return a if b else Not(a)
        if isinstance(a, bool): return b if a else Not(b)
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return True if a.eq(b) else (a == b)
    if isinstance(a, (VecV, Agg)) and type(a) == type(b): return And(*[veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Rat) and isinstance(b, Rat): return a.same(b)
    return False

def slot_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple): return a == b
    return veq(a, b)

def header_phis(f, loop):
    return [i for i in f.blocks[loop.header].insts if i.op == 'phi']

def phi_vals(eng, f, loop, prev, env, st):
    out = {}
    for i in header_phis(f, loop):
        for v, lab in i.x:
            if lab == prev: out[i.dst] = eng.val(v, env, st); break
        else: raise Unsupported('phi without incoming')
    return out

def lin(v): return isinstance(v, Ptr) and v.obj is not None and v.obj.linear_only
def slots_of(eng, f, loop, prev, env, st, cells, pcs=()):
    s = {('phi', k): resolve(eng, st, v) for k, v in phi_vals(eng, f, loop, prev, env, st).items()}
    for (o, off, sz) in cells:
        m = st.mem.get(o)
        c = m.cells.get(off) if isinstance(m, Flat) else None
        s[('cell', o, off, sz)] = c[1] if c is not None and c[0] == sz else UNDEF
    for k, v in st.ghost.items():
        s[('ghost', k)] = v
    for (o, key, idx) in pcs:
        try: l, v = st.mem[o].planes.get(key, Plane(raw_base)).read(idx, lambda c: eng.decide(st, c))
        except NeedFork: l, v = False, UNDEF
        s[('pcell', o, key, idx.key())] = v if l is True else UNDEF
    return s
def pointer_cells(st, firsts, second):
    """elements of arrays that every iteration overwrites with another node pointer"""
    def new(a, b):
        r = {}
        for o, m0 in a.mem.items():
            m1 = b.mem.get(o)
            if m1 is m0 or isinstance(m0, Flat): continue
            for key, pl in m1.planes.items():
                p0 = m0.planes.get(key)
                if pl is p0: continue
                for u in pl.ups[len(p0.ups) if p0 is not None else 0:]:
                    if u[0] == 'pt' and lin(u[3]): r[(o, key, u[1].key())] = u[1]
        return r
    out = {}
    for x, b2 in zip(firsts, second):
        n1 = new(st, x[2])
        for y in b2:
            n2 = new(x[2], y[2])
            for k in n1:
                if k in n2: out[k] = n1[k]
    return [(o, key, idx) for (o, key, _), idx in out.items()]

def resolve(eng, st, v):
    """if-then-else terms whose condition the path has decided"""
    if isinstance(v, Ptr):
        o = resolve(eng, st, v.off)
        return v if o is v.off else Ptr(v.obj, o)
    if not isinstance(v, BV) or not v.t: return v
    r = BV(v.w, v.c); ch = False
    for a, k in v.t.items():
        e = ATOM(a)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            d = eng.decide(st, e.arg(0))
            if d is not None:
                r = r + resolve(eng, st, from_z3(e.arg(1 if d else 2))).scale(k); ch = True
                continue
        r = r + BV(v.w, 0, {a: k})
    return r if ch else v

def muted_iter(eng, f, loop, prev, env, st):
    s2 = st.copy()
    eng.mute += 1
    try: return eng.run_blocks(f, [(loop.header, prev, dict(env), s2)], loop)
    finally: eng.mute -= 1

def changed_cells(st0, sts):
    ch = set()
    for s in sts:
        for o, m0 in st0.mem.items():
            m1 = s.mem.get(o)
            if m1 is m0 or not isinstance(m0, Flat): continue
            for off in set(m0.cells) | set(m1.cells):
                a, b = m0.cells.get(off), m1.cells.get(off)
                if a is b: continue
                if a is not None and b is not None and a[0] == b[0] and vsame(a[1], b[1]): continue
                ch.add((o, off, (b or a)[0]))
    return ch
def vsame(a, b):
    if a is b: return True
    g = veq(a, b) if not (b is UNDEF) else a is UNDEF
    return g is True

class RingV:
    """slot value ring(arg + d * it)"""
    def __init__(s, arg, cap): s.arg = arg; s.cap = cap
def delta(a, b):
    """constant difference b - a, 0 when unchanged, None when neither"""
    if vsame(a, b): return 0
    ra, rb = ring_arg(a), ring_arg(b)
    if ra and rb and (ra[1] or rb[1]):
        d = rb[0] - ra[0]
        if d.isc(): return ('ring', d.sc(), ra[1] or rb[1])
    if isinstance(a, BV) and isinstance(b, BV) and a.w == b.w:
        d = b - a
        return d.sc() if d.isc() else None
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        d = b.off - a.off
        return d.sc() if d.isc() else None
    return None

class NoGuess(Exception): pass
def unkey(k): return BV(*k[:2], dict(k[2])) if isinstance(k[2], (tuple, list, frozenset)) else BV(k[0], k[1])

def summarise(eng, f, loop, prev, env, st, peel=0):
    mark = len(eng.obs)
    try:
        return _summarise(eng, f, loop, prev, env, st)
    except NoGuess as e:
        del eng.obs[mark:]
        if 'watch' in st.ghost:
            from .heaploop import heap_loop
            r = heap_loop(eng, f, loop, prev, env, st)
            if r is not None: return r
        if peel >= MAXPEEL and str(e) != 'no back edge': raise Unsupported('no loop invariant found for %s in %s: %s' % (loop.header, f.name, e))
    # peel one iteration (recorded) and summarise the rest
    o, back, ex = eng.run_blocks(f, [(loop.header, prev, dict(env), st)], loop)
    outs, exits = list(o), list(ex)
    for (p, e, s) in back:
        from .loops import handle_loop
        if not eng.feasible(s): continue
        o2, ex2 = summarise(eng, f, loop, p, e, s, peel + 1)
        outs += o2; exits += ex2
    return outs, exits

def guess(eng, f, loop, prev, env, st):
    """slot -> (v0, delta per iteration)"""
    o, b1, ex = muted_iter(eng, f, loop, prev, env, st)
    b1 = [x for x in b1 if eng.feasible(x[2])]
    if not b1: raise NoGuess('no back edge')
    cells = set(changed_cells(st, [x[2] for x in b1]))
    second = []
    for (p, e, s) in b1[:4]:
        _, b2, _ = muted_iter(eng, f, loop, p, e, s)
        b2 = [x for x in b2 if eng.feasible(x[2])]
        second.append(b2)
        cells |= {c for c in changed_cells(s, [x[2] for x in b2]) if c[0] in st.mem}
    cells = {c for c in cells if c[0] in st.mem}
    pcs = pointer_cells(st, b1, second)
    S0 = slots_of(eng, f, loop, prev, env, st, cells, pcs)
    out = {}
    firsts = [slots_of(eng, f, loop, *x, cells, pcs) for x in b1]
    seconds = [[slots_of(eng, f, loop, *x, cells, pcs) for x in b2] for b2 in second]
    # an iteration that leaves the chain of nodes it walks along belongs to another phase of the loop
    def jumps(a, b): return any(lin(v) and k[0] in ('phi', 'cell') and delta(v, b.get(k, UNDEF)) is None for k, v in a.items())
    ok = [i for i, s1 in enumerate(firsts) if not jumps(S0, s1)]
    if ok:
        firsts = [firsts[i] for i in ok]; seconds = [seconds[i] if i < len(seconds) else [] for i in ok]
        nj = [[s2 for s2 in x if not jumps(s1, s2)] for s1, x in zip(firsts, seconds)]
        if any(nj): seconds = nj
    for k, v0 in S0.items():
        ds = [delta(v0, s1.get(k, UNDEF)) for s1 in firsts]
        for s1, b2 in zip(firsts, seconds):
            for s2 in b2: ds.append(delta(s1.get(k, UNDEF), s2.get(k, UNDEF)))
        rs = [d for d in ds if isinstance(d, tuple)]
        if rs and len({d[1] for d in rs}) == 1 and len(rs) == len(ds):
            out[k] = (RingV(ring_arg(v0)[0], rs[0][2]), rs[0][1]); continue
        if any(d is None or isinstance(d, tuple) for d in ds) or len(set(ds)) != 1:
            if k[0] == 'cell' : out[k] = (v0, None); continue
            if k[0] == 'pcell': continue
            raise NoGuess('%s is not affine in the iteration number (%s)' % (k, sorted(set(map(str, ds)))))
        out[k] = (v0, ds[0])
    for s1 in firsts:
        for k in s1:
            if k not in out and k[0] != 'pcell': raise NoGuess('new ghost')
    return out

def _summarise(eng, f, loop, prev, env, st):
    G = guess(eng, f, loop, prev, env, st)
    # ---- iteration symbols
    if st.fresh_ctx:
        loc = 'loop:%s:%s' % (f.name, loop.header)
        n = st.fcount.get(loc, 0); st.fcount[loc] = n + 1
        uid = eng.uids.setdefault((tuple(u for u, _ in st.fresh_ctx), loc, n), len(eng.uids))
    else:
        uid = eng.uids.setdefault(('top', len(eng.uids)), len(eng.uids))
    itz = eng.fresh(st, 'it', z3.BitVecSort(64)); it = bva(itz)
    its = z3.BitVec('it#%d' % uid, 64)      # schematic iteration variable: families and C are terms over it
    itv = bva(its)
    ems = {}     # k -> atom standing for k * it
    def em(k):
        if k == 1: return itv
        if k not in ems: ems[k] = bva(z3.BitVec('em%d#%d' % (k, uid), 64))
        return ems[k]
    def scaled(d, stride):
        """d * it as a linear term over it / em_k, where k counts elements"""
        if d == 0: return BV(64, 0)
        if stride > 1 and d % stride == 0:
            k = abs(d) // stride
            return em(k).scale(stride if d > 0 else -stride)
        k = abs(d)
        return em(k).scale(1 if d > 0 else -1)
    def closed(v0, d):
        if d is None: return UNDEF
        if isinstance(v0, RingV): return mkring(v0.arg + itv.scale(d), v0.cap)
        if d == 0: return v0
        if isinstance(v0, Ptr):
            return Ptr(v0.obj, v0.off + scaled(d, (v0.obj.stride if v0.obj is not None else None) or 1))
        if v0.w == 64: return v0 + scaled(d, 1)
        if v0.w < 64: return v0 + bva(z3.Extract(v0.w - 1, 0, its)).scale(d)
        raise NoGuess('wide counter')
    CF = {k: closed(v0, d) for k, (v0, d) in G.items()}
    def sub(j):
        """substitution it := j"""
        return [(its, j)] + [(list_atom(e), j.scale(k)) for k, e in ems.items()]
    def list_atom(e): return ATOM(next(iter(e.t)))
    outer_ctx, outer_fc = st.fresh_ctx, dict(st.fcount)
    entry_facts = st.pc

    pcs = [(k[1], k[2], idx) for k in G if k[0] == 'pcell' for idx in [unkey(k[3])]]
    def point(s2, k, v):
        m = s2.w(k[1]); m.planes[k[2]] = m.planes.get(k[2], Plane(raw_base)).point(unkey(k[3]), True, v)
    def deviates(p, e, s, j):
        """does this iteration j leave the chain of nodes that the closed form follows?"""
        if not any(lin(v) for k, v in CF.items() if k[0] in ('phi', 'cell')): return False
        got = slots_of(eng, f, loop, p, e, s, {(k[1], k[2], k[3]) for k in G if k[0] == 'cell'})
        pr = sub(j + 1)
        for k, v in CF.items():
            if not lin(v) or k[0] not in ('phi', 'cell'): continue
            g = slot_eq(got.get(k, UNDEF), subst(v, pr) if G[k][1] else v)
            if g is True: continue
            if g is False or eng.solver.prove(s.facts(), g, 4000)[0] != 'proved': return True
        return False
    def at_iter(base, j, planes=None):
        """state at the head of iteration j (BV) with the slots in closed form"""
        s2 = base.copy(); e2 = dict(env)
        pr = sub(j) if j is not itv else None
        for k, v in CF.items():
            if pr and G[k][1] not in (0, None): v = subst(v, pr)
            if k[0] == 'phi': e2[k[1]] = v
            elif k[0] == 'ghost': s2.ghost[k[1]] = v
            elif k[0] == 'pcell':
                if G[k][1] != 0: point(s2, k, v)
            else:
                if G[k][1] == 0: continue
                m = s2.w(k[1])
                if v is UNDEF: m.cells.pop(k[2], None)
                else: m.cells[k[2]] = (k[3], v)
        s2.fresh_ctx = outer_ctx + ((uid, j.z()),); s2.fcount = {}
        return e2, s2
    # ---- pass B: the effects of a generic iteration
    e2, s2 = at_iter(st, itv)
    for k, e in ems.items(): s2.assume(e.z() == z3.BitVecVal(k, 64) * its)
    # a guess only: pointers that advance stay inside their object (the result is verified below without this)
    for k, (v0, d) in G.items():
        v = CF[k]
        if d and isinstance(v, Ptr) and v.obj is not None and v.obj.stride and getattr(st.mem.get(v.obj), 'cap', None) is not None:
            try: i0, _ = eng.split(s2, v.obj, v.off)
            except Unsupported: continue
            s2.assume(ule(i0, st.mem[v.obj].cap))
    for k, e in ems.items(): s2.assume(ule(e, BV(64, 1 << 60)))
    pc0 = s2.pc
    fam, cond, accs = collect(eng, f, loop, e2, s2, st, pc0, itv, ems, deviates, {(o, key, idx.key()) for o, key, idx in pcs})
    # ---- second round: effects seen from the summarised memory (reads of what earlier iterations wrote)
    def summary(base, j):
        """memory before iteration j"""
        s = base.copy()
        for (o, key), fs in fam.items():
            m = s.w(o)
            pl = m.planes.get(key, Plane(raw_base))
            for F in fs: pl = F.apply(pl, j, sub)
            m.planes[key] = pl
        return s
    def setup(j, useC):
        base = summary(st, j)
        e3, s3 = at_iter(base, j)
        jz = j.z()
        if j is itv:
            for k, e in ems.items(): s3.assume(e.z() == z3.BitVecVal(k, 64) * its)
        return e3, s3
    sch = Schema(it, sub, cond, None, loop.header)
    # ---- verification on an arbitrary iteration `it`
    cps = crossings(cond, its, ems)
    mark = len(eng.obs)
    e3, s3 = setup(it, True)
    s3.assume(Or(eq(it, BV(64, 0)), sch.at(it - 1)))
    s3.assume(sch.at(BV(64, 0)))
    bounds = []
    for c in cps:
        s3.assume(sch.at(c)); bounds.append(c)
    # termination: some crossing bounds the number of completed iterations
    term = False
    for c in bounds:
        if eng.solver.prove(s3.facts(), ule(it, c), 4000)[0] == 'proved':
            term = True; tb = c; s3.assume(ule(it, c)); break
    more = []
    for c in bounds if term else ():
        if c is not tb and eng.solver.prove(s3.facts(), ule(it, c), 1500)[0] == 'proved': s3.assume(ule(it, c)); more.append(c)
    if not term: raise NoGuess('no bound on the number of iterations found')
    sch.maps = G
    sch.planes = [(o, key) for (o, key) in fam]
    s3.schemas = st.schemas + (sch,)
    pcv = s3.pc
    eng.loopstack = getattr(eng, 'loopstack', 0) + 1
    ctxC = s3.fresh_ctx
    try:
        outs, back, exits = eng.run_blocks(f, [(loop.header, None, e3, s3)], loop)
    finally: eng.loopstack -= 1
    nxt = it + 1
    S1 = None
    devs = []
    for (p, e, s) in back:
        if not eng.feasible(s): continue
        if deviates(p, e, s, it): devs.append((p, e, s)); continue
        got = slots_of(eng, f, loop, p, e, s, {(k[1], k[2], k[3]) for k in G if k[0] == 'cell'}, pcs)
        goals = [(subst(cond, sub(it)), 'continue condition')]
        pr = sub(nxt)
        for k, (v0, d) in G.items():
            if d is None: continue
            goals.append((slot_eq(got.get(k, UNDEF), subst(CF[k], pr) if d else v0), 'slot %s' % (k[1:],)))
        for k in got:
            if k not in G: raise NoGuess('slot appears in the loop: %s' % (k,))
        extra = changed_cells(st, [s])
        for c in extra:
            if ('cell',) + c not in G: raise NoGuess('cell %s+%d changes in a later iteration' % (c[0], c[1]))
        S1 = summary(st, nxt)
        for k in G:
            if k[0] == 'pcell' and G[k][1] != 0: point(S1, k, subst(CF[k], pr))
        for o, m1 in s.mem.items():
            if o not in st.mem: continue
            mS = S1.mem[o]
            if isinstance(m1, Flat):
                if m1.freed is not st.mem[o].freed: raise NoGuess('storage released in a loop')
                if m1.ghost != st.mem[o].ghost: raise NoGuess('ghost cell changed')
                continue
            if m1 is mS: continue
            if m1.freed is not mS.freed or m1.cap is not mS.cap and not vsame(m1.cap, mS.cap): raise NoGuess('storage released in a loop')
            for key in set(m1.planes) | set(mS.planes):
                p1 = m1.planes.get(key); p2 = mS.planes.get(key)
                if p1 is p2: continue
                if p1 is None: p1 = Plane(raw_base)
                if p2 is None: p2 = Plane(raw_base)
                sk = bva(z3.BitVec('sk!%d' % next(eng.skc), 64))
                def compare(s):
                    dc = lambda c: eng.decide(s, c, 4000 if isinstance(c, bool) or not ring_terms(c) else 200)       # an undecided case is kept as an if-then-else
                    l1, v1 = p1.read(sk, dc); l2, v2 = p2.read(sk, dc)
                    lv = veq(l1, l2)
                    goals.append((lv, 'liveness of %s%s' % (o.name, key), s))
                    if l2 is not False and v2 is not UNDEF:
                        goals.append((Implies(l2, veq(v1, v2)) if v1 is not UNDEF else Not(l2), 'contents of %s%s' % (o.name, key), s))
                from .hooks import cases
                cases(eng, s, compare)
        for g, what, *sg in goals:
            r, d = eng.solver.prove((sg[0] if sg else s).facts(), g)
            if r != 'proved':
                del eng.obs[mark:]
                raise NoGuess('candidate invariant is not inductive: %s (%s)' % (what, r))
            if not eng.mute:
                from .exe import Obligation
                eng.obs.append(Obligation(eng.cur, 'loop invariant preserved: ' + what, 'proved', None, f.name))
    if not eng.mute:
        from .exe import Obligation
        eng.obs.append(Obligation(eng.cur, 'loop terminates: iterations bounded', 'proved', None, f.name))
        eng.nsum = getattr(eng, 'nsum', 0) + 1
    # exits that happen at a known iteration number c: the final partial iteration is taken at c itself, which gives simple terms.
    # (its obligations were discharged above for an arbitrary iteration)
    keep = []; at_c = []; dkeep = []
    for x, l in [(x, keep) for x in exits] + [(x, dkeep) for x in devs]:
        if not eng.feasible(x[-1]): continue
        for c in bounds:
            if eng.solver.prove(x[-1].facts(), eq(it, c), 4000)[0] == 'proved':
                if not any(c is y for y in at_c): at_c.append(c)
                break
        else: l.append(x)
    exits = keep; ndev = len(devs); devs = dkeep
    for c in at_c:
        e4, s4 = setup(c, True)
        sc = Schema(c, sub, cond, None, loop.header)
        s4.assume(Or(eq(c, BV(64, 0)), sc.at(c - 1)))
        s4.assume(sc.at(BV(64, 0)))
        for x in bounds: s4.assume(sc.at(x)); 
        s4.assume(ule(c, tb))
        for x in more:
            if x is not c: s4.assume(ule(c, x))
        sc.maps = G; sc.planes = sch.planes
        s4.schemas = st.schemas + (sc,)
        eng.mute += 1
        try: o4, b4, x4 = eng.run_blocks(f, [(loop.header, None, e4, s4)], loop)
        finally: eng.mute -= 1
        exits += [x for x in x4 if eng.feasible(x[3])]
        if ndev: devs += [x for x in b4 if eng.feasible(x[2]) and deviates(*x, c)]
    # leave the loop: restore the fresh-symbol context
    for o in outs: leave(o[2], outer_ctx, outer_fc)
    ex2 = []
    for (b, p, e, s) in exits:
        leave(s, outer_ctx, outer_fc); ex2.append((b, p, e, s))
    # the loop goes on along another chain of nodes: summarised from there, with an invariant of its own
    for (p, e, s) in devs:
        leave(s, outer_ctx, outer_fc)
        from .loops import handle_loop
        eng.phase = getattr(eng, 'phase', 0) + 1
        try:
            if eng.phase > 8: raise Unsupported('too many phases of loop %s in %s' % (loop.header, f.name))
            o5, x5 = handle_loop(eng, f, loop, p, e, s)
        finally: eng.phase -= 1
        outs += o5; ex2 += x5
    return outs, ex2

def leave(s, ctx, fc):
    s.fresh_ctx = ctx; s.fcount = dict(fc)

class RingFamily:
    """writes of iteration j at element ring(idx0 + b*j); at most capacity many iterations, so each element is written once"""
    k = 'ring'
    def __init__(s, idx0, b, cap, live, val, guard): s.idx0 = idx0; s.b = b; s.cap = cap; s.live = live; s.val = val; s.guard = guard
    def apply(s, pl, j, sub):
        def J(i): return mkring((i - s.idx0).scale(s.b), s.cap)
        def cond(i):
            c = And(ult(i, s.cap), ult(J(i), j))
            if s.guard is not True: c = And(c, subst(s.guard, sub(J(i))))
            return c
        def fn(i):
            pr = sub(J(i)); return subst(s.live, pr), subst(s.val, pr)
        return pl.rng(cond, fn)
class Family:
    """writes of iteration j at index a + b*em (b = +-1, em = k*it) for lanes 0..L-1 -> (live, value) as terms over it"""
    def __init__(s, idx0, b, k, live, val, guard, atom, lanes=1, merged=None):
        s.idx0 = idx0; s.b = b; s.k = k; s.live = live; s.val = val; s.guard = guard; s.atom = atom; s.lanes = lanes
    def apply(s, pl, j, sub):
        idx0, b, k, live, val, guard, L = s.idx0, s.b, s.k, s.live, s.val, s.guard, s.lanes
        atom = s.atom
        if k == 0:
            # the same index in every iteration: the last write survives
            pr = sub(j - 1)
            return pl.rng(lambda i: And(eq(i, idx0), ult(BV(64, 0), j), subst(guard, pr)), lambda i: (subst(live, pr), subst(val, pr)))
        if k == 1:
            def J(i): return (i - idx0).scale(b)
            def cond(i):
                jj = J(i); c = ult(jj, j)
                if guard is not True: c = And(c, subst(guard, sub(jj)))
                return c
            def fn(i):
                pr = sub(J(i)); return subst(live, pr), subst(val, pr)
            return pl.rng(cond, fn)
        # merged lanes: every element of a contiguous block of k*j elements is written
        def cond(i): return ult((i - idx0).scale(b), j.scale(k))
        def fn(i):
            pr = [(atom, (i - idx0).scale(b))]; return subst(live, pr), subst(val, pr)
        return pl.rng(cond, fn)

def collect(eng, f, loop, env, s2, st0, pc0, itv, ems, deviates, pcs):
    """run one generic iteration muted; -> families {(obj, plane key): [Family]}, continue condition, None"""
    eng.mute += 1
    try: outs, back, exits = eng.run_blocks(f, [(loop.header, None, env, s2)], loop)
    finally: eng.mute -= 1
    if not back: raise NoGuess('no generic back edge')
    paths = []
    for (p, e, s) in back:
        if not eng.feasible(s) or deviates(p, e, s, itv): continue
        cs = []; x = s.pc
        while x is not None and x is not pc0:
            if not x.ob: cs.append(x.f)      # an obligation of the iteration is not one of its branch conditions
            x = x.prev
        cs.reverse()
        ups = {}
        for o, m in s.mem.items():
            if o not in st0.mem: continue
            m0 = st0.mem[o]
            if m is m0: continue
            if isinstance(m, Flat): continue
            for key, pl in m.planes.items():
                p0 = m0.planes.get(key)
                n0 = len(p0.ups) if p0 is not None else 0
                if pl is p0: continue
                new = [u for u in pl.ups[n0:] if u[0] != 'pt' or (o, key, u[1].key()) not in pcs]
                if not new: continue
                ups[(o, key)] = new
        paths.append((cs, ups))
    if not paths: raise NoGuess('no feasible generic back edge')
    cond = Or(*[And(*c) for c, _ in paths]) if len(paths) > 1 else And(*paths[0][0])
    fam = {}
    multi = len(paths) > 1
    for cs, ups in paths:
        g = And(*cs) if multi else True
        for (o, key), new in ups.items():
            l = []
            # within one iteration a later write to the same index replaces the earlier one
            pts = []
            for u in new:
                if u[0] != 'pt': raise NoGuess('range write inside a loop')
                pts = [q for q in pts if not (q[1] - u[1]).isc() or (q[1] - u[1]).c != 0] + [u]
            for u in pts: l.append(classify(u, g, itv, ems))
            fam.setdefault((o, key), []).extend(l)
    out = {}
    for key, l in fam.items():
        if any(F.k == 'ring' for F in l):
            p0 = st0.mem[key[0]].planes.get(key[1])
            if all(F.live is False for F in l) and (p0 is None or p0.base is raw_base and not p0.ups): continue      # what was written is gone again
            if len(l) > 1: raise NoGuess('several ring writes')
        out[key] = order(merge_lanes(l))
    return out, cond, None

def classify(u, guard, itv, ems):
    idx = u[1]
    ia = next(iter(itv.t))
    atoms = {next(iter(e.t)): k for k, e in ems.items()}
    hit = [(a, c) for a, c in idx.t.items() if a == ia or a in atoms]
    for a in idx.t:
        if a in RINGOF: continue
        if a != ia and a not in atoms and occurs(ATOM(a), [ATOM(ia)] + [ATOM(x) for x in atoms]): raise NoGuess('write at a non-affine index')
    rg = ring_arg(idx)
    if rg and rg[1] is not None and rg[0].t.get(ia) in (1, (1 << 64) - 1):
        b = sgn(rg[0].t[ia], 64)
        rest = rg[0] - itv.scale(b)
        if not any(occurs(ATOM(a), [ATOM(ia)] + [ATOM(x) for x in atoms]) for a in rest.t): return RingFamily(rest, b, rg[1], u[2], u[3], guard)
    if not hit: return Family(idx, 0, 0, u[2], u[3], guard, None)
    if len(hit) > 1: raise NoGuess('write index mixes strides')
    a, c = hit[0]
    c = sgn(c, 64)
    k = 1 if a == ia else atoms[a]
    idx0 = BV(64, idx.c, {x: y for x, y in idx.t.items() if x != a})
    if abs(c) != 1: raise NoGuess('strided write')
    return Family(idx0, c, k, u[2], u[3], guard, ATOM(a))

_occ = {}
def occurs(e, vs):
    ids = frozenset(v.get_id() for v in vs)
    key = (e.get_id(), ids)
    if key in _occ: return _occ[key]
    st = [e]; seen = set(); r = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: r = True; break
        st.extend(x.children())
    _occ[key] = r
    return r

def merge_lanes(l):
    """k lanes of a vector store with one template become one family over the contiguous block"""
    out = [F for F in l if F.k == 'ring' or F.k <= 1]
    grp = {}
    for F in l:
        if F.k != 'ring' and F.k > 1: grp.setdefault((F.k, F.b), []).append(F)
    for (k, b), fs in grp.items():
        if any(F.guard is not True for F in fs): raise NoGuess('conditional vector store')
        while fs:
            # a run of k consecutive indices
            base = None
            for F in fs:
                offs = {}
                for H in fs:
                    d = H.idx0 - F.idx0
                    if d.isc(): offs[d.sc()] = H
                if all(q in offs for q in range(k)): base = (F, offs); break
            if base is None: raise NoGuess('vector store lanes do not tile the block')
            F0, offs = base
            lanes = [offs[q] for q in range(k)]
            X = bva(z3.BitVec('lane!X', 64))
            # iteration block covers idx0(lane) + b*em .. ; for b=+1 element index i = idx0_0 + em + q ; for b=-1 i = idx0_0 - em + q
            temps = []
            for q, H in enumerate(lanes):
                # em = b*(i - idx0_q)
                pr = [(H.atom, (X - H.idx0).scale(b))]
                temps.append((subst(H.live, pr), subst(H.val, pr)))
            t0 = temps[0]
            for t in temps[1:]:
                if not (same(t[0], t0[0]) and same(t[1], t0[1])): raise NoGuess('vector lanes have different templates')
            if b == 1: org = lanes[0].idx0
            else: org = lanes[k - 1].idx0          # highest index of the first block
            # element i belongs to the written block iff b*(i - org) < k*it ; template in em := b*(i - org)
            pr = [(bvatom(X), org + BV(64, 0, {next(iter(bva(F0.atom).t)): b % (1 << 64)}))]
            out.append(Family(org, b, k, subst(t0[0], pr), subst(t0[1], pr), True, F0.atom, lanes=k))
            for H in lanes: fs.remove(H)
    return out
def bvatom(x): return ATOM(next(iter(x.t)))
def same(a, b):
    if a is UNDEF or b is UNDEF: return a is b
    return veq(a, b) is True or (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and simp(a).eq(simp(b)))

def order(l):
    """oldest first: a write by an earlier iteration (larger lag at the same index) precedes"""
    def lagkey(F, G):
        pass
    out = []
    for F in l:
        pos = len(out)
        # F comes after every family that is overwritten by F; insert before families whose writes at an index are newer
        for n, Gm in enumerate(out):
            if F.k == Gm.k == 1 and F.b == Gm.b:
                d = (F.idx0 - Gm.idx0)
                if d.isc():
                    # index i written by F at jF = b(i-aF), by G at jG = b(i-aG); jF - jG = -b*(aF-aG)
                    lag = -F.b * d.sc()
                    if lag < 0: pos = min(pos, n)      # F's write is older
        out.insert(pos, F)
    return out

def crossings(cond, its, ems):
    """iteration numbers where a comparison of the continue condition can change its truth value"""
    if isinstance(cond, bool): return []
    out = []; seen = set(); keys = set()
    iid = its.get_id()
    emid = {next(iter(e.t)): k for k, e in ems.items()}
    vs = [its] + [ATOM(a) for a in emid]
    st = [cond]
    CMP = {z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_EQ}
    UNS = {z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ}
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() in CMP and z3.is_bv(e.arg(0)) and e.arg(0).size() == 64:
            L, R = from_z3(e.arg(0)), from_z3(e.arg(1))
            Ds = [L - R]
            if e.decl().kind() in UNS: Ds += [X for X in (L, R) if X.t and X.key() != Ds[0].key()]     # where a side wraps around
            ra, rb = ring_arg(L), ring_arg(R)
            if ra and rb and (ra[1] or rb[1]):
                Ds = [ra[0] - rb[0]]
            for D in Ds:
                k = 0; rest = {}; bad = False
                for a, c in D.t.items():
                    c = sgn(c, 64)
                    if a == iid: k += c
                    elif a in emid: k += c * emid[a]
                    elif occurs(ATOM(a), vs): bad = True
                    else: rest[a] = c
                if not k or bad: continue
                D0 = BV(64, D.c, {a: c % (1 << 64) for a, c in rest.items()})
                x = D0.scale(-1) if k > 0 else D0
                kk = abs(k)
                if kk == 1: js = [x]
                elif x.sc() % kk == 0 and all(sgn(c, 64) % kk == 0 for c in x.t.values()):
                    js = [BV(64, x.sc() // kk, {a: (sgn(c, 64) // kk) % (1 << 64) for a, c in x.t.items()})]
                else: js = [bva(z3.UDiv(x.z(), z3.BitVecVal(kk, 64)))]
                if e.decl().kind() != z3.Z3_OP_EQ: js += [js[0] + 1, js[0] - 1]
                for j in js:
                    if j.key() not in keys:
                        keys.add(j.key()); out.append(j)
            continue
        if z3.is_app(e): st.extend(e.children())
    return out[:12]

def instantiate(eng, st, obj, idx):
    """use every loop fact 'for all j < it' at the iterations that touch element idx of obj"""
    for sch in st.schemas:
        for k, (v0, d) in sch.maps.items():
            if k[0] == 'phi' and isinstance(v0, Ptr) and v0.obj is obj and d:
                stp = abs(d) // (obj.stride or 1)
                try: i0, fo = eng.split(st, obj, v0.off)
                except Unsupported: continue
                x = (idx - i0) if d > 0 else (i0 - idx)
                j = x if stp == 1 else bva(z3.UDiv(x.z(), z3.BitVecVal(stp, 64)))
                st.assume(sch.at(j))
                if d < 0: st.assume(sch.at(j - 1))

def instantiate_goal(eng, st, g):
    """use the loop facts at every index the goal reads from an initial sequence"""
    GOALF.clear()
    def use(f):
        st.assume(f)
        if not isinstance(f, bool): GOALF.add(f.get_id())
    idxs = []
    seen = set(); stack = [b_(g)]
    while stack:
        e = stack.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().name() == 'in' and e.num_args() == 2: idxs.append(from_z3(e.arg(1))); continue
            stack.extend(e.children())
    for sch in st.schemas:
        for ix in idxs[:6]:
            for k, (v0, d) in sch.maps.items():
                if k[0] == 'phi' and isinstance(v0, Ptr) and v0.obj is not None and v0.obj.stride and d:
                    stp = abs(d) // v0.obj.stride
                    try: i0, fo = eng.split(st, v0.obj, v0.off)
                    except Unsupported: continue
                    x = (ix - i0) if d > 0 else (i0 - ix)
                    j = x if stp == 1 else bva(z3.UDiv(x.z(), z3.BitVecVal(stp, 64)))
                    use(sch.at(j))
                    if d < 0: use(sch.at(j - 1))
