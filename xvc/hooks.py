"""Contracts of the driver hooks (drivers/xv.hpp): element life cycle, allocation, ghost counters, obligations."""
import z3
from . import ir
from .sym import *
from .exe import Path

B64 = z3.BitVecSort(64)
IN = z3.Function('in', B64, B64, B64)
RANK = z3.Function('rank', B64, B64)

def cstr(eng, p):
    g = eng.mod.globals.get(p.obj.name)
    if g is None: return '?'
    v = g['init']
    try: return bytes(x[2] for x in v[2]).split(b'\0')[0].decode()
    except Exception: return '?'

def acc(eng, st, p, what, inst):
    """-> (is_flat, state, key/idx)"""
    m = eng.chk_access(st, p, None, what, inst)
    if isinstance(m, Flat):
        if not p.off.isc():
            for k in sorted(m.ghost):
                c = eq(p.off, BV(64, k)); d = eng.decide(st, c)
                if d is None: raise NeedFork(c)
                if d: p = Ptr(p.obj, k); break
            else: raise Unsupported('element at a symbolic offset of a fixed object')
        off = p.off.sc()
        if off < 0 or (p.obj.size is not None and off >= p.obj.size):
            eng.ob(st, False, '%s: element inside %s' % (what, p.obj.name), str(inst)); raise Path()
        return True, m, off, None
    idx, f = eng.split(st, p.obj, p.off)
    eng.seq_inb(st, p, m, idx, 1, what, inst)
    return False, m, idx, ('e', f)
def get(eng, st, a):
    fl, m, i, key = a
    if fl: return m.ghost.get(i, (False, UNDEF))
    pl = m.planes.get(key)
    if pl is None: return (False, UNDEF)
    return pl.read(i, lambda c: eng.decide(st, c))
def put(eng, st, p, a, live, val):
    fl, m, i, key = a
    if p.obj.kind == 'const': eng.ob(st, False, 'read-only input is not modified', '')
    if 'watch' in st.ghost:
        from .heaploop import recount
        recount(eng, st, get(eng, st, a), (live, val))
    m = st.w(p.obj)
    if fl:
        if live is False: m.ghost.pop(i, None)
        else: m.ghost[i] = (live, val)
    else: m.planes[key] = m.planes.get(key, Plane(raw_base)).point(i, live, val)
def need(eng, st, g, label, inst):
    if g is not True: eng.ob(st, g, label, str(inst))
    elif not eng.mute:
        from .exe import Obligation
        eng.obs.append(Obligation(eng.cur, label, 'proved', None, str(inst)))

def rd(eng, st, p, inst, what):
    a = acc(eng, st, p, what, inst)
    l, v = get(eng, st, a)
    need(eng, st, l, '%s: the element is alive' % what, inst)
    if v is UNDEF: raise Unsupported('value of a live element is unknown')
    return a, v
def moved(eng, st): return eng.fresh_bv(st, 'moved', 64)

def el_vc(eng, st, a, inst, env):
    x = acc(eng, st, a[0], 'construct', inst); l, _ = get(eng, st, x)
    need(eng, st, Not(l), 'construct: the target holds no live element', inst)
    put(eng, st, a[0], x, True, a[1])
def el_cc(eng, st, a, inst, env):
    _, v = rd(eng, st, a[1], inst, 'copy construct: source')
    return el_vc(eng, st, [a[0], v], inst, env)
def el_mc(eng, st, a, inst, env):
    x, v = rd(eng, st, a[1], inst, 'move construct: source')
    put(eng, st, a[1], x, True, moved(eng, st))
    return el_vc(eng, st, [a[0], v], inst, env)
def el_ca(eng, st, a, inst, env):
    _, v = rd(eng, st, a[1], inst, 'copy assign: source')
    x, _ = rd0(eng, st, a[0], inst, 'copy assign: target')
    put(eng, st, a[0], x, True, v)
def rd0(eng, st, p, inst, what):
    a = acc(eng, st, p, what, inst); l, v = get(eng, st, a)
    need(eng, st, l, '%s: the element is alive' % what, inst)
    return a, v
def el_ma(eng, st, a, inst, env):
    x, v = rd(eng, st, a[1], inst, 'move assign: source')
    y, _ = rd0(eng, st, a[0], inst, 'move assign: target')
    mv = moved(eng, st)
    put(eng, st, a[1], x, True, mv)
    same = eng.icmp('eq', a[0], a[1], st)
    if same is not False:
        d = eng.decide(st, same)
        same = d if d is not None else same
    put(eng, st, a[0], acc(eng, st, a[0], 'move assign', inst), True, merge(same, mv, v))
def el_d(eng, st, a, inst, env):
    x, _ = rd0(eng, st, a[0], inst, 'destroy')
    put(eng, st, a[0], x, False, UNDEF)
def el_v(eng, st, a, inst, env): return rd(eng, st, a[0], inst, 'read')[1]
def el_live(eng, st, a, inst, env):
    x = acc(eng, st, a[0], 'ghost', inst); return get(eng, st, x)[0]
def el_eq(eng, st, a, inst, env):
    return eq(rd(eng, st, a[0], inst, 'compare')[1], rd(eng, st, a[1], inst, 'compare')[1])

def al_alloc(eng, st, a, inst, env):
    n, sz = a
    if not sz.isc(): raise Unsupported('symbolic element size')
    o = Obj('heap', 'heap', None, sz.c, align=16)
    k = eng.allocs_n = getattr(eng, 'allocs_n', 0) + 1
    if st.fresh_ctx: raise Unsupported('allocation inside a summarised loop')
    eng.ob(st, ule(n, BV(64, (1 << 62) // sz.c)), 'allocation size is reasonable', str(inst))
    m = Seq(n); st.mem[o] = m
    st.ghost['heap'] = st.ghost.get('heap', ()) + (o,)
    return Ptr(o, 0)
def al_node(eng, st, a, inst, env):
    """one node: the next unused element of the pool of its size (an object per size, so that nodes made by a loop are indexed by its iterations)"""
    sz = a[0]
    if not sz.isc(): raise Unsupported('symbolic node size')
    key = 'pool:%d' % sz.c
    if key not in st.ghost:
        from .summ import NoGuess
        if st.fresh_ctx: raise NoGuess('the first node is made inside the loop')
        pools = eng.__dict__.setdefault('pools', {})
        if sz.c not in pools:
            pools[sz.c] = o = Obj('nodes', 'heap', None, sz.c, align=16); o.linear_only = True; o.pool = True
        o = pools[sz.c]
        st.ghost[key] = (o,); st.ghost['n' + key] = BV(64, 0)
        st.mem[o] = Seq(None, {'alloc': Plane(raw_base)}, meta={'alloc': 1})
        st.ghost['heap'] = st.ghost.get('heap', ()) + (o,)
    o = st.ghost[key][0]; i = st.ghost['n' + key]
    st.ghost['n' + key] = i + 1
    m = st.w(o); m.planes['alloc'] = m.planes['alloc'].point(i, True, UNDEF)
    return Ptr(o, i.scale(sz.c))
def free_node(eng, st, p, n, sz, inst):
    m = st.mem[p.obj]
    i, f = eng.split(st, p.obj, p.off)
    need(eng, st, f == 0, 'release of the start of a node', inst)
    l = m.planes['alloc'].read(i, lambda c: eng.decide(st, c))[0]
    need(eng, st, l, 'release of a node that is allocated', inst)
    need(eng, st, And(eq(n, BV(64, 1)), eq(sz, BV(64, p.obj.stride))), 'a node is released with the size it was obtained with', inst)
    for key, pl in m.planes.items():
        if key[0] == 'e': need(eng, st, Not(pl.read(i, lambda c: eng.decide(st, c))[0]), 'no live element in a released node', inst)
    m = st.w(p.obj); m.planes['alloc'] = m.planes['alloc'].point(i, False, UNDEF)
def cases(eng, s, fn, depth=6):
    """fn(state) on every case that a read distinguishes"""
    try: return fn(s)
    except NeedFork as nf:
        if not depth: raise Unsupported('too many cases')
        for c in (nf.cond, Not(nf.cond)):
            s2 = s.copy(); s2.assume(c)
            if eng.feasible(s2): cases(eng, s2, fn, depth - 1)
def xv_genlist(eng, st, a, inst, env):
    """cut: prove that the pointer at p is a chain of exactly n nodes, the only ones allocated, holding in(tag, 0) .. in(tag, n-1);
    then forget how it was built"""
    p, n, tag, es = a
    sz = es.c
    mf = st.mem[p.obj]
    h = mf.cells[p.off.sc()][1] if p.off.sc() in mf.cells else UNDEF
    if isinstance(h, Ptr) and h.isnull() or isinstance(h, BV) and h.isc() and h.c == 0:
        eng.ob(st, eq(n, BV(64, 0)), 'an empty list when n is 0', str(inst)); return None
    o = st.ghost.get('pool:%d' % sz, (None,))[0]
    if o is None or not isinstance(h, Ptr) or h.obj is not o: eng.ob(st, False, 'the list starts at a node', str(inst)); raise Path()
    eng.ob(st, eq(h.off, BV(64, 0)), 'the list starts at its first node', str(inst))
    eng.ob(st, eq(st.ghost['npool:%d' % sz], n), 'n nodes are made', str(inst))
    m = st.mem[o]
    sk = eng.fresh_bv(st, 'sk', 64)
    from .summ import instantiate
    def chk(label, pre, f):
        s2 = st.copy(); s2.assume(pre); instantiate(eng, s2, o, sk)
        cases(eng, s2, lambda s3: obl(eng, s3, f(s3, lambda c: eng.decide(s3, c)), label, inst))
    nx = m.planes.get(('d', 0, 8), Plane(raw_base)); el = m.planes.get(('e', 8), Plane(raw_base))
    def is_next(v, w):
        if w is None: return isinstance(v, Ptr) and v.isnull() or isinstance(v, BV) and eq(v, BV(64, 0))
        return isinstance(v, Ptr) and v.obj is o and eq(v.off, w)
    chk('every node of the list is allocated', ult(sk, n), lambda s, d: m.planes['alloc'].read(sk, d)[0])
    chk('no other node is allocated', Not(ult(sk, n)), lambda s, d: Not(m.planes['alloc'].read(sk, d)[0]))
    chk('each node is linked to the next', ult(sk, n - 1), lambda s, d: is_next(nx.read(sk, d)[1], (sk + 1).scale(sz)))
    chk('the last node is linked to nothing', eq(sk, n - 1), lambda s, d: is_next(nx.read(sk, d)[1], None))
    chk('each node holds a live element', ult(sk, n), lambda s, d: el.read(sk, d)[0])
    chk('contents', ult(sk, n), lambda s, d: eq(el.read(sk, d)[1], bva(IN(tag.z(), sk.z()))))
    for k in m.planes:
        if k[0] == 'e' and k != ('e', 8): eng.ob(st, False, 'elements sit at the storage of a node', str(inst))
    L = Obj('list%d' % (tag.c if tag.isc() else 0), 'heap', None, sz, align=16); L.linear_only = True; L.pool = True
    L.nullable = n.scale(sz)
    st.mem[L] = Seq(n, {'alloc': Plane(lambda i: (ult(i, n), UNDEF)), ('d', 0, 8): Plane(lambda i: (ult(i, n), Ptr(L, (i + 1).scale(sz)))),
                        ('e', 8): Plane(lambda i: (ult(i, n), bva(IN(tag.z(), i.z()))))}, meta={'alloc': 1})
    del st.mem[o]; del st.ghost['pool:%d' % sz]; del st.ghost['npool:%d' % sz]
    st.ghost['heap'] = tuple(x for x in st.ghost['heap'] if x is not o) + (L,)
    m = st.w(p.obj); m.cells[p.off.sc()] = (8, Ptr(L, 0))
    st.ghost['owned'] = st.ghost.get('owned', ()) + (L,)
    st.schemas = ()
def al_free(eng, st, a, inst, env):
    p, n, sz = a
    if p is not UNDEF and p.obj is not None and getattr(p.obj, 'pool', False): return free_node(eng, st, p, n, sz, inst)
    if p is UNDEF or p.obj is None or p.obj.kind != 'heap':
        eng.ob(st, False, 'release of storage that was allocated', str(inst)); raise Path()
    m = st.mem[p.obj]
    need(eng, st, Not(m.freed), 'storage is released once', inst)
    need(eng, st, eq(p.off, BV(64, 0)), 'release of the start of an allocation', inst)
    need(eng, st, eq(n, m.cap), 'storage is released with the size it was obtained with', inst)
    need(eng, st, eq(sz, BV(64, p.obj.stride)), 'storage is released with its element size', inst)
    dead(eng, st, p.obj, m, BV(64, 0), n, 'no live element in released storage', inst)
    m = st.w(p.obj); m.freed = True
def dead(eng, st, o, m, lo, n, label, inst):
    for key, pl in m.planes.items():
        if key[0] != 'e': continue
        sk = eng.fresh_bv(st, 'sk', 64)
        l, _ = pl.read(sk, None)
        s2 = st.copy(); s2.assume(And(ule(lo, sk), ult(sk, n)))
        from .summ import instantiate
        instantiate(eng, s2, o, sk)
        l, _ = pl.read(sk, lambda c: eng.decide(s2, c))
        obl(eng, s2, Not(l), label, inst)
def obl(eng, s2, g, label, inst):
    """obligation under extra (skolem) facts: not assumed afterwards"""
    if eng.mute: return
    r, d = eng.solver.prove_hard(s2.facts(), g)
    from .exe import Obligation
    eng.obs.append(Obligation(eng.cur, label, r, None if r == 'proved' else eng.explain(s2, g, r, d), str(inst)))

def xv_gen(eng, st, a, inst, env):
    """cut: prove that data is an allocation of exactly cap elements, live exactly on [0,size) with contents in(tag, .);
    then forget how it was built"""
    p, n, cap, tag, es = a
    if p.isnull():
        eng.ob(st, And(eq(n, BV(64, 0)), eq(cap, BV(64, 0))), 'null storage only when empty', str(inst)); return None
    inv(eng, st, a[0], n, cap, es, inst, tag)
    o = p.obj
    m = st.w(o)
    key = ('e', 0)
    m.planes = {key: Plane(lambda i, n=n, tag=tag: (ult(i, n), bva(IN(tag.z(), i.z()))))}
    st.schemas = ()
def inv(eng, st, p, n, cap, es, inst, tag=None):
    eng.ob(st, ule(n, cap), 'size never exceeds capacity', str(inst))
    if p.obj is None:
        eng.ob(st, And(p.isnull(), eq(cap, BV(64, 0))), 'null storage has no capacity', str(inst)); return
    if p.obj.kind != 'heap': eng.ob(st, False, 'data() is an allocation', str(inst)); raise Path()
    m = st.mem[p.obj]
    eng.ob(st, And(Not(m.freed), eq(p.off, BV(64, 0))), 'data() is the start of an allocation that is not released', str(inst))
    eng.ob(st, And(eq(cap, m.cap), eq(es, BV(64, p.obj.stride))), 'capacity() is the size of the allocation', str(inst))
    sk = eng.fresh_bv(st, 'sk', 64)
    s2 = st.copy(); s2.assume(ult(sk, cap))
    from .summ import instantiate
    instantiate(eng, s2, p.obj, sk)
    pl = m.planes.get(('e', 0), Plane(raw_base))
    l, v = pl.read(sk, lambda c: eng.decide(s2, c))
    obl(eng, s2, beq(l, ult(sk, n)), 'live elements are exactly [0, size)', inst)
    if tag is not None and v is not UNDEF:
        s2.assume(ult(sk, n))
        obl(eng, s2, eq(v, bva(IN(tag.z(), sk.z()))), 'contents', inst)
    for k in m.planes:
        if k[0] == 'e' and k != ('e', 0): eng.ob(st, False, 'elements sit at element boundaries', str(inst))
    own = st.ghost.get('owned', ())
    if p.obj in own: eng.ob(st, False, 'storage has one owner', str(inst))
    st.ghost['owned'] = own + (p.obj,)
def beq(a, b):
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return a == b
def xv_inv(eng, st, a, inst, env): inv(eng, st, a[0], a[1], a[2], a[3], inst)

def xv_assume(eng, st, a, inst, env):
    st.assume(a[0])
    if a[0] is False or (a[0] is not True and eng.decide(st, a[0]) is False): raise Path()
def xv_check(eng, st, a, inst, env):
    lab = cstr(eng, a[1])
    if a[0] is UNDEF: eng.ob(st, False, lab + ' (indeterminate)', str(inst)); raise Path()
    if st.schemas and a[0] is not True:
        # facts about completed loop iterations at the elements the goal talks about
        inst_goal(eng, st, a[0])
    need(eng, st, a[0], lab, inst)
def inst_goal(eng, st, g): 
    from .summ import instantiate_goal
    instantiate_goal(eng, st, g)
    if 'watch' in st.ghost:
        from .heaploop import use, index_terms
        use(st, index_terms(g))
def xv_in(eng, st, a, inst, env): return bva(IN(a[0].z(), a[1].z()))
def xv_pow2(eng, st, a, inst, env):
    """precondition: the capacity is a power of two"""
    st.assume(ule(BV(64, 1), a[0])); st.assume(ule(a[0], BV(64, 1 << 40)))
    if not a[0].isc(): st.ghost['pow2'] = a[0]
def xv_rank(eng, st, a, inst, env): return bva(RANK(a[0].z()))
def xv_nondet(eng, st, a, inst, env): return eng.fresh_bv(st, 'nd', 64)
def xv_data(eng, st, a, inst, env):
    """array of n w-byte integers at an address aligned for them only, contents the low bytes of in(tag, .)"""
    n, tag, w, wr = a
    w = w.c
    st.assume(ule(n, BV(64, 1 << 57)))
    o = Obj('data', 'io' if wr.c else 'const', None, w, align=w)
    st.mem[o] = Seq(n, {('d', 0, w): Plane(lambda i, tag=tag, n=n: (ult(i, n), eng.trunc(bva(IN(tag.z(), i.z())), 8 * w) if w < 8 else bva(IN(tag.z(), i.z()))))})
    return Ptr(o, 0)
def xv_same(eng, st, a, inst, env):
    """the C string at p is exactly the n bytes at q"""
    p, q, n = a
    def byte(s2, x, i):
        m = eng.chk_access(s2, x, None, 'read', inst)
        if isinstance(m, Flat):
            return eng.load_flat(s2, x.obj, m, (x.off + i).sc(), ir.I(8), inst) if (x.off + i).isc() else UNDEF
        eng.seq_inb(s2, x, m, x.off + i, 1, 'read', inst)
        return eng.rd(s2, x, m, ('d', 0, 1), x.off + i, inst)
    def case(s2, i, other):
        v = byte(s2, p, i)
        g = False if v is UNDEF else eq(v, byte(s2, q, i) if other else BV(8, 0))
        return g
    if p is UNDEF or p.obj is None: eng.ob(st, False, 'the name given is a string', str(inst)); raise Path()
    m = eng.chk_access(st, p, None, 'read', inst)
    if isinstance(m, Flat) and not n.isc():
        for k in range(p.obj.size):
            c = eq(n, BV(64, k)); d = eng.decide(st, c)
            if d is True: n = BV(64, k); break
            if d is None: raise NeedFork(c)
        else: eng.ob(st, False, 'the string given is terminated', str(inst)); raise Path()
    eng.ob(st, case(st, n, False), 'the string given ends exactly where the argument ends', str(inst))
    if n.isc() and n.c <= 32:
        for k in range(n.c): eng.ob(st, case(st, BV(64, k), True), 'the string given has the bytes of the argument', str(inst))
    else:
        s2 = st.copy(); sk = eng.fresh_bv(st, 'sk', 64); s2.assume(ult(sk, n))
        obl(eng, s2, case(s2, sk, True), 'the string given has the bytes of the argument', inst)
def xv_hit(eng, st, a, inst, env):
    if not a[0].isc(): raise Unsupported('symbolic ghost counter')
    k = 'hit%d' % a[0].c
    st.ghost[k] = st.ghost.get(k, BV(64, 0)) + 1
def xv_hits(eng, st, a, inst, env):
    if not a[0].isc(): raise Unsupported('symbolic ghost counter')
    return st.ghost.get('hit%d' % a[0].c, BV(64, 0))
def throws(name):
    def c(eng, st, a, inst, env):
        b = eng.fresh(st, name, z3.BoolSort())
        if not eng.throwing: st.assume(Not(b))     # symbolic all the same: a constant would look like the exit test of a counted loop
        return b
    return c
def op_new(eng, st, a, inst, env):
    n = a[0]
    if not n.isc():
        eng.ob(st, ule(n, BV(64, 1 << 62)), 'allocation size is reasonable', str(inst))
        o = Obj('new', 'heap', None, 1); o.align = 16
        st.mem[o] = Seq(n); st.ghost['heap'] = st.ghost.get('heap', ()) + (o,)
        return Ptr(o, 0)
    o = Obj('new', 'heap', n.c); o.align = a[1].c if len(a) > 1 else 16
    st.mem[o] = Flat(); st.ghost['heap'] = st.ghost.get('heap', ()) + (o,)
    return Ptr(o, 0)
def op_delete(eng, st, a, inst, env):
    p = a[0]
    if p.isnull(): return None
    if p.obj is None or p.obj.kind != 'heap':
        eng.ob(st, False, 'delete of an object from new', str(inst)); raise Path()
    m = st.mem[p.obj]
    need(eng, st, Not(m.freed), 'deleted once', inst)
    need(eng, st, eq(p.off, BV(64, 0)), 'delete of the start of an allocation', inst)
    if isinstance(m, Flat):
        for off, (l, v) in m.ghost.items():
            need(eng, st, Not(l), 'no live element in deleted storage', inst)
    m = st.w(p.obj); m.freed = True
def xv_elems(eng, st, a, inst, env):
    n, tag, sz = a
    eng.ob(st, ule(n, BV(64, (1 << 60) // sz.c)), 'input size is reasonable', str(inst)) if False else st.assume(ule(n, BV(64, (1 << 60) // sz.c)))
    o = Obj('input', 'const', None, sz.c, align=16)
    st.mem[o] = Seq(n, {('e', 0): Plane(lambda i, tag=tag, n=n: (ult(i, n), bva(IN(tag.z(), i.z()))))})
    return Ptr(o, 0)
def xv_words(eng, st, a, inst, env):
    n, tag, sz = a
    st.assume(ule(n, BV(64, 1 << 57)))
    o = Obj('input', 'const', None, 8, align=16)
    st.mem[o] = Seq(n, {('d', 0, 8): Plane(lambda i, tag=tag, n=n: (ult(i, n), bva(IN(tag.z(), i.z()))))})
    return Ptr(o, 0)
def xv_genw(eng, st, a, inst, env):
    p, n, cap, tag, es = a
    if p.isnull():
        eng.ob(st, And(eq(n, BV(64, 0)), eq(cap, BV(64, 0))), 'null storage only when empty', str(inst)); return None
    invw(eng, st, p, n, cap, es, inst, tag)
    m = st.w(p.obj)
    m.planes = {('d', 0, 8): Plane(lambda i, n=n, tag=tag: (ult(i, n), bva(IN(tag.z(), i.z()))))}
    st.schemas = ()
def invw(eng, st, p, n, cap, es, inst, tag=None):
    eng.ob(st, ule(n, cap), 'size never exceeds capacity', str(inst))
    if p.obj is None:
        eng.ob(st, And(p.isnull(), eq(cap, BV(64, 0))), 'null storage has no capacity', str(inst)); return
    if p.obj.kind != 'heap': eng.ob(st, False, 'data() is an allocation', str(inst)); raise Path()
    m = st.mem[p.obj]
    eng.ob(st, And(Not(m.freed), eq(p.off, BV(64, 0))), 'data() is the start of an allocation that is not released', str(inst))
    eng.ob(st, And(eq(cap, m.cap), eq(es, BV(64, p.obj.stride))), 'capacity() is the size of the allocation', str(inst))
    sk = eng.fresh_bv(st, 'sk', 64)
    s2 = st.copy(); s2.assume(ult(sk, n))
    from .summ import instantiate
    instantiate(eng, s2, p.obj, sk)
    l, v = m.planes.get(('d', 0, 8), Plane(raw_base)).read(sk, lambda c: eng.decide(s2, c))
    obl(eng, s2, l, 'elements [0, size) are initialised', inst)
    if tag is not None and v is not UNDEF: obl(eng, s2, eq(v, bva(IN(tag.z(), sk.z()))), 'contents', inst)
    own = st.ghost.get('owned', ())
    if p.obj in own: eng.ob(st, False, 'storage has one owner', str(inst))
    st.ghost['owned'] = own + (p.obj,)
def xv_invw(eng, st, a, inst, env): invw(eng, st, a[0], a[1], a[2], a[3], inst)
def xv_bytes(eng, st, a, inst, env):
    n, tag = a
    o = Obj('bytes', 'const', None, 1)
    m = Seq(n, {('d', 0, 1): Plane(lambda i, tag=tag, n=n: (ult(i, n), eng.trunc(bva(IN(tag.z(), i.z())), 8)))})
    st.mem[o] = m
    return Ptr(o, 0)

def xv_heapelems(eng, st, a, inst, env): return xv_elems(eng, st, a[:3], inst, env)
from .heaploop import xv_heap, xv_watch, xv_watched, xv_count, xv_top, xv_unwatch

def xv_pick(eng, st, a, inst, env):
    """case split over the values below n"""
    x, n = a
    st.assume(ult(x, n))
    for k in range(n.c):
        c = eq(x, BV(64, k)); d = eng.decide(st, c)
        if d is True: return BV(64, k)
        if d is None: raise NeedFork(c)
    raise Path()
def xv_alike(eng, st, a, inst, env):
    """two objects built by different calls are in the same state: equal members; what they own is alike element by element"""
    p, q, n = a
    from .summ import veq, instantiate
    pair = {}
    def value(x, y, what):
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is not None and y.obj is not None and x.obj is not y.obj and x.obj.kind == 'heap' and y.obj.kind == 'heap':
            need(eng, st, eq(x.off, y.off), what, inst); pair[x.obj] = y.obj; return
        need(eng, st, veq(x, y), what, inst)
    a_, b_ = st.mem[p.obj], st.mem[q.obj]
    if not isinstance(a_, Flat) or not isinstance(b_, Flat): raise Unsupported('comparison of array states')
    def cells(m, o): return {k - o: v for k, v in m.cells.items() if o <= k < o + n.c}, {k - o: v for k, v in m.ghost.items() if o <= k < o + n.c}
    ca, ga = cells(a_, p.off.sc()); cb, gb = cells(b_, q.off.sc())
    for k in sorted(set(ca) | set(cb)):
        x, y = ca.get(k), cb.get(k)
        if x is None or y is None or x[0] != y[0]: 
            if any(g <= k < g + 64 for g in set(ga) | set(gb)): continue
            if x is not None and y is not None: raise Unsupported('members stored with different widths')
            continue                                              # padding and raw storage
        if k in ga or k in gb: continue
        value(x[1], y[1], 'state after the call: member at %d' % k)
    for k in sorted(set(ga) | set(gb)):
        x, y = ga.get(k, (False, UNDEF)), gb.get(k, (False, UNDEF))
        need(eng, st, beq(x[0], y[0]), 'state after the call: element alive', inst)
        if x[0] is not False: need(eng, st, veq(x[1], y[1]), 'state after the call: element value', inst)
    for x, y in pair.items():
        m1, m2 = st.mem[x], st.mem[y]
        if isinstance(m1, Flat) or isinstance(m2, Flat): raise Unsupported('comparison of owned fixed objects')
        need(eng, st, eq(m1.cap, m2.cap), 'state after the call: storage size', inst)
        for key in set(m1.planes) | set(m2.planes):
            if key[0] != 'e': continue
            sk = eng.fresh_bv(st, 'sk', 64); s2 = st.copy(); s2.assume(ult(sk, m1.cap))
            instantiate(eng, s2, x, sk); instantiate(eng, s2, y, sk)
            l1, v1 = m1.planes.get(key, Plane(raw_base)).read(sk, lambda c: eng.decide(s2, c))
            l2, v2 = m2.planes.get(key, Plane(raw_base)).read(sk, lambda c: eng.decide(s2, c))
            obl(eng, s2, beq(l1, l2), 'state after the call: which slots hold an element', inst)
            s2.assume(l1)
            if l1 is not False and v1 is not UNDEF: obl(eng, s2, veq(v1, v2), 'state after the call: element values', inst)

def xv_thread(eng, st, a, inst, env):
    from . import conc
    q, role, p, c, k, cap, size, tag = a
    conc.start(eng, st, q, ('producer', 'consumer')[role.c], p, c, k, cap, size.c, tag); return True
def xv_pubs(eng, st, a, inst, env): return BV(64, len(st.ghost['conc'].pubs))
def xv_pub(eng, st, a, inst, env):
    v = st.ghost['conc'].pubs
    if a[0].c >= len(v) or v[a[0].c] is UNDEF: return eng.fresh_bv(st, 'nopub', 64)
    return v[a[0].c]
def xv_seen(eng, st, a, inst, env): return st.ghost['conc'].seen

TABLE = {'@' + k: v for k, v in dict(
    el_vc=el_vc, el_cc=el_cc, el_mc=el_mc, el_ca=el_ca, el_ma=el_ma, el_d=el_d, el_v=el_v, el_live=el_live, el_eq=el_eq, al_alloc=al_alloc, al_node=al_node, xv_genlist=xv_genlist, al_free=al_free,
    xv_gen=xv_gen, xv_inv=xv_inv, xv_assume=xv_assume, xv_check=xv_check, xv_in=xv_in, xv_rank=xv_rank, xv_pow2=xv_pow2, xv_alike=xv_alike, xv_thread=xv_thread, xv_pubs=xv_pubs, xv_pub=xv_pub, xv_seen=xv_seen, xv_pick=xv_pick, xv_nondet=xv_nondet, xv_hit=xv_hit, xv_hits=xv_hits,
    xv_throws=throws('throws'), xv_throws_alloc=throws('throws_alloc'), xv_bytes=xv_bytes, xv_same=xv_same, xv_data=xv_data, xv_heapelems=xv_heapelems, xv_heap=xv_heap, xv_watch=xv_watch, xv_watched=xv_watched, xv_count=xv_count, xv_top=xv_top, xv_unwatch=xv_unwatch, xv_elems=xv_elems, xv_words=xv_words, xv_genw=xv_genw, xv_invw=xv_invw,
    _Znwm=op_new, _ZnwmSt11align_val_t=op_new, _ZdlPv=op_delete, _ZdlPvm=op_delete, _ZdlPvmSt11align_val_t=op_delete, _ZdlPvSt11align_val_t=op_delete).items()}

def finish(eng, st, leaks=True):
    """end of a scenario: everything obtained has been given back"""
    from . import conc
    conc.finish(eng, st)
    own = st.ghost.get('owned', ())
    for o in st.ghost.get('heap', ()):
        if o in own: continue
        if o.pool:
            sk = eng.fresh_bv(st, 'sk', 64); s2 = st.copy()
            from .summ import instantiate
            instantiate(eng, s2, o, sk)
            for key, pl in st.mem[o].planes.items():
                if key == 'alloc': obl(eng, s2, Not(pl.read(sk, lambda c: eng.decide(s2, c))[0]), 'every node is returned', 'end')
                elif key[0] == 'e': obl(eng, s2, Not(pl.read(sk, lambda c: eng.decide(s2, c))[0]), 'every element is destroyed', 'end')
            continue
        need(eng, st, st.mem[o].freed, 'every allocation is returned', 'end')
    for o, m in st.mem.items():
        if isinstance(m, Flat) and o.kind in ('stack', 'global'):
            for off, (l, v) in m.ghost.items():
                need(eng, st, Not(l), 'every element is destroyed', 'end')
