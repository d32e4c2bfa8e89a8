"""Rely-guarantee view of a single-producer single-consumer ring (C20).

The producer has published p elements so far, the consumer has consumed c: 0 <= p - c <= cap - 1. The element with number i lives in
slot i mod cap. One thread runs the code under proof; the other may make any number of steps of its own at any time.
  rely:      the other side's counter only grows, and never beyond what it may do (c <= p, p <= c + cap - 1); each of its index stores
             is a release store, made after it has finished with the slot.
  guarantee: this side stores only its own index, the next value each time, with release order, after the slot is completely
             constructed (producer) or destroyed (consumer); it touches only slots it owns; it accesses the indices atomically and
             writes no other member of the queue.
There is one more slot than elements, so the slot given back last cannot be filled before the next one is given back as well. Which side
may still use it is a matter of contract; code that keeps either contract on both sides is right:
  A: the producer may use it at once; the consumer is finished with a slot before it gives it back
  B: the consumer may finish with it until it gives the next one back; the producer uses a slot only once it may also publish it
A slot changes hands to this thread only through an acquire load of the other side's index (or an acquire fence after a load); it
leaves it with the index store. The two sides' guarantees are each other's rely."""
import z3
from .sym import *
from .exe import Path
from . import ir

MODE = 'A'
MODES = {'A': 'the spare slot belongs to the producer', 'B': 'the slot given back last belongs to the consumer'}
class Conc:
    __slots__ = ('role', 'q', 'size', 'own_off', 'oth_off', 'raw', 'buf', 'key', 'cap', 'base', 'own', 'acq', 'seen', 'pubs', 'relfence', 'tag')
    def __init__(s, **k):
        for a in s.__slots__: setattr(s, a, k[a])
    def rep(s, **k):
        d = {a: getattr(s, a) for a in s.__slots__}; d.update(k); return Conc(**d)
    def enc(s, x): return x if s.raw else mkring(x, s.cap)
    def value(s, i): return bva(IN(s.tag.z(), (i - s.base).z()))
    def dist(s, slot, counter): return mkring(slot - counter, s.cap)
    def owned(s, slot):
        """slot belongs to this thread"""
        if s.role == 'producer': return ult(s.dist(slot, s.own), s.acq + s.cap - s.own - (1 if MODE == 'B' else 0))
        if MODE == 'B' and s.pubs: return ult(s.dist(slot, s.own - 1), s.acq - s.own + 1)
        return ult(s.dist(slot, s.own), s.acq - s.own)

IN = z3.Function('in', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
def get(st): return st.ghost.get('conc')
def put(st, c): st.ghost['conc'] = c
def O(eng, st, g, what, inst): eng.ob(st, g, what, str(inst))

def start(eng, st, q, role, p, c, acq, cap, size, tag):
    """begin the concurrent part: q was built by one thread; p elements went in, c came out; this thread knows of the other side's
    counter what an earlier acquire load told it"""
    o = q.obj; m = st.mem[o]
    cells = {}
    for off, (sz, v) in m.cells.items():
        if sz == 8 and isinstance(v, BV):
            for nm, x in (('p', p), ('c', c)):
                for raw in (False, True):
                    y = x if raw else mkring(x, cap)
                    if y.key() == v.key(): cells.setdefault(nm, []).append((off, raw))
    if len(cells.get('p', ())) != 1 or len(cells.get('c', ())) != 1 or cells['p'][0][1] != cells['c'][0][1]:
        raise Unsupported('the two indices of the queue are not recognised in its state')
    (w, raw), (r, _) = cells['p'][0], cells['c'][0]
    bufs = {v.obj for off, (sz, v) in m.cells.items() if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'heap'}
    if len(bufs) != 1: raise Unsupported('the storage of the queue is not recognised in its state')
    buf = bufs.pop()
    ms = st.mem[buf]
    O(eng, st, And(Not(ms.freed), eq(ms.cap, cap)), 'the storage has one slot per unit of capacity', 'start')
    keys = [k for k in ms.planes if k[0] in ('e', 'd')]
    el = [k for k in keys if k[0] == 'e']
    if len(el) > 1 or not el and len(keys) != 1: raise Unsupported('element storage is not recognised')
    key = el[0] if el else keys[0]
    from .summ import instantiate
    prod = role == 'producer'
    C = Conc(role=role, q=o, size=size, own_off=w if prod else r, oth_off=r if prod else w, raw=raw, buf=buf, key=key, cap=cap, base=c, own=p if prod else c, acq=c if prod else acq,
             seen=c if prod else acq, pubs=(), relfence=False, tag=tag)
    # the state that one thread left agrees with the view the other side starts from
    sk = eng.fresh_bv(st, 'sk', 64); s2 = st.copy(); s2.assume(ult(sk, cap)); instantiate(eng, s2, buf, sk)
    from .hooks import obl
    if key[0] == 'e' or not prod:
        s2.assume(C.owned(sk))
        l, v = ms.planes[key].read(sk, lambda x: eng.decide(s2, x))
        if prod: obl(eng, s2, Not(l), 'slots outside the queued range hold no element', 'start')
        else:
            obl(eng, s2, l, 'queued slots hold an element', 'start'); s2.assume(l)
            if l is not False and v is not UNDEF: obl(eng, s2, eq(v, C.value(c + C.dist(sk, c))), 'queued values are in order', 'start')
    mw = st.w(buf)
    if prod: mw.planes = {key: Plane(raw_base)}
    else: mw.planes = {key: Plane(lambda i, C=C: (True, C.value(C.base + C.dist(i, C.base))))}
    st.schemas = ()
    put(st, C)
    eng.on_atomic = lambda kind, st_, p_, i_, v_: atomic(eng, kind, st_, p_, i_, v_)

def transfer(st, C):
    """everything the other side did before the observed index value happens before what follows"""
    if C.acq.key() == C.seen.key(): return C
    m = st.w(C.buf)
    lo, n = C.acq, C.seen - C.acq
    pl = m.planes.get(C.key, Plane(raw_base))
    cond = lambda i: And(ult(i, C.cap), ult(C.dist(i, lo), n))
    if C.role == 'producer':
        if C.pubs and C.key[0] == 'e': m.planes[C.key] = pl.rng(cond, lambda i: (False, UNDEF))
    else: m.planes[C.key] = pl.rng(cond, lambda i: (True, C.value(lo + C.dist(i, lo))))
    return C.rep(acq=C.seen)

def atomic(eng, kind, st, p, i, v):
    C = get(st)
    if C is None or not isinstance(p, Ptr) or p.obj is not C.q: return None
    if not p.off.isc(): raise Unsupported('atomic access at a symbolic offset')
    off = p.off.sc(); order = i.x['atomic']
    if off not in (C.own_off, C.oth_off): return None
    if ir.size_of(i.ty) != 8: raise Unsupported('partial access to an index')
    if kind == 'load':
        if off == C.own_off: return C.enc(C.own)
        n = eng.fresh_bv(st, 'other', 64)
        st.assume(ule(C.seen, n)); st.assume(ule(n, C.own if C.role == 'producer' else C.own + C.cap - 1))
        C = C.rep(seen=n)
        if order in ('acquire', 'seq_cst'): C = transfer(st, C)
        put(st, C)
        return C.enc(n)
    O(eng, st, off == C.own_off, 'only the own index is stored', i)
    if off != C.own_off: raise Path()
    O(eng, st, order in ('release', 'seq_cst') or C.relfence, 'the index store publishes with release order', i)
    O(eng, st, eq(v, C.enc(C.own + 1)), 'the stored index is the next one', i)
    slot = mkring(C.own, C.cap)
    pl = st.mem[C.buf].planes.get(C.key, Plane(raw_base))
    l, x = pl.read(slot, lambda c: eng.decide(st, c))
    if C.role == 'producer':
        O(eng, st, ult(C.own + 1 - C.acq, C.cap), 'the slot after the published one is known to be consumed', i)
        O(eng, st, l, 'the slot is completely constructed before it is published', i)
        C = C.rep(own=C.own + 1, pubs=C.pubs + (x,))
    else:
        O(eng, st, ult(C.own, C.acq), 'only an element that was acquired is given back', i)
        if C.key[0] == 'e':
            if MODE == 'A': O(eng, st, Not(l), 'the element is destroyed before its slot is given back', i)
            elif C.pubs: gone(eng, st, C, i)
        C = C.rep(own=C.own + 1, pubs=C.pubs + (UNDEF,))
    put(st, C)
    return True

def fence(eng, st, words, i):
    C = get(st)
    if C is None: return
    if any(w in ('acquire', 'acq_rel', 'seq_cst') for w in words): C = transfer(st, C)
    if any(w in ('release', 'acq_rel', 'seq_cst') for w in words): C = C.rep(relfence=True)
    put(st, C)

def member(eng, st, p, size, what, inst):
    """plain access to the queue object"""
    C = get(st)
    if not p.off.isc(): raise Unsupported('access to the queue at a symbolic offset')
    off = p.off.sc()
    wr = 'load' not in what and 'read' not in what
    if size is None or not isinstance(size, int): size = 8
    hit = lambda o: off < o + 8 and o < off + size
    O(eng, st, not hit(C.oth_off) and not (wr and hit(C.own_off)), 'the shared indices are accessed atomically', inst)
    O(eng, st, not wr, 'no shared member is written without synchronisation', inst)

def slot(eng, st, p, idx, n, what, inst):
    """access to a slot of the shared storage"""
    C = get(st)
    if not (isinstance(n, BV) and n.isc() and n.c == 1): raise Unsupported('access to several slots')
    O(eng, st, C.owned(idx), '%s: the slot belongs to this thread' % what, inst)
    if C.relfence: put(st, C.rep(relfence=False))

def gone(eng, st, C, i):
    """contract B: the slot given back last holds no element any more"""
    l, _ = st.mem[C.buf].planes.get(C.key, Plane(raw_base)).read(mkring(C.own - 1, C.cap), lambda c: eng.decide(st, c))
    O(eng, st, Not(l), 'the element is destroyed before the next slot is given back', i)

def finish(eng, st):
    C = get(st)
    if C is not None and C.role == 'consumer' and MODE == 'B' and C.pubs and C.key[0] == 'e': gone(eng, st, C, 'end')
