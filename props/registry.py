from xvc.runner import Pure
from . import vec, mat
A_REAL = ['floating-point arithmetic is read as exact real arithmetic (rounding, overflow, NaN and infinities are outside the proof)']
A_INT = ['integer division: divisors of signed vectors are assumed positive, of unsigned vectors non-zero; signed overflow wraps']
def td(f): return any(p[3] == 'f' for p in f.params)
def pure(name, fns, assume=A_REAL, **kw):
    return Pure(lambda tier: [dict(name=name, hdr=vec.HDR, fns=fns(), trunc_identity=td, **kw)], assume)
PROPS = {
 'C01': pure('arith', lambda: vec.arith() + vec.compare(), A_REAL + A_INT),
 'C02': pure('geo', vec.geometry),
 'C03': pure('mat', mat.arith),
 'C04': pure('prod', mat.product),
 'C05': pure('mfun', mat.functions),
 'C06': pure('tf', mat.transforms),
 'C07': Pure(lambda tier: [dict(name='rh', hdr=vec.HDR, fns=mat.projections(), trunc_identity=td),
                           dict(name='lh', hdr=vec.HDR, defs=('XME_MATH_CLIP_LH',), fns=mat.projections(lh=True), trunc_identity=td)], A_REAL),
 'C08': pure('quat', mat.quaternion),
 'C09': pure('scal', lambda: mat.scalars() + mat.consts()),
}
from xvc.scen import Scenarios
from xvc.sym import prove_ring
from . import queue as que, view, small, pairs, dele, iters, arr, hal, alg, lst, heap
A_BIT = []
def scen(name, hdr, scs, assume=(), **kw): return Scenarios(lambda tier: [dict(name=name, hdr=hdr, scs=scs() if callable(scs) else scs, **kw)], assume)
PROPS.update({
 'C12': Scenarios(lambda tier: [dict(name='array', hdr=arr.H, scs=arr.scenarios()), dict(name='arrayw', hdr=arr.HW, scs=arr.scenarios())]),
 'C13': scen('array24', arr.H13, arr.scenarios),
 'C14': Scenarios(lambda tier: [dict(name='array', hdr=arr.H, scs=arr.throwing()), dict(name='list', hdr=lst.H, scs=lst.throwing())]),
 'C22': scen('aligned', small.HA, small.aligned),
 'C21': scen('pair', pairs.H, pairs.scenarios),
 'C23': scen('delegate', dele.H, dele.scenarios),
 'C24': scen('bind', small.HBIND, small.binds),
 'C25': scen('scoped', small.HS, small.scoped),
 'C26': scen('iter', iters.H, iters.scenarios),
 'C15': scen('view', view.H, view.scenarios),
 'C19': Scenarios(que.configs, (), [('lemmas of x & (capacity - 1), for each power of two', prove_ring)]),
 'C20': Scenarios(que.configs20, (), [('lemmas of x & (capacity - 1), for each power of two', prove_ring)], que.stress, ('A', 'B')),
 'C10': Scenarios(lambda tier: [dict(name=n, hdr=alg.HF, scs=alg.pick(alg.find(), n), defs=d, flags=f) for n, d, f in alg.CFG]),
 'C11': Scenarios(lambda tier: [dict(name=n, hdr=alg.HR, scs=alg.pick(alg.reverse(), n), defs=d, flags=f) for n, d, f in alg.CFG]),
  'C17': scen('list', lst.H, lst.scenarios),
 'C18': Scenarios(lambda tier: [dict(name='list', hdr=lst.H, scs=lst.scenarios(False) + lst.sequences()), dict(name='listt', hdr=lst.H, scs=lst.throwing())]),
 'C16': scen('heap', heap.H, heap.scenarios),
 'C28': scen('lib', hal.H28, hal.libs),
 'C29': scen('env', hal.H29, hal.env),
 'C27': scen('bits', small.HB, small.bits),
})
