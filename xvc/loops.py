"""Loops. Exits that are decided by the state are followed exactly (concrete unrolling); otherwise the loop is
summarised by an inductive invariant (xvc.summ) that is inferred from the code and then verified."""
from . import ir
from .sym import *

import os
DBG = os.environ.get('XVC_DLOOP')
def handle_loop(eng, f, loop, prev, env, st):
    """-> (outs, exit worklist)"""
    outs, exits = [], []
    work = [(loop.header, prev, env, st, 0)]
    while work:
        b, p, e, s, n = work.pop()
        if n == 0 or eng.nosum or n > 0:
            pass
        # one concrete iteration when the exit conditions are decided
        r = try_iter(eng, f, loop, p, e, s, n)
        if DBG: print('ITER', loop.header, n, 'sum' if r is None else (len(r[1]), len(r[2])), getattr(eng, 'phase', 0), eng.const_exit, eng.mute, {i.dst: str(eng.val([v for v,l in i.x if l == p][0], e, s))[:150] for i in f.blocks[loop.header].insts if i.op == 'phi'})
        if r is None:
            from . import summ
            o, ex = summ.summarise(eng, f, loop, p, e, s)
            outs += o; exits += ex
            continue
        o, back, ex = r
        outs += o; exits += ex
        for (pp, ee, ss) in back: work.append((loop.header, pp, ee, ss, n + 1))
    return outs, exits

def try_iter(eng, f, loop, prev, env, st, n):
    """run one iteration; None when it can both continue and leave on a condition that is not decided
    (then the loop needs a summary)"""
    if eng.bounded_depth is not None:
        if n > eng.bounded_depth: raise Unsupported('bounded run exceeds its loop depth')
        return eng.run_blocks(f, [(loop.header, prev, env, st)], loop)
    if n > eng.maxunroll: raise Unsupported('loop exceeds %d concrete iterations' % eng.maxunroll)
    nob = len(eng.obs); ctx = dict(st.fcount)
    s2 = st.copy()
    fc = st.fcount
    eng.mute += 1; eng.const_exit = False
    try:
        o, back, ex = eng.run_blocks(f, [(loop.header, prev, dict(env), s2)], loop)
    finally:
        eng.mute -= 1
        st.fcount = ctx
    loopy = bool(back)
    leaves = bool(ex) or any(k == 'ret' for k, _, _ in o)
    if loopy and not eng.const_exit and (leaves or n >= 3) and not flat_walk(eng, f, loop, prev, env, st, back): return None
    if len(back) > 1:
        # the end of a chain of nodes is not decided
        from .summ import slots_of, lin
        if any(lin(v) for k, v in slots_of(eng, f, loop, prev, env, st, ()).items() if k[0] == 'phi') and sum(1 for x in back if eng.feasible(x[2])) > 1: return None
    eng.unrolled += 1
    return eng.run_blocks(f, [(loop.header, prev, env, st)], loop)

def flat_walk(eng, f, loop, prev, env, st, back):
    """a pointer runs over the elements of a fixed object (a braced list): as many iterations as it has elements"""
    from .summ import phi_vals
    a = phi_vals(eng, f, loop, prev, env, st)
    for k, v in a.items():
        if not (isinstance(v, Ptr) and v.obj is not None and v.off.isc() and isinstance(st.mem.get(v.obj), Flat) and st.mem[v.obj].ghost): continue
        bs = [phi_vals(eng, f, loop, p, e, s)[k] for p, e, s in back]
        if all(isinstance(b, Ptr) and b.obj is v.obj and b.off.isc() and b.off.sc() > v.off.sc() for b in bs): return True
    return False
