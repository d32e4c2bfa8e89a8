"""Scenario contracts: a driver function = precondition (state builders, xv_assume), one use of the real code, postcondition (xv_check,
xv_inv). All parameters are symbolic, so each scenario is proved for all inputs; the same driver runs natively for replay."""
import os, json, ctypes, random, signal, time, multiprocessing as mp, traceback
import z3
from . import ir, core, hooks, rat
from .sym import *
from .exe import Engine, Path
from .core import Check
from .runner import blank, TRUST

T = {'u64': (64, ctypes.c_uint64), 'i64': (64, ctypes.c_int64), 'u32': (32, ctypes.c_uint32), 'i32': (32, ctypes.c_int32), 'u16': (16, ctypes.c_uint16),
     'u8': (8, ctypes.c_uint8), 'i8': (8, ctypes.c_int8), 'i16': (16, ctypes.c_int16), 'bool': (1, ctypes.c_bool)}
CPP = {'i32': 'std::int32_t', 'u16': 'std::uint16_t', 'u8': 'std::uint8_t', 'i8': 'std::int8_t', 'i16': 'std::int16_t'}

class Sc:
    """params: [(type, name, native range or None)] ; body: C++"""
    def __init__(s, name, what, params, body, states=(), throwing=False, leaks=True, bound=None, fpmode='bits', maxn=6, rm=True, cost=0):
        s.rm = rm; s.cost = cost
        s.name = name; s.what = what; s.params = [p if len(p) == 3 else p + (None,) for p in params]; s.body = body
        s.states = list(states); s.throwing = throwing; s.leaks = leaks; s.bound = bound; s.fpmode = fpmode; s.maxn = maxn
    def decl(s):
        ps = ['%s& %s' % (b.cpp, n) for b, n in s.states] + ['%s %s' % (CPP.get(t, t), n) for t, n, _ in s.params]
        return 'extern "C" void %s(%s) { %s }' % (s.name, ', '.join(ps), s.body)

class Builder:
    """arbitrary valid state of a container: mk(place, n, cap, tag) ... executed symbolically once, then cut by xv_gen"""
    def __init__(s, name, cpp, mk, rm, params=('n', 'cap'), cut=True, tag=None, gen=None):
        """parameters '=x': the constant x (of an earlier state) again. cut: forget how the state was reached"""
        s.name = name; s.cpp = cpp; s.mk = mk; s.rm = rm; s.params = [p.lstrip('=') for p in params]; s.share = [p[0] == '=' for p in params]; s.cut = cut; s.tag = tag; s.gen = gen
    def syms(s, name): return [p if sh else '%s_%s' % (name, p) for p, sh in zip(s.params, s.share)]
    def decl(s):
        return ('extern "C" void mk_%s(void* place, u64 tag, %s) { %s }\nextern "C" void rm_%s(%s& x) { %s }\nextern "C" u64 sz_%s() { return sizeof(%s); }\n'
                % (s.name, ', '.join('u64 ' + p for p in s.params), s.mk, s.name, s.cpp, s.rm, s.name, s.cpp))

def symparam(st, t, n):
    w = T[t][0]
    return z3.Bool(n) if w == 1 else bva(z3.BitVec(n, w))

def build_states(eng0, b, objsize, name, k):
    """-> [(Obj, State)]: every state the builder can leave, cut to its invariant (proved by xv_gen). Cached per process."""
    key = (id(eng0.mod), b.name, name, k)
    if key not in _BUILT:
        eng = Engine(eng0.mod, eng0.contracts, fpmode=eng0.fpmode, timeout=eng0.solver.timeout)
        eng.throwing = False; eng.cur = 'state builder ' + b.name
        out = []
        o = Obj(name, 'io', objsize); o.align = 64
        st = State(); st.mem[o] = Flat()
        ps = [z3.BitVec(p, 64) for p in b.syms(name)]
        err = None
        try:
            for kind, v, s2 in eng.run('@mk_' + b.name, [Ptr(o, 0), BV(64, b.tag or k)] + [bva(p) for p in ps], st):
                if kind != 'ret': raise Unsupported('builder leaves by exception')
                if eng.feasible(s2): out.append(s2)
            if b.cut: out = merge_states(eng, o, out, ps)
            for s2 in out:
                for h in s2.ghost.get('heap', ()): h.owner = o
        except (Unsupported, NeedFork, Path) as e: err = e if isinstance(e, Unsupported) else Unsupported('state builder: %r' % e)
        _BUILT[key] = (o, out, eng, err)
        fresh = True
    else: fresh = False
    o, out, eng, err = _BUILT[key]
    if fresh: eng0.obs += eng.obs; eng0.unrolled += eng.unrolled; eng0.functions |= eng.functions; eng0.contracts_used |= eng.contracts_used; eng0.nsum = getattr(eng0, 'nsum', 0) + getattr(eng, 'nsum', 0); eng0.solver.stats.time += eng.solver.stats.time; eng0.solver.stats.queries += eng.solver.stats.queries
    if err: raise err
    return [(o, s) for s in out]
_BUILT = {}

def merge_states(eng, o, sts, ps):
    """forget how a state was reached: keep the facts over the parameters that all its variants share"""
    from .summ import veq
    pid = {p.get_id() for p in ps}
    def pure(f):
        seen = set(); stack = [f]
        while stack:
            e = stack.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if e.get_id() not in pid: return False
            elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: return False
            stack.extend(e.children())
        return True
    def owned(s): return s.ghost.get('owned', ())
    groups = []
    for s in reversed(sts):
        for g in groups:
            h = g[0]
            m = dict(zip(owned(s), owned(h)))
            if len(owned(s)) != len(owned(h)): continue
            a, b = s.mem[o].cells, h.mem[o].cells
            if {k: v[0] for k, v in a.items()} != {k: v[0] for k, v in b.items()}: continue
            goals = []
            for k in a:
                x, y = a[k][1], b[k][1]
                if isinstance(x, Ptr) and x.obj in m: x = Ptr(m[x.obj], x.off)
                goals.append(veq(x, y))
            for p, q in m.items(): goals.append(eq(s.mem[p].cap, h.mem[q].cap))
            if all(eng.solver.prove(s.facts(), x)[0] == 'proved' for x in goals): g.append(s); break
        else: groups.append([s])
    out = []
    for g in groups:
        h = g[0]
        keep = [f for f in h.facts() if pure(f)]
        if os.environ.get('XVC_DEBUG2'): print('FACTS', h.facts(), 'KEEP', keep)
        if len(g) > 1: keep = [f for f in keep if all(eng.solver.prove(s.facts(), f)[0] == 'proved' for s in g[1:])]
        h.pc = None
        for f in keep: h.assume(f)
        h.schemas = (); h.fcount = {}
        for x in list(h.mem):
            if x.kind == 'heap' and h.mem[x].freed is True or x.kind == 'stack': del h.mem[x]
        live = [x for x in h.ghost.get('heap', ()) if x in h.mem]
        h.ghost = {'heap': tuple(live)} if live else {}
        out.append(h)
    return out

def verify(chk, mod, sc, objsizes, timeout=8000, contracts=None):
    eng = Engine(mod, dict(hooks.TABLE, **(contracts or {})), fpmode=sc.fpmode, timeout=timeout)
    eng.cur = sc.what; eng.throwing = False
    t0 = time.time()
    try:
        sts = [((), State())]
        for k, (b, n) in enumerate(sc.states):
            nx = []
            for ptrs, st in sts:
                for o, s2 in build_states(eng, b, objsizes[b.name], n, k + 1):
                    s3 = st.copy(); s3.mem.update(s2.mem)
                    for f in s2.facts(): s3.assume(f)
                    s3.ghost['heap'] = s3.ghost.get('heap', ()) + s2.ghost.get('heap', ())
                    if 'pow2' in s2.ghost: s3.ghost['pow2'] = s2.ghost['pow2']
                    s3.schemas = s3.schemas + tuple(s2.schemas)
                    if k and not eng.feasible(s3): continue
                    nx.append((ptrs + (Ptr(o, 0),), s3))
            sts = nx
        eng.throwing = sc.throwing
        rets = 0
        for ptrs, st in sts:
            for k in list(st.ghost):
                if k == 'owned': del st.ghost[k]
            for (b, n), q in zip(sc.states, ptrs):
                # what the state owns is given back by its destructor (a scenario of its own, rm=False)
                if sc.rm and not b.cut: st.ghost['owned'] = st.ghost.get('owned', ()) + tuple(o for o in st.ghost.get('heap', ()) if o.owner is q.obj)
            args = list(ptrs) + [symparam(st, t, n) for t, n, _ in sc.params]
            for kind, v, s2 in eng.run('@' + sc.name, args, st):
                if kind != 'ret':
                    if eng.feasible(s2): eng.ob(s2, False, sc.what + ': no exception leaves the scenario')
                    continue
                rets += 1
                hooks.finish(eng, s2, sc.leaks)
        if not rets and all(o.status == 'proved' for o in eng.obs): chk.vacuity_fail.append(sc.what + ': no path reaches the postcondition')
    except Path: pass
    except (Unsupported, NeedFork, OverflowError, RecursionError) as e:
        chk.tool.append({'unit': sc.what, 'fn': sc.name, 'reason': '%s: %s' % (type(e).__name__, str(e)[:300])})
        if os.environ.get('XVC_DEBUG'): traceback.print_exc()
    if os.environ.get('XVC_DEBUG'): print('   %-60s %5d obligations %6.1fs' % (sc.what[:60], len(eng.obs), time.time() - t0), flush=True)
    return chk.absorb(eng, sc.what)

class Late(BaseException): pass
TIME = {'quick': 480, 'thorough': 600}      # seconds for the proofs; the bounded stand-ins have their own 240 s
def _job(k):
    """one scenario in a process of its own, so that its result does not depend on what ran before it"""
    G = _job.G
    chk = Check(G['pid'], G['tier'], G['seed'])
    ci, fi = G['jobs'][k]
    cfg = G['cfgs'][ci]
    # a proof that does not come to an end in time is a tool limit (decided by the bounded stand-in), never a hang
    def late(*a): raise Late('the time limit of the check is reached')
    import signal
    signal.signal(signal.SIGALRM, late)
    left = int(G['t_end'] - time.time())
    try:
        if left < 1: raise Late('the time limit of the check is reached')
        signal.alarm(left)
        verify(chk, cfg['mod'], cfg['scs'][fi], cfg['objsizes'], timeout=cfg.get('timeout', 8000), contracts=cfg.get('contracts'))
        signal.alarm(0)
    except Late as e:
        x = cfg['scs'][fi]
        chk.tool.append({'unit': x.what, 'fn': x.name, 'reason': str(e)})
    bad = bool(chk.failed or chk.tool or chk.vacuity_fail)
    return dict(obs=chk.obs, discharged=chk.discharged, failed=chk.failed, queries=chk.queries, solver_time=chk.solver_time, tool=chk.tool, vac=chk.vacuity_fail,
                funcs=sorted(chk.functions), ext=sorted(chk.externals), unrolled=chk.unrolled, summaries=chk.summaries, done=[(ci, fi, bad)], labels=chk.labels)

class Scenarios:
    level = 'proof'
    def __init__(s, configs, assume=(), lemmas=(), stress=None, modes=('',)): s.modes = modes; s.configs = configs; s.assume = list(assume); s.lemmas = lemmas; s.stress = stress
    def run(s, pid, tier, seed):
        from . import conc
        s.t_end = time.time() + TIME.get(tier, 480)
        first = None
        for m in (os.environ.get('XVC_MODE') or s.modes):
            conc.MODE = m
            R, cfgs, todo = s.prove(pid, tier, seed)
            R['extra']['contracts_variant'] = conc.MODES.get(m, '')
            if first is None: first = R, cfgs, todo
            if not R['failed'] and not R['vacuity'] and not R['tool']: break
        else: R, cfgs, todo = first
        s.replay(pid, seed, R, cfgs, todo)
        return R
    def prove(s, pid, tier, seed):
        R = blank()
        cfgs = s.configs(tier)
        only = os.environ.get('XVC_ONLY')
        for c in cfgs:
            if only: c['scs'] = [x for x in c['scs'] if only in x.name]
            bs = {b.name: b for x in c['scs'] for b, _ in x.states}
            pre = '#include <xv.hpp>\n' + c['hdr'] + '\n' + ''.join(b.decl() for b in bs.values())
            decl = lambda x: x.decl()
            c['mod'], c['scs'], bad = core.extract_units('%s_%s' % (pid, c['name']), pre, c['scs'], decl, defs=c.get('defs', ()), flags=c.get('flags', ('-mavx2',)))
            core.compile_failures(R, bad, decl, c['hdr'])
            c['objsizes'] = {}
            for b in bs:
                e = Engine(c['mod'], {}); st = State()
                c['objsizes'][b] = e.run('@sz_' + b, [], st)[0][1].c
            R['ninst'] += c['mod'].ninst
            R['configs'].append({'name': c['name'], 'defines': list(c.get('defs', ())), 'flags': list(c.get('flags', ('-mavx2',))), 'scenarios': len(c['scs'])})
        jobs = [(i, k) for i, c in enumerate(cfgs) for k in range(len(c['scs']))]
        jobs.sort(key=lambda j: -cfgs[j[0]]['scs'][j[1]].cost)
        n = min(8, len(jobs))
        _job.G = dict(pid=pid, tier=tier, seed=seed, cfgs=cfgs, jobs=jobs, t_end=s.t_end)
        if n <= 1 or os.environ.get('XVC_SERIAL'): parts = [_job(k) for k in range(len(jobs))]
        else:
            # states the scenarios start from: each is built in every process that needs it unless it is built here
            chk = Check(pid, tier, seed)
            for c in cfgs:
                for k, (b, nm, i) in {(b.name, nm, i): (b, nm, i) for x in c['scs'] for i, (b, nm) in enumerate(x.states)}.items():
                    eng = Engine(c['mod'], dict(hooks.TABLE, **(c.get('contracts') or {})), timeout=c.get('timeout', 8000)); eng.cur = 'state builder ' + b.name; eng.throwing = False
                    try: build_states(eng, b, c['objsizes'][b.name], nm, i + 1)
                    except Unsupported: pass
                    chk.absorb(eng, eng.cur)
            pre = dict(obs=chk.obs, discharged=chk.discharged, failed=chk.failed, queries=chk.queries, solver_time=chk.solver_time, tool=[], vac=[], funcs=sorted(chk.functions), ext=sorted(chk.externals),
                       unrolled=chk.unrolled, summaries=chk.summaries, done=[], labels=chk.labels)
            with mp.get_context('fork').Pool(n, maxtasksperchild=1) as pool: parts = [pre] + pool.map(_job, range(len(jobs)), chunksize=1)
        for what, fn in s.lemmas:
            bad = fn(); R['obs'] += 64; R['discharged'] += 64 - len(bad); R['labels'][what] = 64
            if bad: R['failed'].append({'unit': what, 'obligation': 'lemma for 2^%s' % bad, 'status': 'not proved', 'detail': '', 'where': ''})
        fns = set(); ext = set(); todo = set()
        for p in parts:
            for k in ('obs', 'discharged', 'queries', 'solver_time', 'unrolled', 'summaries'): R[k] += p[k]
            for k in ('failed', 'tool'): R[k] += p[k]
            for k, v in p['labels'].items(): R['labels'][k] = R['labels'].get(k, 0) + v
            R['vacuity'] += p['vac']; fns |= set(p['funcs']); ext |= set(p['ext'])
            todo |= {(a, b) for a, b, bad in p['done'] if bad}
        if len(R['labels']) > 60:
            R['labels'] = dict(sorted(R['labels'].items(), key=lambda x: -x[1])[:60])
        R['nfun'] = len(fns); R['units'] = [x.what for c in cfgs for x in c['scs']]
        R['trusted'] = TRUST + ['contract assumed for external %s' % e.lstrip('@') for e in sorted(ext) if not e.startswith('@llvm.') and e not in hooks.TABLE]
        R['assume'] = list(s.assume)
        R['samples'] = [{'unit': x.what, 'driver': x.decl()[:400]} for c in cfgs for x in c['scs'][:3]]
        for f in [x.what for c in cfgs for x in c['scs'] if x.bound]: pass
        return R, cfgs, todo
    def replay(s, pid, seed, R, cfgs, todo):
        if todo:
            t_end = time.time() + 240
            for ci in sorted({a for a, _ in todo}):
                c = cfgs[ci]
                sel = [c['scs'][k] for a, k in sorted(todo) if a == ci]
                try: R['native'] += native_run(pid, c, sel, seed, R, t_end)
                except Exception as e: R['native_error'] = repr(e)[:500]; print('  native replay failed: %r' % e)
            if s.stress: s.stress(pid, R, t_end)
            for t in R['tool']:
                R['bounded'].append({'unit': t['unit'], 'bound': s.stress.__doc__ if s.stress else 'concrete runs of the compiled driver over small states and boundary/pseudo-random inputs', 'because': t['reason']})

# ---------------------------------------------------------------- native replay
VALS = [0, 1, 2, 3, 5, 7, 8, 100, 255, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
def native_run(pid, cfg, scs, seed, R, t_end):
    bs = {b.name: b for x in scs for b, _ in x.states}
    src = '#include <xv.hpp>\n' + cfg['hdr'] + '\n' + ''.join(b.decl() for b in bs.values()) + '\n'.join(x.decl() for x in scs) + '\n'
    so = core.native('%s_%s' % (pid, cfg['name']), src, defs=cfg.get('defs', ()), flags=tuple(cfg.get('flags', ('-mavx2',))), extra=(os.path.join(core.VERIF, 'drivers', 'xv_rt.cpp'),) + tuple(cfg.get('link', ())))
    out = []
    todo = list(scs); run = []
    while todo or run:
        while todo and len(run) < 8 and time.time() < t_end:
            sc = todo.pop(0); run.append((sc, native_start(so, sc, seed, min(20, max(3, t_end - time.time())))))
        if not run: break
        sc, h = run.pop(0)
        R['native_runs'] += 1
        try: x = native_wait(h)
        except core.BuildError as e: R['native_error'] = str(e)[:500]; print('  ' + R['native_error']); continue
        if x:
            x['unit'] = sc.what; x['driver'] = sc.decl(); x['config'] = cfg['name']; x['defines'] = list(cfg.get('defs', ())); x['flags'] = list(cfg.get('flags', ('-mavx2',)))
            out.append(x)
            if len(out) >= 3: todo = []
    R['native_skipped'] = R.get('native_skipped', 0) + (len(todo) if len(out) < 3 else 0)
    return out

def cases(sc, r):
    """concrete states and inputs, smallest first"""
    k = 0
    while k < 4000:
        lim = min(sc.maxn, k // 40) if k < 300 or k % 4 else sc.maxn * 3      # small first, then some larger states too
        stv = []; known = {}
        for b, n in sc.states:
            nn = r.randint(0, lim); cap = nn + r.choice([0, 0, 1, 2, 3])
            vs = b.gen(r) if b.gen else [{'n': nn, 'cap': cap}.get(p, r.randint(0, cap + 1)) for p in b.params]
            for p, v, q in zip(b.params, vs, b.syms(n)): known.setdefault(q, v)
            stv.append([known[q] for q in b.syms(n)])
        pv = []
        tot = sum(x[0] for x in stv) if stv else 6
        for t, n, rg in sc.params:
            w = T[t][0]
            if n in known: v = known[n]
            elif rg == 'small' or (rg is None and stv): v = r.randint(0, max(tot, 3) + 1) if r.random() < .97 else r.getrandbits(w)
            elif callable(rg): v = rg(r)
            elif isinstance(rg, tuple): v = r.randint(rg[0], rg[1])
            else: v = (r.choice(VALS) if r.random() < .5 else r.getrandbits(w))
            pv.append(v & ((1 << w) - 1))
        yield stv, pv
        k += 1

def native_start(so, sc, seed, budget):
    """in a child process (the real code may crash); the last case started is read back from shared memory"""
    import mmap, signal
    mm = mmap.mmap(-1, 1 << 16)
    def note(d):
        t = json.dumps(d, default=str).encode()[:60000]; mm.seek(0); mm.write(len(t).to_bytes(4, 'little') + t)
    def last():
        mm.seek(0); n = int.from_bytes(mm.read(4), 'little')
        return json.loads(mm.read(n).decode()) if n else None
    pid = os.fork()
    if pid == 0:
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); signal.alarm(int(budget) + 10)
            fd = os.open('/dev/null', os.O_WRONLY); os.dup2(fd, 2); os.dup2(fd, 1)
            os._exit(child(so, sc, seed, budget, note))
        except BaseException as e:
            note({'internal': repr(e)}); os._exit(9)
    return pid, last
def native_wait(h):
    pid, last = h
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sg = os.WTERMSIG(st)
        if sg == signal.SIGALRM:
            x = last() or {}
            # a case of small inputs that is still running 10 s after the last one should have ended
            if not x.get('inputs') and not x.get('states') or any(v > 1000 for d in [x.get('inputs', {})] + x.get('states', []) for v in d.values() if isinstance(v, int)): return None
            x['error'] = 'the program does not end'; return x
        x = last() or {}
        x['error'] = 'the program died with signal %d' % sg
        return x
    if os.WEXITSTATUS(st) == 1: return last()
    if os.WEXITSTATUS(st): raise core.BuildError('native: %s' % (last() or {}).get('internal', 'exit %d' % os.WEXITSTATUS(st)))
    return None

def child(so, sc, seed, budget, note):
    lib = ctypes.CDLL(so)
    r = random.Random(seed); t0 = time.time()
    fn = getattr(lib, sc.name); fn.restype = None
    buf = ctypes.create_string_buffer(1000)
    it = 0
    for stv, pv in cases(sc, r):
        it += 1
        if time.time() - t0 > budget: break
        combos = [(0, 0)]
        if sc.throwing: combos = [(0, 0)] + [(k, 0) for k in range(1, 12)] + [(0, k) for k in range(1, 5)]
        for ta, aa in combos:
            lib.rt_reset(ctypes.c_uint64(it), ctypes.c_long(0), ctypes.c_long(0))
            objs = []; keep = []; ok = True
            for (b, n), v in zip(sc.states, stv):
                raw = ctypes.create_string_buffer(getattr(lib, 'sz_' + b.name)() + 256); keep.append(raw)
                al = (ctypes.addressof(raw) + 127) & ~63
                lib.rt_call(getattr(lib, 'mk_' + b.name), *[ctypes.c_uint64(x) for x in ([al, b.tag or len(objs) + 1] + list(v) + [0] * 12)[:12]])
                objs.append(al)
            case = {'states': [dict(zip(b.params, v), object=n) for (b, n), v in zip(sc.states, stv)], 'inputs': {n: v for (t, n, _), v in zip(sc.params, pv)}, 'element_value_seed': it,
                    'failing_element_operation': ta or None, 'failing_allocation': aa or None}
            note(case)
            res = lib.rt_result(buf, 1000)
            if res < 0: continue
            if res > 0:
                case['error'] = 'while building the state through the public interface: ' + buf.value.decode(errors='replace'); note(case)
                return 1
            # faults count from here
            set_faults(lib, ta, aa)
            ca = [ctypes.c_uint64(x) for x in (objs + [T[t][1](v).value for (t, n, _), v in zip(sc.params, pv)] + [0] * 12)[:12]]
            lib.rt_call(fn, *ca)
            set_faults(lib, 0, 0)
            res = lib.rt_result(buf, 1000)
            if res >= 0:
                for (b, n), o in zip(sc.states, objs) if sc.rm else (): getattr(lib, 'rm_' + b.name)(ctypes.c_void_p(o))
                lib.rt_end(1 if sc.leaks else 0)
                res = lib.rt_result(buf, 1000)
            if res > 0:
                case['error'] = buf.value.decode(errors='replace'); note(case)
                return 1
    return 0
def set_faults(lib, t, a): lib.rt_faults(ctypes.c_long(t), ctypes.c_long(a))
