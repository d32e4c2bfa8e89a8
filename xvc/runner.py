"""Runs the units of a property, decides, replays, writes evidence."""
import os, sys, json, time, importlib, traceback, ctypes, subprocess, multiprocessing as mp
from . import core
from .core import Check, BuildError, VERIF
EVID = os.environ.get('XVC_EVID', VERIF)   # only for trying seeded bugs out

def main(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if VERIF not in sys.path: sys.path.insert(0, VERIF)
    from props import registry
    P = registry.PROPS[pid]
    try:
        res = P.run(pid, tier, seed)
    except BuildError as e:
        print('ERROR: the drivers of %s do not build against /repo: %s' % (pid, e)); return 2
    return finish(pid, tier, seed, P, res, t0)

def finish(pid, tier, seed, P, R, t0):
    """R: dict with units results (merged)"""
    os.makedirs(os.path.join(EVID, 'evidence', 'replay'), exist_ok=True)
    known = core.load_known(pid)
    failed = []; hits = []
    for f in R['failed']:
        k = match_known(known, f)
        if k: hits.append((k, f))
        else: failed.append(f)
    nat = [n for n in R.get('native', []) if not match_known(known, n)]
    for n in R.get('native', []):
        k = match_known(known, n)
        if k: hits.append((k, n))
    violation = bool(failed) or bool(nat) or bool(R.get('vacuity'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': P.level,
        'coverage': dict({
            'obligations': R['obs'], 'discharged': R['discharged'],
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
            'back_end': 'xvc (LLVM-IR verification-condition generator) with z3 %s' % core.z3.get_version_string() + (' and cvc5 as second solver' if R.get('cvc5') else ''),
            'solver_queries': R['queries'], 'solver_time_s': round(R['solver_time'], 2),
            'functions_under_contract': R['units'],
            'units_under_contract': len(R['units']),
            'ir_functions_executed': R.get('nfun', 0),
            'ir_instructions_extracted': R.get('ninst', 0),
            'loop_invariants_verified': R.get('summaries', 0), 'loops_followed_exactly': R.get('unrolled', 0),
            'obligation_kinds': R.get('labels', {}),
            'bounded_stand_ins': R.get('bounded', []),
            'tool_limits': R.get('tool', []),
            'configurations': R.get('configs', []),
            'trusted_base': R['trusted'],
            'samples': R.get('samples', [])[:12],
            'vacuity_failures': R.get('vacuity', []),
            'failed_obligations': failed[:20],
            'native_replays': R.get('native_runs', 0),
        }, **R.get('extra', {})),
        'assumptions': R['assume'], 'wall_s': round(time.time() - t0, 2), 'violations': len(failed) + len(nat),
    }
    json.dump(ev, open(os.path.join(EVID, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k in dict.fromkeys(k for k, _ in hits):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d obligations, %d discharged, %d units under contract, %d loop invariants, %d tool limits, %d bounded, solver %.1fs, wall %.1fs'
          % (pid, R['obs'], R['discharged'], len(R['units']), R.get('summaries', 0), len(R.get('tool', [])), len(R.get('bounded', [])), R['solver_time'], time.time() - t0))
    if violation:
        rp = os.path.join('evidence', 'replay', '%s.json' % pid)
        cx = nat[0] if nat else None
        json.dump({'property': pid, 'failed_obligations': failed[:50], 'vacuity': R.get('vacuity', []), 'native_counterexample': cx,
                   'how': R.get('replay_how', 'the driver in native_counterexample is compiled with g++ from /repo and run on the listed input; rerun: python3-vt /verif/check.py %s %s' % (pid, tier))},
                  open(os.path.join(EVID, rp), 'w'), indent=1, default=str)
        for f in failed[:8]: print('  failed obligation: [%s] %s (%s)' % (f['unit'], f['obligation'], f['status']))
        for v in R.get('vacuity', [])[:5]: print('  vacuous: ' + v)
        if cx:
            print('  failing input: ' + json.dumps(cx, default=str)[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        return 1
    return 0

def match_known(known, f):
    for k in known:
        # "unit=<text> obligation=<text> | description"
        head = k.split('|')[0]
        parts = dict(p.split('=', 1) for p in head.split(';') if '=' in p)
        parts = {a.strip(): b.strip() for a, b in parts.items()}
        if parts and all(b in str(f.get(a, '')) for a, b in parts.items()): return k
    return None

def blank():
    return dict(obs=0, discharged=0, failed=[], queries=0, solver_time=0.0, units=[], assume=[], trusted=[], tool=[], bounded=[], labels={}, vacuity=[], native=[],
                summaries=0, unrolled=0, nfun=0, ninst=0, configs=[], samples=[], native_runs=0, extra={})

def merge(R, chk):
    R['obs'] += chk.obs; R['discharged'] += chk.discharged; R['failed'] += chk.failed; R['queries'] += chk.queries; R['solver_time'] += chk.solver_time
    R['tool'] += chk.tool; R['vacuity'] += chk.vacuity_fail; R['summaries'] += chk.summaries; R['unrolled'] += chk.unrolled
    R['bounded'] += chk.bounded
    return R

# ------------------------------------------------------------------ pure properties
TRUST = ['clang 18 front end and the inline/sroa/early-cse/simplifycfg/instsimplify/adce passes of opt 18 (source -> IR)',
         'the xvc IR semantics and loop-invariant engine (/verif/xvc)', 'z3']

def _worker(a):
    i, n = a
    G = _worker.G
    chk = Check(G['pid'], G['tier'], G['seed'])
    from . import pure
    done = []
    for cfg_i, cfg in enumerate(G['cfgs']):
        for k, fn in enumerate(cfg['fns']):
            if k % n != i: continue
            before = len(chk.failed) + len(chk.tool)
            pure.verify_fn(chk, cfg['mod'], fn, contracts=cfg.get('contracts'), fpmode=cfg.get('fpmode', 'real'), tol=cfg.get('tol', 1e-6), trunc_identity=cfg.get('trunc_identity', True) if not callable(cfg.get('trunc_identity')) else cfg['trunc_identity'](fn), timeout=cfg.get('timeout', 8000))
            done.append((cfg_i, k, len(chk.failed) + len(chk.tool) > before))
    return dict(obs=chk.obs, discharged=chk.discharged, failed=chk.failed, queries=chk.queries, solver_time=chk.solver_time, tool=chk.tool, vac=chk.vacuity_fail,
                funcs=sorted(chk.functions), ext=sorted(chk.externals), unrolled=chk.unrolled, summaries=chk.summaries, labels={}, done=done)

class Pure:
    """property over functions from fixed-size values to fixed-size values"""
    level = 'proof'
    def __init__(s, configs, assume): s.configs = configs; s.assume = assume
    def run(s, pid, tier, seed):
        R = blank()
        cfgs = s.configs(tier)
        for c in cfgs:
            decl = lambda f: f.decl()
            c['mod'], c['fns'], bad = core.extract_units('%s_%s' % (pid, c['name']), c['hdr'], c['fns'], decl, defs=c.get('defs', ()), flags=c.get('flags', ('-mavx2',)))
            core.compile_failures(R, bad, decl, c['hdr'])
            R['ninst'] += c['mod'].ninst
            R['configs'].append({'name': c['name'], 'defines': list(c.get('defs', ())), 'flags': list(c.get('flags', ('-mavx2',))), 'functions': len(c['fns'])})
        n = min(8, max(1, sum(len(c['fns']) for c in cfgs) // 4))
        _worker.G = dict(pid=pid, tier=tier, seed=seed, cfgs=cfgs)
        if n == 1: parts = [_worker((0, 1))]
        else:
            with mp.get_context('fork').Pool(n) as pool:
                parts = pool.map(_worker, [(i, n) for i in range(n)])
        fns = set(); ext = set(); todo = set()
        for p in parts:
            for k in ('obs', 'discharged', 'queries', 'solver_time', 'unrolled', 'summaries'): R[k] += p[k]
            for k in ('failed', 'tool'): R[k] += p[k]
            R['vacuity'] += p['vac']; fns |= set(p['funcs']); ext |= set(p['ext'])
            todo |= {(a, b) for a, b, bad in p['done'] if bad}
        R['nfun'] = len(fns); R['units'] = [f.what for c in cfgs for f in c['fns']]
        R['labels'] = {'postcondition / safety obligations': R['obs']}
        R['trusted'] = TRUST + ['contract assumed for external %s' % e.lstrip('@') for e in sorted(ext) if not e.startswith('@llvm.')]
        R['assume'] = list(s.assume)
        R['samples'] = [{'function': f.what, 'wrapper': f.decl()[:300]} for c in cfgs for f in c['fns'][:2]]
        if todo:
            for ci in sorted({a for a, _ in todo}):
                c = cfgs[ci]
                sel = [c['fns'][k] for a, k in sorted(todo) if a == ci]
                cx = native_pure(pid, c, sel, seed, R)
                if cx: R['native'] += cx; break
            for t in R['tool']:
                R['bounded'].append({'unit': t['unit'], 'bound': '400 pseudo-random inputs executed natively against the contract', 'because': t['reason']})
        return R

def native_pure(pid, cfg, fns, seed, R):
    """in a child process (the real code may crash)"""
    from . import pure
    src = cfg['hdr'] + '\n'.join(f.decl() for f in fns) + '\n'
    so = core.native('%s_%s' % (pid, cfg['name']), src, defs=cfg.get('defs', ()), flags=cfg.get('flags', ('-mavx2',)))
    out = []
    for f in fns[:60]:
        r, w = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                import signal, resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); signal.alarm(60)
                os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
                lib = ctypes.CDLL(so)
                x = pure.replay_fn(lib, f, seed, ntol=cfg.get('ntol'))
                os.write(w, json.dumps(x, default=str).encode()[:60000])
            finally: os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b: break
            data += b
        os.close(r)
        _, st = os.waitpid(pid_, 0)
        R['native_runs'] += 1
        if os.WIFSIGNALED(st): x = {'function': f.what, 'crash': 'signal %d' % os.WTERMSIG(st)}
        else: x = json.loads(data.decode() or 'null')
        if x:
            x['unit'] = f.what; x['driver'] = cfg['hdr'] + f.decl(); x['defines'] = list(cfg.get('defs', ()))
            out.append(x); break
    return out
