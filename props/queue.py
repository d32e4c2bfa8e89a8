"""C19: xme::SPSCQueue used by one thread."""
from xvc.scen import Sc, Builder
H = '''#include <xme/container/spsc_queue.hpp>
using Q = xme::SPSCQueue<E, Al<E>>;
// the state after `r` elements went through and n more were pushed: in(tag, sh) .. in(tag, sh + n - 1)
template<class Q> inline void fill(Q& q, u64 r, u64 n, u64 tag, u64 sh) {
    for(u64 i = 0; i < r; ++i) { q.push(u64(5)); q.pop(); }
    for(u64 i = 0; i < n; ++i) q.push(xv_in(tag, sh + i));
}
'''
HW = H.replace('using Q = ', '#define E Word\nusing Q = ')
H24 = H.replace('using Q = ', 'using E24 = Elem<0, 24>;\n#define E E24\nusing Q = ')
def gen(r):
    cap = r.choice([1, 2, 2, 4, 4, 8]); return [cap, r.randint(0, 9) if cap > 1 else 0, r.randint(0, cap - 1)]
PRE = 'xv_pow2(cap); xv_assume(r <= (u64(1) << 40) && n < cap && (r == 0 || cap >= 2)); '
def st(nm, body, share=False):
    return Builder(nm, 'Q', ('const u64 cap = q_cap, r = q_r, n = q_n; ' if share else '') + PRE + body, 'x.~Q();', ('=q_cap', '=q_r', '=q_n') if share else ('cap', 'r', 'n'), cut=False, tag=1, gen=gen)
MKQ = 'Q* q = new(place) Q(cap); '
B = st('Q', MKQ + 'fill(*q, r, n, tag, 0);')
# the states that the operations must lead to
B_PUSH = st('QPUSH', 'xv_assume(n + 1 < cap); ' + MKQ + 'fill(*q, r, n + 1, tag, 0);', True)
B_POP = st('QPOP', 'xv_assume(n > 0); ' + MKQ + 'fill(*q, r + 1, n - 1, tag, 1);', True)
def dynamic(word=False):
    S = []
    U = lambda *n: [('u64', x, 'small') for x in n]
    pre = 'const u64 n = q.read_available(), cap = q.write_available() + n + 1; '
    def sc(nm, w, b, p=(), to=None, **k): S.append(Sc(nm, w, U(*p), pre + b, states=((B, 'q'),) + (((to, 'o'),) if to and not word else ()), **k))
    av = lambda x, q='q': 'XV(%s.read_available() == %s); XV(%s.write_available() == cap - 1 - (%s)); ' % (q, x, q, x)
    like = '' if word else 'xv_alike(&q, &o, sizeof(Q)); '
    got = lambda e, q='q': 'u64 g = 0, c = 0; %s.consume([&](auto&& x) { ++c; g = x.v(); }); XV(c == 1); XV(g == (%s)); ' % (q, e)
    FULL = av('n') + 'XV(n + 1 == cap); '
    S.append(Sc('q_new', 'a queue built through the interface', [('u64', 'q_cap'), ('u64', 'q_n')], 'XV(q.read_available() == q_n); XV(q.write_available() == q_cap - 1 - q_n);', states=((B, 'q'),)))
    NOTFULL = 'xv_assume(n + 1 < cap); '
    sc('q_push', 'push', NOTFULL + 'XV(q.push(v)); ' + av('n + 1') + 'xv_assume(v == xv_in(1, n)); ' + like, ('v',), to=B_PUSH)
    sc('q_pusho', 'push of an object', NOTFULL + '{ E e(v); XV(q.push(e)); XV(e.v() == v); ' + av('n + 1') + 'xv_assume(v == xv_in(1, n)); ' + like + '}', ('v',), to=B_PUSH)
    sc('q_emp', 'emplace', NOTFULL + 'XV(q.emplace(v)); ' + av('n + 1') + 'xv_assume(v == xv_in(1, n)); ' + like, ('v',), to=B_PUSH)
    sc('q_full', 'push into a full queue changes nothing', 'xv_assume(n + 1 == cap); XV(!q.push(v)); ' + av('n') + 'xv_assume(k < n); for(u64 i = 0; i < k; ++i) q.pop(); ' + got('xv_in(1, k)'), ('v', 'k'))
    sc('q_pop', 'pop', 'xv_assume(n > 0); q.pop(); ' + av('n - 1') + like, to=B_POP)
    sc('q_cons', 'consume', 'xv_assume(n > 0); ' + got('xv_in(1, 0)') + av('n - 1') + like, to=B_POP)
    sc('q_fifo', 'values come out in the order they went in', 'xv_assume(k < n); for(u64 i = 0; i < k; ++i) q.pop(); ' + av('n - k') + got('xv_in(1, k)'), ('k',))
    sc('q_pushf', 'the pushed value comes out after the others', 'xv_assume(n + 1 < cap); XV(q.push(v)); for(u64 i = 0; i < n; ++i) q.pop(); ' + av('1') + got('v') + av('0'), ('v',))
    sc('q_drain', 'a queue can be emptied and filled again', 'for(u64 i = 0; i < n; ++i) q.consume([&](auto&&) {}); ' + av('0') + 'xv_assume(cap >= 2); XV(q.push(v)); ' + av('1') + got('v'), ('v',))
    sc('q_dtor', 'destructor', 'q.~Q();', rm=False)
    return S
# ---- capacity fixed at compile time: every index state and every number of elements
def static(N):
    S = []
    HS = 'using SQ%d = xme::SPSCQueue<E, xme::Capacity<%d>>;' % (N, N)
    P = lambda *n: [('u64', 'r0', (0, N - 1)), ('u64', 'n0', (0, N - 1))] + [('u64', x, 'small') for x in n]
    pre = 'using Q = xme::SPSCQueue<E, xme::Capacity<%d>>; const u64 cap = %d, r = xv_pick(r0, %d), n = xv_pick(n0, %d); ' % (N, N, N, N)
    def sc(nm, w, b, p=(), **k): S.append(Sc('s%d_%s' % (N, nm), '%s, capacity %d' % (w, N), P(*p), pre + '{ Q q; fill(q, r, n, 1, 0); ' + b + ' }', **k))
    av = lambda x, q='q': 'XV(%s.read_available() == %s); XV(%s.write_available() == cap - 1 - (%s)); ' % (q, x, q, x)
    like = lambda r, n, sh: 'Q o; fill(o, %s, %s, 1, %s); xv_alike(&q, &o, sizeof(Q)); ' % (r, n, sh)
    got = lambda e, q='q': 'u64 g = 0, c = 0; %s.consume([&](auto&& x) { ++c; g = x.v(); }); XV(c == 1); XV(g == (%s)); ' % (q, e)
    sc('new', 'a queue built through the interface', av('n') + 'for(u64 i = 0; i < n; ++i) { ' + got('xv_in(1, i)') + '} ' + av('0'))
    if N > 1: sc('ind', 'one trip around the buffer leads to the same state', like('r + cap', 'n', '0'))
    if N > 1:
        sc('push', 'push', 'xv_assume(n + 1 < cap); XV(q.push(v)); ' + av('n + 1') + 'xv_assume(v == xv_in(1, n)); ' + like('r', 'n + 1', '0'), ('v',))
        sc('emp', 'emplace', 'xv_assume(n + 1 < cap); XV(q.emplace(v)); ' + av('n + 1') + 'xv_assume(v == xv_in(1, n)); ' + like('r', 'n + 1', '0'), ('v',))
        sc('pop', 'pop', 'xv_assume(n > 0); q.pop(); ' + av('n - 1') + like('r + 1', 'n - 1', '1'))
        sc('cons', 'consume', 'xv_assume(n > 0); ' + got('xv_in(1, 0)') + av('n - 1') + like('r + 1', 'n - 1', '1'))
    sc('full', 'push into a full queue changes nothing', 'xv_assume(n + 1 == cap); XV(!q.push(v)); ' + av('n') + like('r', 'n', '0'), ('v',))
    return S
HT = H.replace('using Q = ', '#define E ET\nusing Q = ')
B_SAME = st('QSAME', MKQ + 'fill(*q, r, n, tag, 0);', True)
def throwing():
    S = []
    def sc(nm, w, b, p=()):
        S.append(Sc(nm, w, [('u64', x, 'small') for x in p], 'bool ok = false, caught = false; const u64 n = q.read_available(), w = q.write_available(); try { %s } catch(...) { caught = true; } XV(caught == (xv_hits(99) > 0)); if(caught) { XV(q.read_available() == n); XV(q.write_available() == w); xv_alike(&q, &o, sizeof(Q)); } else XV(ok == (w > 0)); ' % b,
                    states=((B, 'q'), (B_SAME, 'o')), throwing=True))
    sc('qt_push', 'push that throws changes nothing', 'ok = q.push(v);', ('v',))
    sc('qt_pusho', 'push of an object that throws changes nothing', 'E e(v); ok = q.push(e);', ('v',))
    sc('qt_emp', 'emplace that throws changes nothing', 'ok = q.emplace(v);', ('v',))
    return S
def configs(tier):
    return [dict(name='dyn', hdr=H, scs=dynamic()), dict(name='dynw', hdr=HW, scs=dynamic(True)), dict(name='dynn', hdr=H, scs=dynamic(), defs=('NDEBUG',)),
            dict(name='dynt', hdr=HT, scs=throwing()),
            dict(name='stat', hdr=H, scs=[x for N in (1, 2, 4) + ((8,) if tier == 'thorough' else ()) for x in static(N)])]

# ---- C20: one side of the queue while the other side runs
B_C = st('QC', 'xv_assume(r >= 1 && n >= 1); ' + MKQ + 'fill(*q, r, n, tag, 0);')
def concurrent(word=False):
    S = []
    def sc(nm, w, role, b, p=(), pre=''):
        k = 'q_r' if role == 0 else 'q_r + k'
        S.append(Sc(nm, w, [('u64', 'q_cap'), ('u64', 'q_r'), ('u64', 'q_n')] + [('u64', x, 'small') for x in p], 'const u64 P = q_r + q_n, C = q_r; (void)P; (void)C; ' + pre + 'const bool conc = xv_thread(&q, %d, q_r + q_n, q_r, %s, q_cap, sizeof(Q), 1); (void)conc; ' % (role, k) + b, states=((B_C, 'q'),)))
    K = lambda c: 'xv_assume(k <= q_n && %s); ' % c
    # producer
    PUB = lambda i, v: 'XV(xv_pub(%s) == %s); ' % (i, v)
    push = lambda e, v: 'bool ok = %s; if(conc) { XV(xv_pubs() == u64(ok)); if(ok) { XV(xv_pub(0) == %s); } else { XV(P - xv_seen() == q_cap - 1); } } ' % (e, v)
    sc('p_push', 'push beside a consumer', 0, push('q.push(v)', 'v'), ('v',))
    sc('p_pusho', 'push of an object beside a consumer', 0, '{ E e(v); ' + push('q.push(e)', 'v') + 'XV(e.v() == v); }', ('v',))
    sc('p_emp', 'emplace beside a consumer', 0, push('q.emplace(v)', 'v'), ('v',))
    sc('p_two', 'two pushes beside a consumer', 0, 'bool a = q.push(v), b = q.push(w); if(conc) { XV(xv_pubs() == u64(a) + u64(b)); if(a) XV(xv_pub(0) == v); if(a && b) XV(xv_pub(1) == w); if(!a && b) XV(xv_pub(0) == w); }', ('v', 'w'))
    sc('p_avail', 'free space announced to the producer', 0, 'const u64 w = q.write_available(); if(conc) { XV(w == q_cap - 1 - (P - xv_seen())); XV(xv_pubs() == 0); } if(w > 0) XV(q.push(v));', ('v',))
    sc('p_ravail', 'fill level seen by the producer', 0, 'const u64 a = q.read_available(); if(conc) { XV(a == P - xv_seen()); XV(xv_pubs() == 0); }')
    # consumer: it knows of k queued elements
    got = lambda e, g='g', c='c': 'u64 %s = 0, %s = 0; q.consume([&](auto&& x) { ++%s; %s = x.v(); }); XV(%s == 1); XV(%s == (%s)); ' % (g, c, c, g, c, g, e)
    done = lambda n: 'if(conc) XV(xv_pubs() == %s); ' % n
    sc('c_pop', 'pop beside a producer', 1, 'q.pop(); ' + done(1), ('k',), K('k >= 1'))
    sc('c_cons', 'consume beside a producer', 1, got('xv_in(1, 0)') + done(1), ('k',), K('k >= 1'))
    sc('c_two', 'two elements consumed beside a producer', 1, got('xv_in(1, 0)') + got('xv_in(1, 1)', 'h', 'd') + done(2), ('k',), K('k >= 2'))
    sc('c_avail', 'elements announced to the consumer', 1, 'const u64 a = q.read_available(); if(conc) { XV(a == xv_seen() - C); XV(xv_pubs() == 0); } XV(a >= k); if(a) { ' + got('xv_in(1, 0)') + done(1) + '}', ('k',), K('true'))
    sc('c_avail2', 'all elements announced to the consumer', 1, 'const u64 a = q.read_available(); if(a >= 2) { q.pop(); ' + got('xv_in(1, 1)') + done(2) + '}', ('k',), K('true'))
    sc('c_wavail', 'free space seen by the consumer', 1, 'const u64 w = q.write_available(); if(conc) { XV(w == q_cap - 1 - (xv_seen() - C)); XV(xv_pubs() == 0); }', ('k',), K('true'))
    return S
def configs20(tier):
    return [dict(name='conc', hdr=H, scs=concurrent(), defs=('NDEBUG',)), dict(name='concd', hdr=H, scs=concurrent()), dict(name='concw', hdr=HW, scs=concurrent(True), defs=('NDEBUG',)),
            dict(name='conc24', hdr=H24, scs=concurrent(), defs=('NDEBUG',))]

def stress(pid, R, t_end):
    """two threads under the thread sanitizer, five queue types, some hundred thousand elements (drivers/tsan_queue.cpp)"""
    import subprocess, tempfile, os
    from xvc import core
    src = os.path.join(core.VERIF, 'drivers', 'tsan_queue.cpp')
    with tempfile.TemporaryDirectory() as d:
        for defs in ((), ('NDEBUG',)):
            exe = d + '/tsq'
            r = subprocess.run(['g++', '-std=c++20', '-w', '-O1', '-g', '-fsanitize=thread', '-pthread'] + ['-D' + x for x in defs] + [i for i in core.INC if 'drivers' not in i] + [src, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: return
            for k in range(3):
                for pre in ([], ['setarch', '-R']):
                    try: r = subprocess.run(pre + [exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40, env=dict(os.environ, TSAN_OPTIONS='exitcode=66 halt_on_error=1'))
                    except subprocess.TimeoutExpired:
                        R['native'].append({'unit': 'two threads', 'error': 'the two threads do not finish: an element is lost or never announced', 'driver': src, 'defines': list(defs)}); return
                    except OSError: continue
                    out = r.stdout.decode(errors='replace')
                    if 'FATAL: ThreadSanitizer' in out or 'unexpected memory mapping' in out: continue
                    break
                R['native_runs'] += 1
                if r.returncode and 'FATAL: ThreadSanitizer' not in out and 'unexpected memory mapping' not in out:
                    R['native'].append({'unit': 'two threads', 'error': out[:1800], 'driver': src, 'defines': list(defs)}); return
