"""Contracts on xme::math::Vector operations and vector functions."""
from xvc.pure import Fn, CPP, SZ, FP, SIGNED
HDR = '#include <new>\n#include <xme/math/math.hpp>\nusing namespace xme::math;\ntemplate<class T> T&& mv(T& x){return static_cast<T&&>(x);}\n'

def V(t, n): return 'Vector<%s, %d>' % (CPP[t], n)
NM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}

def op(M, o, a, b, t):
    if o == '+': return M.add(a, b)
    if o == '-': return M.sub(a, b)
    if o == '*': return M.mul(a, b)
    return M.div(a, b, t)

def tn(t): return CPP[t].replace('std::', '').replace('_t', '')

def arith(types=('f', 'd', 'i', 'u'), sizes=(1, 2, 3, 4, 5, 7)):
    out = []
    for t in types:
        for n in sizes:
            vt = V(t, n); sfx = '%s%d' % (t, n); nm = 'Vector<%s,%d>' % (tn(t), n)
            def add(name, what, params, body, spec, pre=None):
                out.append(Fn('vec_%s_%s' % (name, sfx), '%s::%s' % (nm, what), params, body, spec, pre))
            A = ('a', 'in', vt, t, n); B = ('b', 'in', vt, t, n); R = ('r', 'out', vt, t, n); IO = ('a', 'io', vt, t, n); S = ('s', 'val', CPP[t], t, 1)
            for o in '+-*/':
                # other operand types: same, and a mixed one (explicitly converted to T by the library)
                for u in dict.fromkeys([t, {'f': 'd', 'd': 'f', 'i': 'u', 'u': 'i'}[t]] + ([] if n > 4 else [{'f': 'i', 'd': 'i', 'i': 'l', 'u': 'uc'}[t]])):
                    ut = V(u, n); Bu = ('b', 'in', ut, u, n); Su = ('s', 'val', CPP[u], u, 1)
                    m = '' if u == t else '_' + u
                    def spec(M, i, o=o, u=u, n=n, t=t): return {'r': [op(M, o, i['a'][k], M.cast(i['b'][k], u, t), t) for k in range(n)]}
                    def specs(M, i, o=o, u=u, n=n, t=t): return {'r': [op(M, o, i['a'][k], M.cast(i['s'][0], u, t), t) for k in range(n)]}
                    def specc(M, i, o=o, u=u, n=n, t=t): return {'a': [op(M, o, i['a'][k], M.cast(i['b'][k], u, t), t) for k in range(n)]}
                    def speccs(M, i, o=o, u=u, n=n, t=t): return {'a': [op(M, o, i['a'][k], M.cast(i['s'][0], u, t), t) for k in range(n)]}
                    pre = pres = None
                    if o == '/' and t not in FP:
                        def pre(M, i, n=n, u=u, t=t): return [M.isnz(M.cast(i['b'][k], u, t)) for k in range(n)]
                        def pres(M, i, u=u, t=t): return [M.isnz(M.cast(i['s'][0], u, t))]
                        if t in SIGNED:
                            def pre(M, i, n=n, u=u, t=t): return [M.lt(M.const(t, 0), M.cast(i['b'][k], u, t), t) for k in range(n)]
                            def pres(M, i, u=u, t=t): return [M.lt(M.const(t, 0), M.cast(i['s'][0], u, t), t)]
                    w = 'operator%s' % o
                    add(NM[o] + m, '%s(Vector<%s>)' % (w, tn(u)), [A, Bu, R], 'new(&r) %s(a %s b);' % (vt, o), spec, pre)
                    add(NM[o] + 's' + m, '%s(%s)' % (w, tn(u)), [A, Su, R], 'new(&r) %s(a %s s);' % (vt, o), specs, pres)
                    add('c' + NM[o] + m, '%s=(Vector<%s>)' % (w, tn(u)), [IO, Bu], 'a %s= b;' % o, specc, pre)
                    add('c' + NM[o] + 's' + m, '%s=(%s)' % (w, tn(u)), [IO, Su], 'a %s= s;' % o, speccs, pres)
            add('neg', 'operator-()', [A, R], 'new(&r) %s(-a);' % vt, lambda M, i, n=n: {'r': [M.neg(i['a'][k]) for k in range(n)]})
            # returned reference of compound operators is the object itself
            add('chain', 'operator+= returns *this', [IO, B], '(a += b) -= b; ', lambda M, i, n=n: {'a': [M.sub(M.add(i['a'][k], i['b'][k]), i['b'][k]) for k in range(n)]})
            # aliasing: the same object on both sides
            for o in '+-*':
                add('self' + NM[o], 'operator%s= with itself' % o, [IO], 'a %s= a;' % o, lambda M, i, n=n, o=o, t=t: {'a': [op(M, o, i['a'][k], i['a'][k], t) for k in range(n)]})
                # the scalar operand is one of the vector's own components
                add('own' + NM[o], 'operator%s= with its own component' % o, [IO], 'a %s= a[0];' % o, lambda M, i, n=n, o=o, t=t: {'a': [op(M, o, i['a'][k], i['a'][0], t) for k in range(n)]})
            # construction and conversion
            if n > 1: add('fill', 'Vector(scalar)', [S, R], 'new(&r) %s(s);' % vt, lambda M, i, n=n: {'r': [i['s'][0]] * n})
            for u in [x for x in ('f', 'd', 'i', 'u') if x != t]:
                Au = ('a', 'in', V(u, n), u, n)
                add('from_' + u, 'Vector(Vector<%s>)' % tn(u), [Au, R], 'new(&r) %s(a);' % vt, lambda M, i, n=n, u=u, t=t: {'r': [M.cast(i['a'][k], u, t) for k in range(n)]})
                add('assign_' + u, 'operator=(Vector<%s>)' % tn(u), [Au, R], 'r = a;', lambda M, i, n=n, u=u, t=t: {'r': [M.cast(i['a'][k], u, t) for k in range(n)]})
            add('copy', 'copy construction', [A, R], 'new(&r) %s(a);' % vt, lambda M, i, n=n: {'r': list(i['a'])})
            if n > 1:
                ps = [('s%d' % k, 'val', CPP[t], t, 1) for k in range(n)]
                add('comps', 'Vector(components)', ps + [R], 'new(&r) %s(%s);' % (vt, ', '.join('s%d' % k for k in range(n))),
                    lambda M, i, n=n: {'r': [i['s%d' % k][0] for k in range(n)]})
                for rot in ((0, 1, 2, 3) if n in (2, 3, 4) else (1,)):
                    us = [(['i', 'd', 'f', 'u'] * 3)[k + rot] for k in range(n)]
                    pm = [('s%d' % k, 'val', CPP[us[k]], us[k], 1) for k in range(n)]
                    add('compsmix%d' % rot, 'Vector(%s)' % ', '.join(tn(u) for u in us), pm + [R], 'new(&r) %s(%s);' % (vt, ', '.join('s%d' % k for k in range(n))),
                        lambda M, i, n=n, us=us, t=t: {'r': [M.cast(i['s%d' % k][0], us[k], t) for k in range(n)]})
                add('ctad', 'Vector(components), deduced', ps + [R], 'auto q = Vector(%s); static_assert(std::is_same_v<decltype(q), %s>); new(&r) %s(q);' % (', '.join('s%d' % k for k in range(n)), vt, vt),
                    lambda M, i, n=n: {'r': [i['s%d' % k][0] for k in range(n)]})
                if t in ('f', 'd'):
                    pc = [('s%d' % k, 'val', CPP['i' if k % 2 else t], 'i' if k % 2 else t, 1) for k in range(n)]
                    add('ctadmix', 'Vector(mixed components), deduced', pc + [R], 'auto q = Vector(%s); static_assert(std::is_same_v<decltype(q), %s>); new(&r) %s(q);' % (', '.join('s%d' % k for k in range(n)), vt, vt),
                        lambda M, i, n=n, t=t: {'r': [M.cast(i['s%d' % k][0], 'i' if k % 2 else t, t) for k in range(n)]})
                for u in [x for x in ('f', 'd', 'i', 'u') if x != t]:
                    add('fill_' + u, 'Vector(%s)' % tn(u), [('s', 'val', CPP[u], u, 1), R], 'new(&r) %s(s);' % vt, lambda M, i, n=n, u=u, t=t: {'r': [M.cast(i['s'][0], u, t)] * n})
                add('seti', 'operator[](i) = s', [IO, ('i', 'val', 'std::size_t', 'ul', 1), S], 'a[i] = s;',
                    lambda M, i, n=n: {'a': [M.ite(M.eq(i['i'][0], M.const('ul', k)), i['s'][0], i['a'][k]) for k in range(n)]}, lambda M, i, n=n: [M.lt(i['i'][0], M.const('ul', n), 'ul')])
            for k in range(n):
                O1 = ('r', 'out', CPP[t], t, 1)
                add('idx%d' % k, 'operator[](%d) const' % k, [A, O1], 'r = a[%d];' % k, lambda M, i, k=k: {'r': [i['a'][k]]})
                add('set%d' % k, 'operator[](%d)' % k, [IO, S], 'a[%d] = s;' % k, lambda M, i, k=k, n=n: {'a': [i['s'][0] if q == k else i['a'][q] for q in range(n)]})
            if n > 1 :
                O1 = ('r', 'out', CPP[t], t, 1)
                I = ('i', 'val', 'std::size_t', 'ul', 1)
                # every valid index, symbolic
                def sidx(M, i, n=n):
                    e = i['a'][n - 1]
                    for k in range(n - 2, -1, -1): e = M.ite(M.eq(i['i'][0], M.const('ul', k)), i['a'][k], e)
                    return {'r': [e]}
                add('idx', 'operator[](i)', [A, I, O1], 'r = a[i];', sidx, lambda M, i, n=n: [M.lt(i['i'][0], M.const('ul', n), 'ul')])
    # mixed composition constructors, the parts may have other component types
    for t, u, x in (('f', 'f', 'f'), ('i', 'i', 'i'), ('f', 'd', 'i'), ('i', 'u', 'f'), ('d', 'i', 'f')):
        S = lambda k, x=x: ('s%d' % k, 'val', CPP[x], x, 1)
        W = lambda nm, k, u=u: (nm, 'in', V(u, k), u, k)
        def add(name, what, params, body, order, n, t=t, u=u, x=x):
            def spec(M, i): return {'r': [M.cast(v, x if p[0] == 's' else u, t) for p in order for v in i[p]]}
            sfx = t if t == u == x else t + u + x
            nm = what if t == u == x else '%s of %s and %s' % (what, tn(u), tn(x))
            out.append(Fn('vec_%s_%s' % (name, sfx), 'Vector<%s,%d>::%s' % (tn(t), n, nm), params + [('r', 'out', V(t, n), t, n)], 'new(&r) %s%s;' % (V(t, n), body), spec))
        add('m3a', 'Vector(s, vec2)', [S(0), W('v', 2)], '(s0, v)', ['s0', 'v'], 3)
        add('m3b', 'Vector(vec2, s)', [W('v', 2), S(0)], '(v, s0)', ['v', 's0'], 3)
        add('m4a', 'Vector(s, s, vec2)', [S(0), S(1), W('v', 2)], '(s0, s1, v)', ['s0', 's1', 'v'], 4)
        add('m4b', 'Vector(s, vec2, s)', [S(0), W('v', 2), S(1)], '(s0, v, s1)', ['s0', 'v', 's1'], 4)
        add('m4c', 'Vector(vec2, s, s)', [W('v', 2), S(0), S(1)], '(v, s0, s1)', ['v', 's0', 's1'], 4)
        add('m4d', 'Vector(vec2, vec2)', [W('v', 2), W('w', 2)], '(v, w)', ['v', 'w'], 4)
        add('m4e', 'Vector(s, vec3)', [S(0), W('v', 3)], '(s0, v)', ['s0', 'v'], 4)
        add('m4f', 'Vector(vec3, s)', [W('v', 3), S(0)], '(v, s0)', ['v', 's0'], 4)
    return out

def compare(types=('f', 'i', 'u'), sizes=(1, 2, 3, 4, 5)):
    out = []
    for t in types:
        for n in sizes:
            vt = V(t, n); nm = 'Vector<%s,%d>' % (tn(t), n)
            A = ('a', 'in', vt, t, n); B = ('b', 'in', vt, t, n); R = ('r', 'out', 'bool', 'b', 1)
            def le(M, i, n=n, t=t):
                r = False
                for k in range(n - 1, -1, -1):
                    r = M.Or(M.lt(i['a'][k], i['b'][k], t), M.And(M.eq(i['a'][k], i['b'][k]), r))
                return r
            def ee(M, i, n=n): return M.And(*[M.eq(i['a'][k], i['b'][k]) for k in range(n)])
            sw = lambda i: {'a': i['b'], 'b': i['a']}
            for o, f in (('==', lambda M, i, ee=ee: ee(M, i)), ('!=', lambda M, i, ee=ee: M.Not(ee(M, i))), ('<', lambda M, i, le=le: le(M, i)), ('>', lambda M, i, le=le: le(M, sw(i))),
                         ('<=', lambda M, i, le=le, ee=ee: M.Or(le(M, i), ee(M, i))), ('>=', lambda M, i, le=le, ee=ee: M.Or(le(M, sw(i)), ee(M, i)))):
                k = {'==': 'eq', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}[o]
                out.append(Fn('vec_%s_%s%d' % (k, t, n), '%s::operator%s' % (nm, o), [A, B, R], 'r = (a %s b);' % o, lambda M, i, f=f: {'r': [f(M, i)]}))
    return out

def dotv(M, a, b):
    r = M.mul(a[0], b[0])
    for x, y in list(zip(a, b))[1:]: r = M.add(r, M.mul(x, y))
    return r

def geometry(types=('f', 'd'), sizes=(2, 3, 4, 5, 7)):
    out = []
    for t in types:
        for n in sizes:
            vt = V(t, n); c = CPP[t]; nm = '<%s,%d>' % (tn(t), n)
            A = ('a', 'in', vt, t, n); B = ('b', 'in', vt, t, n); C = ('c', 'in', vt, t, n); R = ('r', 'out', vt, t, n); R1 = ('r', 'out', c, t, 1)
            P = ('p', 'val', c, t, 1)
            def add(name, what, params, body, spec, pre=None):
                out.append(Fn('geo_%s_%s%d' % (name, t, n), what + nm, params, body, spec, pre))
            add('dot', 'dot', [A, B, R1], 'r = dot(a, b);', lambda M, i: {'r': [dotv(M, i['a'], i['b'])]})
            if t in FP:
                ln = lambda M, v: M.fn('sqrt', dotv(M, v, v))
                add('len', 'length', [A, R1], 'r = length(a);', lambda M, i, ln=ln: {'r': [ln(M, i['a'])]})
                add('mlen', 'Vector::length', [A, R1], 'r = a.length();', lambda M, i, ln=ln: {'r': [ln(M, i['a'])]})
                add('dist', 'distance', [A, B, R1], 'r = distance(a, b);', lambda M, i, ln=ln: {'r': [ln(M, [M.sub(y, x) for x, y in zip(i['a'], i['b'])])]})
                nz = lambda M, i, n=n: [M.Or(*[M.Not(M.eq(x, M.const('d', 0))) for x in i['a']])]
                add('norm', 'normalize', [A, R], 'new(&r) %s(normalize(a));' % vt, lambda M, i, ln=ln: {'r': [M.div(x, ln(M, i['a']), 'd') for x in i['a']]}, nz)
                add('mnorm', 'Vector::normalize', [A, R], 'new(&r) %s(a.normalize());' % vt, lambda M, i, ln=ln: {'r': [M.div(x, ln(M, i['a']), 'd') for x in i['a']]}, nz)
                add('lerp', 'lerp(v1, v2, scalar)', [A, B, P, R], 'new(&r) %s(lerp(a, b, p));' % vt,
                    lambda M, i: {'r': [M.add(x, M.mul(M.sub(y, x), i['p'][0])) for x, y in zip(i['a'], i['b'])]})
                add('lerpv', 'lerp(v1, v2, vector)', [A, B, C, R], 'new(&r) %s(lerp(a, b, c));' % vt,
                    lambda M, i: {'r': [M.add(x, M.mul(M.sub(y, x), p)) for x, y, p in zip(i['a'], i['b'], i['c'])]})
                for pt in ('i', 'u', 'l', 'ul', 'uc', 'd' if t == 'f' else 'f'):
                    if n in (2, 4) and pt in ('l', 'ul'): continue
                    add('lerp_' + pt, 'lerp(v1, v2, %s scalar)' % tn(pt), [A, B, ('p', 'val', CPP[pt], pt, 1), R], 'new(&r) %s(lerp(a, b, p));' % vt,
                        lambda M, i, pt=pt, t=t: {'r': [M.add(x, M.mul(M.sub(y, x), M.cast(i['p'][0], pt, t))) for x, y in zip(i['a'], i['b'])]})
                    add('lerpv_' + pt, 'lerp(v1, v2, %s vector)' % tn(pt), [A, B, ('c', 'in', V(pt, n), pt, n), R], 'new(&r) %s(lerp(a, b, c));' % vt,
                        lambda M, i, pt=pt, t=t: {'r': [M.add(x, M.mul(M.sub(y, x), M.cast(p, pt, t))) for x, y, p in zip(i['a'], i['b'], i['c'])]})
                add('mix', 'mix(v1, v2, scalar)', [A, B, P, R], 'new(&r) %s(mix(a, b, p));' % vt,
                    lambda M, i: {'r': [M.add(x, M.mul(M.sub(y, x), i['p'][0])) for x, y in zip(i['a'], i['b'])]})
                add('mixv', 'mix(v1, v2, vector)', [A, B, C, R], 'new(&r) %s(mix(a, b, c));' % vt,
                    lambda M, i: {'r': [M.add(x, M.mul(M.sub(y, x), p)) for x, y, p in zip(i['a'], i['b'], i['c'])]})
                add('lerpb', 'lerp(v1, v2, bool)', [A, B, ('p', 'val', 'bool', 'b', 1), R], 'new(&r) %s(lerp(a, b, p));' % vt,
                    lambda M, i: {'r': [M.ite(M.isnz(i['p'][0]), y, x) for x, y in zip(i['a'], i['b'])]})
                add('lerpvb', 'lerp(v1, v2, bool vector)', [A, B, ('c', 'in', V('b', n), 'b', n), R], 'new(&r) %s(lerp(a, b, c));' % vt,
                    lambda M, i: {'r': [M.ite(M.isnz(p), y, x) for x, y, p in zip(i['a'], i['b'], i['c'])]})
            add('refl', 'reflect', [A, B, R], 'new(&r) %s(reflect(a, b));' % vt,
                lambda M, i: {'r': [M.sub(x, M.mul(M.mul(M.const('d', 2), dotv(M, i['a'], i['b'])), y)) if True else 0 for x, y in zip(i['a'], i['b'])]})
            add('ff', 'faceforward', [A, B, C, R], 'new(&r) %s(faceforward(a, b, c));' % vt,
                lambda M, i: {'r': [M.ite(M.lt(dotv(M, i['b'], i['c']), M.const('d', 0), 'd'), x, M.neg(x)) for x in i['a']]},
                lambda M, i: [M.Not(M.eq(dotv(M, i['b'], i['c']), M.const('d', 0)))])
            if n < 6: add('sign', 'sign(vector)', [A, R], 'new(&r) %s(sign(a));' % vt,
                lambda M, i: {'r': [M.ite(M.lt(x, M.const('d', 0), 'd'), M.const('d', -1), M.ite(M.lt(M.const('d', 0), x, 'd'), M.const('d', 1), M.const('d', 0))) for x in i['a']]})
            if n == 3:
                def cr(M, i):
                    a, b = i['a'], i['b']
                    f = lambda p, q: M.sub(M.mul(a[p], b[q]), M.mul(a[q], b[p]))
                    return {'r': [f(1, 2), f(2, 0), f(0, 1)]}
                add('cross', 'cross', [A, B, R], 'new(&r) %s(cross(a, b));' % vt, cr)
                add('crossorth', 'cross is orthogonal to both operands', [A, B, ('r', 'out', c, t, 1), ('q', 'out', c, t, 1)], 'r = dot(cross(a, b), a); q = dot(cross(a, b), b);',
                    lambda M, i: {'r': [M.const('d', 0)], 'q': [M.const('d', 0)]})
    for t in ('i',):
        for n in (2, 3, 4):
            vt = V(t, n); A = ('a', 'in', vt, t, n); B = ('b', 'in', vt, t, n)
            out.append(Fn('geo_dot_%s%d' % (t, n), 'dot<%s,%d>' % (tn(t), n), [A, B, ('r', 'out', CPP[t], t, 1)], 'r = dot(a, b);', lambda M, i: {'r': [dotv(M, i['a'], i['b'])]}))
            out.append(Fn('geo_sign_%s%d' % (t, n), 'sign(vector)<%s,%d>' % (tn(t), n), [A, ('r', 'out', vt, t, n)], 'new(&r) %s(sign(a));' % vt,
                lambda M, i, t=t: {'r': [M.ite(M.lt(x, M.const(t, 0), t), M.const(t, -1), M.ite(M.lt(M.const(t, 0), x, t), M.const(t, 1), M.const(t, 0))) for x in i['a']]}))
    return out
