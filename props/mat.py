"""Contracts on xme::math::Matrix, matrix functions, transformations, projections, Quaternion, scalar functions, constants."""
from fractions import Fraction
from xvc.pure import Fn, CPP, SZ, FP, SIGNED
from .vec import HDR, V, NM, op, tn, dotv

def MT(t, c, r): return 'Matrix<%s, %d, %d>' % (CPP[t], c, r)
DIMS = [(2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (4, 2), (2, 4), (3, 4), (4, 3), (5, 5), (5, 3)]

def at(m, c, r, rows): return m[c * rows + r]

def arith(types=('f', 'd'), dims=DIMS):
    out = []
    for t in types:
        for (C, R) in dims:
            mt = MT(t, C, R); n = C * R; nm = 'Matrix<%s,%d,%d>' % (tn(t), C, R); sfx = '%s%d%d' % (t, C, R)
            A = ('a', 'in', mt, t, n); B = ('b', 'in', mt, t, n); O = ('r', 'out', mt, t, n); IO = ('a', 'io', mt, t, n); S = ('s', 'val', CPP[t], t, 1)
            def add(name, what, params, body, spec, pre=None):
                out.append(Fn('mat_%s_%s' % (name, sfx), '%s::%s' % (nm, what), params, body, spec, pre))
            for o in '+-*/':
                sp = lambda M, i, o=o, n=n, t=t: [op(M, o, i['a'][k], i['s'][0], t) for k in range(n)]
                pr = None
                if o == '/' and t not in FP: pr = lambda M, i, t=t: [M.lt(M.const(t, 0), i['s'][0], t)]
                add(NM[o] + 's', 'operator%s(scalar)' % o, [A, S, O], 'new(&r) %s(a %s s);' % (mt, o), lambda M, i, sp=sp: {'r': sp(M, i)}, pr)
                add('c' + NM[o] + 's', 'operator%s=(scalar)' % o, [IO, S], 'a %s= s;' % o, lambda M, i, sp=sp: {'a': sp(M, i)}, pr)
                u = {'f': 'd', 'd': 'f', 'i': 'u', 'u': 'i'}[t]; Su = ('s', 'val', CPP[u], u, 1)
                spu = lambda M, i, o=o, n=n, t=t, u=u: [op(M, o, i['a'][k], M.cast(i['s'][0], u, t), t) for k in range(n)]
                pru = (lambda M, i, t=t, u=u: [M.lt(M.const(t, 0), M.cast(i['s'][0], u, t), t)]) if pr else None
                add(NM[o] + 's_' + u, 'operator%s(%s)' % (o, tn(u)), [A, Su, O], 'new(&r) %s(a %s s);' % (mt, o), lambda M, i, sp=spu: {'r': sp(M, i)}, pru)
                add('c' + NM[o] + 's_' + u, 'operator%s=(%s)' % (o, tn(u)), [IO, Su], 'a %s= s;' % o, lambda M, i, sp=spu: {'a': sp(M, i)}, pru)
                if o in '+-':
                    Bu = ('b', 'in', MT(u, C, R), u, n)
                    smu = lambda M, i, o=o, n=n, t=t, u=u: [op(M, o, i['a'][k], M.cast(i['b'][k], u, t), t) for k in range(n)]
                    add(NM[o] + '_' + u, 'operator%s(Matrix<%s>)' % (o, tn(u)), [A, Bu, O], 'new(&r) %s(a %s b);' % (mt, o), lambda M, i, sp=smu: {'r': sp(M, i)})
                    add('c' + NM[o] + '_' + u, 'operator%s=(Matrix<%s>)' % (o, tn(u)), [IO, Bu], 'a %s= b;' % o, lambda M, i, sp=smu: {'a': sp(M, i)})
                if o in '+-':
                    sm = lambda M, i, o=o, n=n, t=t: [op(M, o, i['a'][k], i['b'][k], t) for k in range(n)]
                    add(NM[o], 'operator%s(Matrix)' % o, [A, B, O], 'new(&r) %s(a %s b);' % (mt, o), lambda M, i, sm=sm: {'r': sm(M, i)})
                    add('c' + NM[o], 'operator%s=(Matrix)' % o, [IO, B], 'a %s= b;' % o, lambda M, i, sm=sm: {'a': sm(M, i)})
                    add('self' + NM[o], 'operator%s= with itself' % o, [IO], 'a %s= a;' % o, lambda M, i, o=o, n=n, t=t: {'a': [op(M, o, i['a'][k], i['a'][k], t) for k in range(n)]})
                if t not in FP and o == '/': continue
                # integer scalar operand
                Si = ('s', 'val', 'std::int32_t', 'i', 1)
                if t in FP: add(NM[o] + 'si', 'operator%s(int)' % o, [A, Si, O], 'new(&r) %s(a %s s);' % (mt, o),
                    lambda M, i, o=o, n=n, t=t: {'r': [op(M, o, i['a'][k], M.cast(i['s'][0], 'i', t), t) for k in range(n)]}, (lambda M, i: [M.isnz(i['s'][0])]) if o == '/' else None)
                add('own' + NM[o], 'operator%s= with its own element' % o, [IO], 'a %s= a[0][0];' % o, lambda M, i, o=o, n=n, t=t: {'a': [op(M, o, i['a'][k], i['a'][0], t) for k in range(n)]})
            add('neg', 'operator-()', [A, O], 'new(&r) %s(-a);' % mt, lambda M, i, n=n: {'r': [M.neg(x) for x in i['a']]})
            add('ident', 'Matrix() is the identity', [O], 'new(&r) %s();' % mt, lambda M, i, C=C, R=R, t=t: {'r': [M.const(t, 1 if c == r else 0) for c in range(C) for r in range(R)]})
            add('diag', 'Matrix(scalar)', [S, O], 'new(&r) %s(s);' % mt, lambda M, i, C=C, R=R, t=t: {'r': [i['s'][0] if c == r else M.const(t, 0) for c in range(C) for r in range(R)]})
            cols = [('c%d' % k, 'in', V(t, R), t, R) for k in range(C)]
            add('cols', 'Matrix(columns)', cols + [O], 'new(&r) %s(%s);' % (mt, ', '.join('c%d' % k for k in range(C))), lambda M, i, C=C: {'r': sum((list(i['c%d' % k]) for k in range(C)), [])})
            um = ['f', 'd', 'i', 'u']
            colm = [('c%d' % k, 'in', V(um[k % 4], R), um[k % 4], R) for k in range(C)]
            add('colsmix', 'Matrix(columns of other types)', colm + [O], 'new(&r) %s(%s);' % (mt, ', '.join('c%d' % k for k in range(C))), lambda M, i, C=C, t=t, um=um: {'r': [M.cast(x, um[k % 4], t) for k in range(C) for x in i['c%d' % k]]})
            add('ctad', 'Matrix(columns), deduced', cols + [O], 'auto q = Matrix(%s); static_assert(std::is_same_v<decltype(q), %s>); new(&r) %s(q);' % (', '.join('c%d' % k for k in range(C)), mt, mt), lambda M, i, C=C: {'r': sum((list(i['c%d' % k]) for k in range(C)), [])})
            add('copy', 'copy', [A, O], 'new(&r) %s(a);' % mt, lambda M, i: {'r': list(i['a'])})
            u = {'f': 'd', 'd': 'f', 'i': 'u', 'u': 'i'}[t]
            Au = ('a', 'in', MT(u, C, R), u, n)
            add('diag_' + u, 'Matrix(%s)' % tn(u), [('s', 'val', CPP[u], u, 1), O], 'new(&r) %s(s);' % mt, lambda M, i, C=C, R=R, t=t, u=u: {'r': [M.cast(i['s'][0], u, t) if c == r else M.const(t, 0) for c in range(C) for r in range(R)]})
            sel = lambda M, ix, xs: xs[-1] if len(xs) == 1 else M.ite(M.eq(ix, M.const('ul', 0)), xs[0], seln(M, ix, xs, 1))
            def seln(M, ix, xs, k): return xs[k] if k == len(xs) - 1 else M.ite(M.eq(ix, M.const('ul', k)), xs[k], seln(M, ix, xs, k + 1))
            IX = ('i', 'val', 'std::size_t', 'ul', 1); JX = ('j', 'val', 'std::size_t', 'ul', 1)
            inC = lambda M, i, C=C: [M.lt(i['i'][0], M.const('ul', C), 'ul')]
            add('idxij', 'operator[](i)[j]', [A, IX, JX, ('r', 'out', CPP[t], t, 1)], 'r = a[i][j];',
                lambda M, i, C=C, R=R, seln=seln: {'r': [seln(M, i['i'][0], [seln(M, i['j'][0], i['a'][c * R:(c + 1) * R], 0) for c in range(C)], 0)]}, lambda M, i, C=C, R=R: [M.lt(i['i'][0], M.const('ul', C), 'ul'), M.lt(i['j'][0], M.const('ul', R), 'ul')])
            add('coli', 'column(i)', [A, IX, ('r', 'out', V(t, R), t, R)], 'new(&r) %s(a.column(i));' % V(t, R), lambda M, i, C=C, R=R, seln=seln: {'r': [seln(M, i['i'][0], [i['a'][c * R + r] for c in range(C)], 0) for r in range(R)]}, inC)
            add('rowi', 'row(i)', [A, IX, ('r', 'out', V(t, C), t, C)], 'new(&r) %s(a.row(i));' % V(t, C), lambda M, i, C=C, R=R, seln=seln: {'r': [seln(M, i['i'][0], [i['a'][c * R + r] for r in range(R)], 0) for c in range(C)]}, lambda M, i, R=R: [M.lt(i['i'][0], M.const('ul', R), 'ul')])
            add('assign_' + u, 'operator=(Matrix<%s>)' % tn(u), [Au, O], 'r = a;', lambda M, i, u=u, t=t: {'r': [M.cast(x, u, t) for x in i['a']]})
            add('assign', 'operator=', [A, O], 'r = a;', lambda M, i: {'r': list(i['a'])})
            add('conv_' + u, 'Matrix(Matrix<%s>)' % tn(u), [Au, O], 'new(&r) %s(a);' % mt, lambda M, i, u=u, t=t: {'r': [M.cast(x, u, t) for x in i['a']]})
            if (C, R) == (4, 4):
                M3 = ('a', 'in', MT(t, 3, 3), t, 9)
                add('from33', 'Matrix4x4(Matrix3x3)', [M3, O], 'new(&r) %s(a);' % mt, lambda M, i, t=t: {'r': [i['a'][c * 3 + r] if c < 3 and r < 3 else M.const(t, 1 if c == r else 0) for c in range(4) for r in range(4)]})
            for k in range(R):
                add('row%d' % k, 'row(%d)' % k, [A, ('r', 'out', V(t, C), t, C)], 'new(&r) %s(a.row(%d));' % (V(t, C), k), lambda M, i, k=k, C=C, R=R: {'r': [i['a'][c * R + k] for c in range(C)]})
            for k in range(C):
                add('col%d' % k, 'column(%d)' % k, [A, ('r', 'out', V(t, R), t, R)], 'new(&r) %s(a.column(%d));' % (V(t, R), k), lambda M, i, k=k, R=R: {'r': i['a'][k * R:(k + 1) * R]})
                add('idx%d' % k, 'operator[](%d)' % k, [A, ('r', 'out', V(t, R), t, R)], 'new(&r) %s(a[%d]);' % (V(t, R), k), lambda M, i, k=k, R=R: {'r': i['a'][k * R:(k + 1) * R]})
                add('setidx%d' % k, 'operator[](%d) mutable' % k, [IO, S], 'a[%d][%d] = s;' % (k, R - 1), lambda M, i, k=k, R=R: {'a': [i['s'][0] if q == k * R + R - 1 else x for q, x in enumerate(i['a'])]})
            # comparison
            Bo = ('r', 'out', 'bool', 'b', 1)
            ee = lambda M, i, n=n: M.And(*[M.eq(i['a'][k], i['b'][k]) for k in range(n)])
            if n <= 9:
                add('eq', 'operator==', [A, B, Bo], 'r = (a == b);', lambda M, i, ee=ee: {'r': [ee(M, i)]})
                add('ne', 'operator!=', [A, B, Bo], 'r = (a != b);', lambda M, i, ee=ee: {'r': [M.Not(ee(M, i))]})
    return out

def product(types=('f', 'd')):
    out = []
    for t in types:
        for (C, R) in [(2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (4, 2), (2, 4), (3, 4), (4, 3), (5, 5), (1, 3)]:
            mt = MT(t, C, R); nm = 'Matrix<%s,%d,%d>' % (tn(t), C, R); sfx = '%s%d%d' % (t, C, R)
            A = ('a', 'in', mt, t, C * R)
            out.append(Fn('prod_vec_' + sfx, nm + '::operator*(Vector)', [A, ('v', 'in', V(t, C), t, C), ('r', 'out', V(t, R), t, R)], 'new(&r) %s(a * v);' % V(t, R),
                lambda M, i, C=C, R=R: {'r': [dotv(M, [i['a'][c * R + r] for c in range(C)], i['v']) for r in range(R)]}))
            for C2 in (2, 3, 4, 5) if C < 5 else (5,):
                # Matrix<C,R> * Matrix<C2, C> -> Matrix<C2, R>
                B = ('b', 'in', MT(t, C2, C), t, C2 * C); O = ('r', 'out', MT(t, C2, R), t, C2 * R)
                out.append(Fn('prod_mat_%s_%d' % (sfx, C2), '%s::operator*(Matrix<%d,%d>)' % (nm, C2, C), [A, B, O], 'new(&r) %s(a * b);' % MT(t, C2, R),
                    lambda M, i, C=C, R=R, C2=C2: {'r': [dotv(M, [i['a'][k * R + r] for k in range(C)], [i['b'][c * C + k] for k in range(C)]) for c in range(C2) for r in range(R)]}))
        for n in (2, 3, 4):
            mt = MT(t, n, n); A = ('a', 'in', mt, t, n * n); O = ('r', 'out', mt, t, n * n); v = ('v', 'in', V(t, n), t, n)
            nm = 'Matrix<%s,%d,%d>' % (tn(t), n, n)
            out.append(Fn('prod_id_%s%d' % (t, n), nm + ' * identity', [A, O], 'new(&r) %s(a * %s());' % (mt, mt), lambda M, i: {'r': list(i['a'])}))
            out.append(Fn('prod_idl_%s%d' % (t, n), 'identity * ' + nm, [A, O], 'new(&r) %s(%s() * a);' % (mt, mt), lambda M, i: {'r': list(i['a'])}))
            B = ('b', 'in', mt, t, n * n)
            def comp(M, i, n=n):
                bv = [dotv(M, [i['b'][c * n + r] for c in range(n)], i['v']) for r in range(n)]
                return {'r': [dotv(M, [i['a'][c * n + r] for c in range(n)], bv) for r in range(n)]}
            out.append(Fn('prod_assoc_%s%d' % (t, n), '(A*B)*v = A*(B*v) for ' + nm, [A, B, v, ('r', 'out', V(t, n), t, n)], 'new(&r) %s((a * b) * v);' % V(t, n), comp))
    return out

def det(M, m, n):
    """Leibniz expansion along the first column"""
    if n == 1: return m[0][0]
    r = None
    for k in range(n):
        minor = [[m[c][q] for q in range(n) if q != k] for c in range(1, n)]
        x = M.mul(m[0][k], det(M, minor, n - 1))
        r = x if r is None else (M.add(r, x) if k % 2 == 0 else M.sub(r, x))
    return r

def functions(types=('f', 'd')):
    out = []
    for t in types:
        for n in (2, 3, 4):
            A = ('a', 'in', MT(t, n, n), t, n * n); R1 = ('r', 'out', CPP[t], t, 1)
            sp = lambda M, i, n=n: {'r': [det(M, [i['a'][c * n:(c + 1) * n] for c in range(n)], n)]}
            out.append(Fn('mf_det_%s%d' % (t, n), 'determinant<%s,%d>' % (tn(t), n), [A, R1], 'r = determinant(a);', sp))
            if n == 4: out.append(Fn('mf_mdet_%s' % t, 'Matrix4x4<%s>::determinant' % tn(t), [A, R1], 'r = a.determinant();', sp))
            B = ('b', 'in', MT(t, n, n), t, n * n)
            if n < 4:
                out.append(Fn('mf_detprod_%s%d' % (t, n), 'determinant is multiplicative <%s,%d>' % (tn(t), n), [A, B, R1], 'r = determinant(a * b);',
                    lambda M, i, n=n: {'r': [M.mul(det(M, [i['a'][c * n:(c + 1) * n] for c in range(n)], n), det(M, [i['b'][c * n:(c + 1) * n] for c in range(n)], n))]}))
        for (C, R) in DIMS:
            n = C * R; A = ('a', 'in', MT(t, C, R), t, n); B = ('b', 'in', MT(t, C, R), t, n)
            out.append(Fn('mf_tr_%s%d%d' % (t, C, R), 'transpose<%s,%d,%d>' % (tn(t), C, R), [A, ('r', 'out', MT(t, R, C), t, n)], 'new(&r) %s(transpose(a));' % MT(t, R, C),
                lambda M, i, C=C, R=R: {'r': [i['a'][c * R + r] for r in range(R) for c in range(C)]}))
            out.append(Fn('mf_tt_%s%d%d' % (t, C, R), 'transpose(transpose) <%s,%d,%d>' % (tn(t), C, R), [A, ('r', 'out', MT(t, C, R), t, n)], 'new(&r) %s(transpose(transpose(a)));' % MT(t, C, R), lambda M, i: {'r': list(i['a'])}))
            out.append(Fn('mf_had_%s%d%d' % (t, C, R), 'hadamard_product<%s,%d,%d>' % (tn(t), C, R), [A, B, ('r', 'out', MT(t, C, R), t, n)], 'new(&r) %s(hadamard_product(a, b));' % MT(t, C, R),
                lambda M, i: {'r': [M.mul(x, y) for x, y in zip(i['a'], i['b'])]}))
            a = ('a', 'in', V(t, R), t, R); b = ('b', 'in', V(t, C), t, C)
            out.append(Fn('mf_outer_%s%d%d' % (t, C, R), 'outer_product<%s,%d,%d>' % (tn(t), R, C), [a, b, ('r', 'out', MT(t, C, R), t, n)], 'new(&r) %s(outer_product(a, b));' % MT(t, C, R),
                lambda M, i, C=C, R=R: {'r': [M.mul(i['a'][r], i['b'][c]) for c in range(C) for r in range(R)]}))
        A = ('a', 'in', MT(t, 4, 4), t, 16)
        out.append(Fn('mf_mtr_%s' % t, 'Matrix4x4<%s>::transpose' % tn(t), [A, ('r', 'out', MT(t, 4, 4), t, 16)], 'new(&r) %s(a.transpose());' % MT(t, 4, 4), lambda M, i: {'r': [i['a'][c * 4 + r] for r in range(4) for c in range(4)]}))
    return out

def mm(M, a, b, n=4):
    """column-major product a*b"""
    return [dotv(M, [a[k * n + r] for k in range(n)], [b[c * n + k] for k in range(n)]) for c in range(n) for r in range(n)]

def transforms(types=('f', 'd')):
    out = []
    for t in types:
        mt = MT(t, 4, 4); A = ('a', 'in', mt, t, 16); v = ('v', 'in', V(t, 3), t, 3); O = ('r', 'out', mt, t, 16); nm = '<%s>' % tn(t)
        ang = ('s', 'val', CPP[t], t, 1); P = ('p', 'in', V(t, 4), t, 4); O4 = ('r', 'out', V(t, 4), t, 4)
        def T(M, v, t=t):
            o, z = M.const(t, 1), M.const(t, 0)
            return [o, z, z, z, z, o, z, z, z, z, o, z, v[0], v[1], v[2], o]
        def S(M, v, t=t):
            o, z = M.const(t, 1), M.const(t, 0)
            return [v[0], z, z, z, z, v[1], z, z, z, z, v[2], z, z, z, z, o]
        def Rm(M, a, n, t=t):
            """Rodrigues: R = c I + s [n]x + (1-c) n n^T (column major)"""
            o, z = M.const(t, 1), M.const(t, 0)
            c, s = M.fn('cos', a), M.fn('sin', a)
            k = M.sub(o, c)
            skew = [[z, n[2], M.neg(n[1])], [M.neg(n[2]), z, n[0]], [n[1], M.neg(n[0]), z]]      # skew[col][row]
            m = []
            for col in range(3):
                for row in range(3):
                    x = M.add(M.mul(k, M.mul(n[row], n[col])), M.mul(s, skew[col][row]))
                    if row == col: x = M.add(x, c)
                    m.append(x)
                m.append(z)
            return m + [z, z, z, o]
        out.append(Fn('tf_translate_' + t, 'translate' + nm, [A, v, O], 'new(&r) %s(translate(a, v));' % mt, lambda M, i, T=T: {'r': mm(M, i['a'], T(M, i['v']))}))
        out.append(Fn('tf_scale_' + t, 'scale' + nm, [A, v, O], 'new(&r) %s(scale(a, v));' % mt, lambda M, i, S=S: {'r': mm(M, i['a'], S(M, i['v']))}))
        out.append(Fn('tf_rotate_' + t, 'rotate' + nm, [A, ang, v, O], 'new(&r) %s(rotate(a, s, v));' % mt, lambda M, i, Rm=Rm: {'r': mm(M, i['a'], Rm(M, i['s'][0], i['v']))}))
        out.append(Fn('tf_tp_' + t, 'translate moves points by the vector' + nm, [v, P, O4], 'new(&r) %s(translate(%s(), v) * p);' % (V(t, 4), mt),
            lambda M, i: {'r': [M.add(i['p'][k], M.mul(i['v'][k], i['p'][3])) for k in range(3)] + [i['p'][3]]}))
        out.append(Fn('tf_sp_' + t, 'scale scales points componentwise' + nm, [v, P, O4], 'new(&r) %s(scale(%s(), v) * p);' % (V(t, 4), mt),
            lambda M, i: {'r': [M.mul(i['p'][k], i['v'][k]) for k in range(3)] + [i['p'][3]]}))
        # rotation about n keeps the axis fixed: R(n) n = n when |n| = 1 is |n|^2 n in general form
        def axis(M, i, t=t):
            n = i['v']; c = M.fn('cos', i['s'][0]); q = dotv(M, n, n); k = M.add(c, M.mul(M.sub(M.const(t, 1), c), q))
            return {'r': [M.mul(k, n[j]) for j in range(3)] + [M.const(t, 0)]}
        out.append(Fn('tf_raxis_' + t, 'rotate maps its axis to a multiple that is 1 for unit axes' + nm, [ang, v, O4], 'new(&r) %s(rotate(%s(), s, v) * %s(v, 0));' % (V(t, 4), mt, V(t, 4)), axis))
        # vector operand of another element type
        for u in ('i', {'f': 'd', 'd': 'f'}[t]):
            vu = ('v', 'in', V(u, 3), u, 3); nu = '<%s, vector of %s>' % (tn(t), tn(u))
            cv = lambda M, i, u=u, t=t: [M.cast(x, u, t) for x in i['v']]
            out.append(Fn('tf_translate_%s%s' % (t, u), 'translate' + nu, [A, vu, O], 'new(&r) %s(translate(a, v));' % mt, lambda M, i, T=T, cv=cv: {'r': mm(M, i['a'], T(M, cv(M, i)))}))
            out.append(Fn('tf_scale_%s%s' % (t, u), 'scale' + nu, [A, vu, O], 'new(&r) %s(scale(a, v));' % mt, lambda M, i, S=S, cv=cv: {'r': mm(M, i['a'], S(M, cv(M, i)))}))
            out.append(Fn('tf_rotate_%s%s' % (t, u), 'rotate' + nu, [A, ang, vu, O], 'new(&r) %s(rotate(a, s, v));' % mt, lambda M, i, Rm=Rm, cv=cv: {'r': mm(M, i['a'], Rm(M, i['s'][0], cv(M, i)))}))
        ai = ('s', 'val', 'std::int32_t', 'i', 1)
        out.append(Fn('tf_rotatei_' + t, 'rotate with integer angle' + nm, [A, ai, v, O], 'new(&r) %s(rotate(a, s, v));' % mt, lambda M, i, Rm=Rm, t=t: {'r': mm(M, i['a'], Rm(M, M.cast(i['s'][0], 'i', t), i['v']))}))
    return out

def projections(types=('f', 'd'), lh=False):
    """orientation: the default overloads follow the configured clip convention (right-handed unless XME_MATH_CLIP_LH)"""
    out = []
    for t in types:
        mt = MT(t, 4, 4); c = CPP[t]; O = ('r', 'out', mt, t, 16); nm = '<%s>' % tn(t)
        p4 = [(n, 'val', c, t, 1) for n in ('fov', 'asp', 'n', 'f')]
        p6 = [(x, 'val', c, t, 1) for x in ('l', 'ri', 'b', 'to', 'n', 'f')]
        g = lambda i, k: i[k][0]
        def pre4(M, i, t=t): return [M.lt(M.const(t, 0), g(i, 'asp'), t), M.lt(M.const(t, 0), g(i, 'n'), t), M.lt(g(i, 'n'), g(i, 'f'), t)] + ([abs(g(i, 'fov')) > 0.1 and abs(g(i, 'fov')) < 1.5] if M.native else [])
        def pre6(M, i, t=t): return [M.lt(M.const(t, 0), g(i, 'n'), t), M.lt(g(i, 'n'), g(i, 'f'), t), M.lt(g(i, 'l'), g(i, 'ri'), t), M.lt(g(i, 'b'), g(i, 'to'), t)]
        def sym(M, i, hand, t=t):
            z, o, two = M.const(t, 0), M.const(t, 1), M.const(t, 2)
            h = M.fn('tan', M.div(g(i, 'fov'), two, t)); n, f = g(i, 'n'), g(i, 'f'); d = M.sub(f, n)
            s = o if hand == 'lh' else M.neg(o)
            r = [z] * 16
            r[0] = M.div(o, M.mul(g(i, 'asp'), h), t); r[5] = M.div(o, h, t)
            r[10] = M.mul(s, M.div(M.add(f, n), d, t)); r[11] = s
            r[14] = M.neg(M.div(M.mul(two, M.mul(f, n)), d, t))
            return {'r': r}
        def off(M, i, hand, t=t):
            z, o, two = M.const(t, 0), M.const(t, 1), M.const(t, 2)
            l, ri, b, to, n, f = (g(i, k) for k in ('l', 'ri', 'b', 'to', 'n', 'f'))
            s = o if hand == 'lh' else M.neg(o)
            r = [z] * 16; d = M.sub(f, n); w = M.sub(ri, l); h = M.sub(to, b)
            r[0] = M.div(M.mul(two, n), w, t); r[5] = M.div(M.mul(two, n), h, t)
            r[8] = M.neg(M.mul(s, M.div(M.add(ri, l), w, t))); r[9] = M.neg(M.mul(s, M.div(M.add(to, b), h, t)))
            r[10] = M.mul(s, M.div(M.add(f, n), d, t)); r[11] = s
            r[14] = M.neg(M.div(M.mul(two, M.mul(f, n)), d, t))
            return {'r': r}
        def ort(M, i, hand, t=t):
            z, o, two = M.const(t, 0), M.const(t, 1), M.const(t, 2)
            l, ri, b, to, n, f = (g(i, k) for k in ('l', 'ri', 'b', 'to', 'n', 'f'))
            s = o if hand == 'lh' else M.neg(o)
            r = [z] * 16; d = M.sub(f, n); w = M.sub(ri, l); h = M.sub(to, b)
            r[0] = M.div(two, w, t); r[5] = M.div(two, h, t); r[10] = M.mul(s, M.div(two, d, t))
            r[12] = M.neg(M.div(M.add(ri, l), w, t)); r[13] = M.neg(M.div(M.add(to, b), h, t)); r[14] = M.neg(M.div(M.add(f, n), d, t)); r[15] = o
            return {'r': r}
        dflt = 'lh' if lh else 'rh'
        a4 = '(fov, asp, n, f)'; a6 = '(l, ri, b, to, n, f)'
        for fnn, ps, args, sp, pre in (('perspective', p4, a4, sym, pre4), ('perspective', p6, a6, off, pre6), ('ortho', p6, a6, ort, pre6)):
            for hand in ('rh', 'lh', ''):
                k = fnn + ('_' + hand if hand else '')
                h = hand or dflt
                lab = '%s%s%s' % (k, '(frustum)' if sp is off else '', nm)
                out.append(Fn('pj_%s_%d_%s' % (k, len(ps), t), lab, ps + [O], 'new(&r) %s(%s<%s>%s);' % (mt, k, c, args), lambda M, i, sp=sp, h=h: sp(M, i, h), pre))
        # the view volume maps to the clip cube: corners of the near/far planes reach +-w
        o4 = ('r', 'out', V(t, 4), t, 4)
        for hand in ('rh', 'lh'):
            zs = '-' if hand == 'rh' else ''
            s = lambda M, x, hand=hand: M.neg(x) if hand == 'rh' else x
            # near plane corner (right, top): clip = (n, n, -n, n) ; far plane corner scaled by f/n
            out.append(Fn('pj_nearcorner_%s_%s' % (hand, t), 'perspective_%s(frustum) maps the near right-top corner to (1,1,-1)%s' % (hand, nm), p6 + [o4],
                'new(&r) %s(perspective_%s<%s>%s * %s(ri, to, %sn, 1));' % (V(t, 4), hand, c, a6, V(t, 4), zs),
                lambda M, i: {'r': [g(i, 'n'), g(i, 'n'), M.neg(g(i, 'n')), g(i, 'n')]}, pre6))
            out.append(Fn('pj_farcorner_%s_%s' % (hand, t), 'perspective_%s(frustum) maps the far left-bottom corner to (-1,-1,1)%s' % (hand, nm), p6 + [o4],
                'new(&r) %s(perspective_%s<%s>%s * %s(l * f / n, b * f / n, %sf, 1));' % (V(t, 4), hand, c, a6, V(t, 4), zs),
                lambda M, i: {'r': [M.neg(g(i, 'f')), M.neg(g(i, 'f')), g(i, 'f'), g(i, 'f')]}, pre6))
            out.append(Fn('pj_orthonear_%s_%s' % (hand, t), 'ortho_%s maps the near right-top corner to (1,1,-1)%s' % (hand, nm), p6 + [o4],
                'new(&r) %s(ortho_%s<%s>%s * %s(ri, to, %sn, 1));' % (V(t, 4), hand, c, a6, V(t, 4), zs),
                lambda M, i, t=t: {'r': [M.const(t, 1), M.const(t, 1), M.const(t, -1), M.const(t, 1)]}, pre6))
            out.append(Fn('pj_orthofar_%s_%s' % (hand, t), 'ortho_%s maps the far left-bottom corner to (-1,-1,1)%s' % (hand, nm), p6 + [o4],
                'new(&r) %s(ortho_%s<%s>%s * %s(l, b, %sf, 1));' % (V(t, 4), hand, c, a6, V(t, 4), zs),
                lambda M, i, t=t: {'r': [M.const(t, -1), M.const(t, -1), M.const(t, 1), M.const(t, 1)]}, pre6))
    return out

def quaternion(types=('f', 'd')):
    out = []
    for t in types:
        q = 'Quaternion<%s>' % CPP[t]; A = ('a', 'in', q, t, 4); B = ('b', 'in', q, t, 4); O = ('r', 'out', q, t, 4); nm = '<%s>' % tn(t)
        def ham(M, a, b):
            w, x, y, z = range(4)
            m = lambda p, s: M.mul(a[p], b[s])
            return [M.sub(M.sub(M.sub(m(w, w), m(x, x)), m(y, y)), m(z, z)),
                    M.sub(M.add(M.add(m(w, x), m(x, w)), m(y, z)), m(z, y)),
                    M.add(M.add(M.sub(m(w, y), m(x, z)), m(y, w)), m(z, x)),
                    M.add(M.sub(M.add(m(w, z), m(x, y)), m(y, x)), m(z, w))]
        add = lambda n, what, ps, body, sp, pre=None: out.append(Fn('q_%s_%s' % (n, t), 'Quaternion%s::%s' % (nm, what), ps, body, sp, pre))
        add('add', 'operator+', [A, B, O], 'new(&r) %s(a + b);' % q, lambda M, i: {'r': [M.add(x, y) for x, y in zip(i['a'], i['b'])]})
        add('sub', 'operator-', [A, B, O], 'new(&r) %s(a - b);' % q, lambda M, i: {'r': [M.sub(x, y) for x, y in zip(i['a'], i['b'])]})
        add('mul', 'operator*', [A, B, O], 'new(&r) %s(a * b);' % q, lambda M, i, ham=ham: {'r': ham(M, i['a'], i['b'])})
        add('sq', 'product with itself', [A, O], 'new(&r) %s(a * a);' % q, lambda M, i, ham=ham: {'r': ham(M, i['a'], i['a'])})
        u = {'f': 'd', 'd': 'f'}[t]
        Bu = ('b', 'in', 'Quaternion<%s>' % CPP[u], u, 4); bc = lambda M, i, u=u, t=t: [M.cast(x, u, t) for x in i['b']]
        add('addx', 'operator+(other type)', [A, Bu, O], 'new(&r) %s(a + b);' % q, lambda M, i, bc=bc: {'r': [M.add(x, y) for x, y in zip(i['a'], bc(M, i))]})
        add('subx', 'operator-(other type)', [A, Bu, O], 'new(&r) %s(a - b);' % q, lambda M, i, bc=bc: {'r': [M.sub(x, y) for x, y in zip(i['a'], bc(M, i))]})
        add('mulx', 'operator*(other type)', [A, Bu, O], 'new(&r) %s(a * b);' % q, lambda M, i, ham=ham, bc=bc: {'r': ham(M, i['a'], bc(M, i))})
        C = ('c', 'in', q, t, 4)
        add('assoc', 'product is associative', [A, B, C, O], 'new(&r) %s(a * (b * c));' % q, lambda M, i, ham=ham: {'r': ham(M, ham(M, i['a'], i['b']), i['c'])})
        def nrm(M, i, ham=ham):
            return {'r': [M.mul(dotv(M, i['a'], i['a']), dotv(M, i['b'], i['b']))]}
        add('norm', 'product multiplies norms', [A, B, ('r', 'out', CPP[t], t, 1)], 'auto q = a * b; r = q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z;', nrm)
        ps = [('s%d' % k, 'val', CPP[t], t, 1) for k in range(4)]
        add('ctor', 'Quaternion(w,x,y,z)', ps + [O], 'new(&r) %s(s0, s1, s2, s3);' % q, lambda M, i: {'r': [i['s%d' % k][0] for k in range(4)]})
        pi = [('s%d' % k, 'val', 'std::int32_t', 'i', 1) for k in range(4)]
        add('ctori', 'Quaternion(ints)', pi + [O], 'new(&r) %s(s0, s1, s2, s3);' % q, lambda M, i, t=t: {'r': [M.cast(i['s%d' % k][0], 'i', t) for k in range(4)]})
        add('ctad', 'Quaternion(w,x,y,z), deduced', ps + [O], 'auto q = xme::math::Quaternion(s0, s1, s2, s3); static_assert(std::is_same_v<decltype(q), %s>); new(&r) %s(q);' % (q, q), lambda M, i: {'r': [i['s%d' % k][0] for k in range(4)]})
        pm = [('s%d' % k, 'val', *((CPP[t], t) if k == 2 else ('std::int32_t', 'i')), 1) for k in range(4)]
        add('ctadm', 'Quaternion(ints and %s), deduced' % CPP[t], pm + [O], 'auto q = xme::math::Quaternion(s0, s1, s2, s3); static_assert(std::is_same_v<decltype(q), %s>); new(&r) %s(q);' % (q, q), lambda M, i, t=t: {'r': [i['s2'][0] if k == 2 else M.cast(i['s%d' % k][0], 'i', t) for k in range(4)]})
        if t == 'f': add('ctadi', 'Quaternion(ints), deduced', pi + [O], 'auto q = xme::math::Quaternion(s0, s1, s2, s3); static_assert(std::is_same_v<decltype(q), %s>); new(&r) %s(q);' % (q, q), lambda M, i, t=t: {'r': [M.cast(i['s%d' % k][0], 'i', t) for k in range(4)]})
        for k in range(4):
            add('idx%d' % k, 'operator[](%d)' % k, [A, ('r', 'out', CPP[t], t, 1)], 'r = a[%d];' % k, lambda M, i, k=k: {'r': [i['a'][k]]})
            add('mem%d' % k, 'member %s' % 'wxyz'[k], [A, ('r', 'out', CPP[t], t, 1)], 'r = a.%s;' % 'wxyz'[k], lambda M, i, k=k: {'r': [i['a'][k]]})
            add('set%d' % k, 'operator[](%d) mutable' % k, [('a', 'io', q, t, 4), ('s', 'val', CPP[t], t, 1)], 'a[%d] = s;' % k, lambda M, i, k=k: {'a': [i['s'][0] if j == k else i['a'][j] for j in range(4)]})
        ee = lambda M, i: M.And(*[M.eq(i['a'][k], i['b'][k]) for k in range(4)])
        add('eq', 'operator==', [A, B, ('r', 'out', 'bool', 'b', 1)], 'r = (a == b);', lambda M, i: {'r': [ee(M, i)]})
        add('ne', 'operator!=', [A, B, ('r', 'out', 'bool', 'b', 1)], 'r = (a != b);', lambda M, i: {'r': [M.Not(ee(M, i))]})
        def le(M, i, t=t):
            r = False
            for k in range(3, -1, -1): r = M.Or(M.lt(i['a'][k], i['b'][k], t), M.And(M.eq(i['a'][k], i['b'][k]), r))
            return {'r': [r]}
        add('lt', 'operator<', [A, B, ('r', 'out', 'bool', 'b', 1)], 'r = (a < b);', le)
    return out

import math
PI = Fraction('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899')

def scalars():
    out = []
    for t in ('f', 'd'):
        c = CPP[t]; S = ('s', 'val', c, t, 1); O = ('r', 'out', c, t, 1); nm = '<%s>' % tn(t)
        tol = 1e-6 if t == 'f' else 1e-15
        pi = lambda M: (math.pi if M.native else M.const(t, PI))
        out.append(Fn('sc_rad_' + t, 'radians' + nm, [S, O], 'r = radians(s);', lambda M, i, t=t: {'r': [M.mul(i['s'][0], M.const(t, math.pi / 180 if M.native else PI / 180))]}, tol=tol))
        out.append(Fn('sc_deg_' + t, 'degrees' + nm, [S, O], 'r = degrees(s);', lambda M, i, t=t: {'r': [M.mul(i['s'][0], M.const(t, 180 / math.pi if M.native else 180 / PI))]}, tol=tol))
        out.append(Fn('sc_rt_' + t, 'degrees(radians(x)) = x' + nm, [S, O], 'r = degrees(radians(s));', lambda M, i: {'r': [i['s'][0]]}, tol=4 * tol))
        for n, f in (('sec', 'cos'), ('csc', 'sin'), ('cot', 'tan')):
            out.append(Fn('sc_%s_%s' % (n, t), n + nm, [S, O], 'r = xme::math::%s(s);' % n, lambda M, i, f=f, t=t: {'r': [M.div(M.const(t, 1), M.fn(f, i['s'][0]), t)]},
                          (lambda M, i: [M.Not(M.eq(i['s'][0], M.const('d', 0)))])))
        for n, f in (('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan')):
            out.append(Fn('sc_%s_%s' % (n, t), n + nm, [S, O], 'r = xme::math::%s(s);' % n, lambda M, i, f=f: {'r': [M.fn(f, i['s'][0])]}))
        for n, f in (('arcsin', 'asin'), ('arccos', 'acos'), ('arctan', 'atan')):
            out.append(Fn('sc_%s_%s' % (n, t), n + nm, [S, O], 'r = xme::math::%s(s);' % n, lambda M, i, f=f: {'r': [M.fn(f, i['s'][0])]}))
    for t in ('f', 'd', 'i', 'l', 's', 'c'):
        c = CPP[t]; S = ('s', 'val', c, t, 1); O = ('r', 'out', c, t, 1)
        out.append(Fn('sc_sign_' + t, 'sign<%s>' % tn(t), [S, O], 'r = xme::math::sign(s);',
            lambda M, i, t=t: {'r': [M.ite(M.lt(i['s'][0], M.const(t, 0), t), M.const(t, -1), M.ite(M.lt(M.const(t, 0), i['s'][0], t), M.const(t, 1), M.const(t, 0)))]}))
    return out

def consts():
    import mpmath as m
    m.mp.dps = 60
    e, pi = m.e, m.pi
    fib = m.mpf(0); a, b = 1, 1
    for _ in range(400): fib += m.mpf(1) / a; a, b = b, a + b
    s69 = m.sqrt(69)
    plastic = m.cbrt((9 + s69) / 18) + m.cbrt((9 - s69) / 18)
    C = {'e': e, 'e_sqr': e ** 2, 'e_pow_pi': e ** pi, 'pi': pi, 'two_pi': 2 * pi, 'two_over_pi': 2 / pi, 'pi_over_two': pi / 2, 'pi_sqr': pi ** 2, 'inv_pi': 1 / pi, 'tau': 2 * pi,
         'log2_e': 1 / m.log(2), 'log10_e': 1 / m.log(10), 'ln_two': m.log(2), 'ln_ten': m.log(10), 'sqrt_two': m.sqrt(2), 'sqrt_three': m.sqrt(3), 'sqrt_five': m.sqrt(5), 'sqrt_e': m.sqrt(e),
         'sqrt_pi': m.sqrt(pi), 'sqrt_two_pi': m.sqrt(2 * pi), 'sqrt_two_pi_e': m.sqrt(2 * pi * e), 'inv_sqrt_pi': 1 / m.sqrt(pi), 'cbrt_two': m.cbrt(2), 'inv_fibonacci': fib, 'phi': m.phi,
         'catalan': m.catalan, 'euler': m.euler, 'gauss': 1 / m.agm(1, m.sqrt(2)), 'plastic': plastic, 'zeta_two': m.zeta(2), 'zeta_three': m.zeta(3), 'zeta_four': m.zeta(4)}
    out = []
    for k, v in C.items():
        fr = Fraction(m.nstr(+v, 50)); fl = float(v)
        for t in ('f', 'd'):
            tol = 1.2e-7 if t == 'f' else 2.3e-16
            out.append(Fn('k_%s_%s' % (k, t), 'constant %s_v<%s>' % (k, tn(t)), [('r', 'out', CPP[t], t, 1)], 'r = xme::math::%s_v<%s>;' % (k, CPP[t]),
                lambda M, i, t=t, fr=fr, fl=fl: {'r': [fl if M.native else M.const(t, fr)]}, tol=tol))
        out.append(Fn('k_%s' % k, 'constant %s' % k, [('r', 'out', 'double', 'd', 1)], 'r = xme::math::%s;' % k, lambda M, i, fr=fr, fl=fl: {'r': [fl if M.native else M.const('d', fr)]}, tol=2.3e-16))
    return out
