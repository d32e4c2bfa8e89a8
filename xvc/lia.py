"""Exact translation of linear bit-vector verification conditions to linear integer arithmetic.

A w-bit term  t = c + sum k_i a_i  (mod 2^w)  becomes  S - 2^w q  with  S = c + sum k_i a_i over the integers,
0 <= a_i < 2^w and q the integer with 0 <= S - 2^w q < 2^w. Bounds known from the facts usually fix q, so no wrap variable is needed.
The translation is equisatisfiable (not an approximation); anything outside the fragment raises NotLinear and stays bit-blasted."""
import z3, itertools
from .sym import BV, from_z3, sgn, _ATOM

class NotLinear(Exception): pass
_n = itertools.count()
CMP = {z3.Z3_OP_ULEQ: ('u', 0), z3.Z3_OP_ULT: ('u', 1), z3.Z3_OP_UGEQ: ('U', 0), z3.Z3_OP_UGT: ('U', 1),
       z3.Z3_OP_SLEQ: ('s', 0), z3.Z3_OP_SLT: ('s', 1), z3.Z3_OP_SGEQ: ('S', 0), z3.Z3_OP_SGT: ('S', 1)}
_LF = {}
def linform(e):
    k = e.get_id()
    r = _LF.get(k)
    if r is None or r[0] is not e and not r[0].eq(e):
        r = (e, from_z3(e)); _LF[k] = r
    return r[1]
def unsext(e):
    """x when e is the sign extension of x written as copies of its top bit in front of it"""
    if not z3.is_app(e) or e.decl().kind() != z3.Z3_OP_CONCAT: return None
    ch = e.children(); x = ch[-1]; n = x.size()
    for c in ch[:-1]:
        if c.size() != 1: return None
    top = z3.simplify(z3.Extract(n - 1, n - 1, x))
    if not ch[0].eq(top) or any(not c.eq(top) for c in ch[1:-1]): return None
    return x
def low(e):
    """Extract(hi,lo,x)==0 with hi = top -> bound on x"""
    return None

class Tr:
    def __init__(s):
        s.memo = {}; s.side = []; s.iv = {}; s.fiv = {}; s.nn = []; s.nnk = set(); s.ord = []; s.vars = {}; s.facts = (); s.out = []; s.bad = None; s.parts = {}; s.whole = set(); s.approx = False; s.divs = {}; s.dq = {}
    def copy(s):
        t = Tr()
        t.memo = dict(s.memo); t.side = list(s.side); t.iv = dict(s.iv); t.fiv = dict(s.fiv); t.nn = list(s.nn); t.nnk = set(s.nnk); t.ord = list(s.ord); t.vars = dict(s.vars); t.facts = s.facts; t.out = list(s.out); t.bad = s.bad
        t.parts = dict(s.parts); t.whole = set(s.whole); t.approx = s.approx; t.divs = dict(s.divs); t.dq = dict(s.dq)
        return t
    def extend(s, facts):
        """more facts: they may tighten the ranges used from now on; what was translated with wider ranges stays valid"""
        if s.bad is None:
            s.bounds(facts)
            try: s.out += [s.b(f) for f in facts]
            except NotLinear as e: s.bad = str(e)
        s.facts = s.facts + tuple(facts)
    # ---- integer bounds that hold at the top level
    def bounds(s, facts):
        st = list(facts)
        while st:
            f = st.pop(0)
            if z3.is_and(f): st.extend(f.children()); continue
            neg = False
            while z3.is_not(f): f = f.arg(0); neg = not neg
            if neg and z3.is_or(f): st.extend(z3.Not(c) for c in f.children()); continue
            if not neg and z3.is_and(f): st.extend(f.children()); continue
            if not z3.is_app(f) or f.num_args() != 2: continue
            k = f.decl().kind()
            if k == z3.Z3_OP_EQ and not neg and z3.is_bv(f.arg(0)):
                a, b = f.arg(0), f.arg(1)
                for x, y in ((a, b), (b, a)):
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and z3.is_bv_value(y) and y.as_long() == 0:
                        hi, lo = x.params()
                        L = linform(x.arg(0))
                        if hi == L.w - 1: s.ord.append((L, BV(L.w, (1 << lo) - 1), 0))
                L, R = linform(a), linform(b)
                if len(L.t) + len(R.t) < 6: s.ord.append((L, R, 0)); s.ord.append((R, L, 0))
            elif k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                a, b = linform(f.arg(0)), linform(f.arg(1))
                strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
                if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT): a, b = b, a
                if neg: a, b = b, a; strict = not strict
                if len(a.t) + len(b.t) < 8: s.ord.append((a, b, 1 if strict else 0))
        for rnd in range(4):
            ch = False; rest = []
            for o in s.ord:
                A, B, d = o
                la, ha = s.lohi(A); lb, hb = s.lohi(B); M = 1 << A.w
                if lb < 0 or hb >= M: lb, hb = 0, M - 1; Bw = True
                else: Bw = False
                if la < 0 or ha >= M: rest.append(o); continue
                # 0 <= A + d <= B as integers (or at least A + d <= hb)
                for a, k in A.t.items():
                    k = sgn(k, A.w)
                    if k > 0 and all(sgn(x, A.w) >= 0 for x in A.t.values()):
                        u = (hb - d - A.sc()) // k
                        if 0 <= u < s.range(a): s.fiv[a] = u; s.iv = {}; ch = True
                if Bw: rest.append(o); continue
                N = {}; c = -d
                for L, sg in ((B, 1), (A, -1)):
                    c += sg * L.sc() if sgn(L.c, L.w) < 0 and L.t else sg * L.c
                    for a, k in L.t.items():
                        N[a] = N.get(a, 0) + sg * sgn(k, L.w)
                N = {a: k for a, k in N.items() if k}
                if N and s.addN(N, c): ch = True
            s.ord = rest
            if not ch: break
    def addN(s, N, c):
        key = (tuple(sorted(N.items())), c)
        if key in s.nnk or len(s.nn) > 60: return False
        s.nnk.add(key); s.nn.append((N, c)); return True
    def range(s, a):
        """largest value of an atom (the least is 0)"""
        r = s.iv.get(a)
        if r is not None: return r
        e = _ATOM[a]; w = e.size(); k = e.decl().kind(); hi = (1 << w) - 1
        s.iv[a] = min(hi, s.fiv.get(a, hi))
        def top(x):
            L = linform(x); lo, h = s.lohi(L)
            return h if lo >= 0 and h < (1 << L.w) else (1 << L.w) - 1
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            d = e.arg(1).as_long(); hi = top(e.arg(0)) // d
            X = linform(e.arg(0)); lo, h = s.lohi(X)
            if lo >= 0 and h < (1 << w) and len(X.t) < 4:
                N = {x: sgn(q, w) for x, q in X.t.items()}; c = X.sc() if X.t else X.c
                N1 = dict(N); N1[a] = N1.get(a, 0) - d; s.addN(N1, c)
                N2 = {x: -q for x, q in N.items()}; N2[a] = N2.get(a, 0) + d; s.addN(N2, d - 1 - c)
        elif k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            hi = min(top(e.arg(0)), e.arg(1).as_long() - 1)
        elif k == z3.Z3_OP_BLSHR and z3.is_bv_value(e.arg(1)): hi = top(e.arg(0)) >> e.arg(1).as_long()
        elif k == z3.Z3_OP_ITE: hi = max(top(e.arg(1)), top(e.arg(2)))
        elif k == z3.Z3_OP_ZERO_EXT: hi = top(e.arg(0))
        elif k == z3.Z3_OP_CONCAT:
            hi = 0
            for c in e.children(): hi = (hi << c.size()) + top(c)
        elif k == z3.Z3_OP_EXTRACT:
            h, lo = e.params(); t = top(e.arg(0)) >> lo
            hi = min(hi, t)
        hi = min(hi, s.fiv.get(a, hi))
        s.iv[a] = hi
        return hi
    def lohi(s, L):
        """range of the integer sum with signed coefficients"""
        if not L.t: return L.c, L.c
        w = L.w
        base = {a: sgn(k, w) for a, k in L.t.items()}
        def ivl(t, c):
            lo = hi = c
            for a, k in t.items():
                if k > 0: hi += k * s.range(a)
                else: lo += k * s.range(a)
            return lo, hi
        lo, hi = ivl(base, L.sc())
        if lo >= 0 and hi < (1 << w): return lo, hi
        for N, c in list(s.nn):
            if not any(a in base for a in N): continue
            t = dict(base)
            for a, k in N.items(): t[a] = t.get(a, 0) - k
            lo = max(lo, ivl(t, L.sc() - c)[0])
            t = dict(base)
            for a, k in N.items(): t[a] = t.get(a, 0) + k
            hi = min(hi, ivl(t, L.sc() + c)[1])
        return lo, hi
    def atom(s, L):
        if L.c == 0 and len(L.t) == 1:
            (a, k), = L.t.items()
            if k == 1: return a
        return None
    # ---- terms
    def var(s, name, lo, hi):
        v = z3.Int(name); s.side.append(z3.And(v >= lo, v <= hi))
        return v
    def atomv(s, a):
        """integer value of an atom and its range"""
        if a in s.vars: return s.vars[a]
        e = _ATOM[a]; w = e.size(); k = e.decl().kind(); n = e.num_args()
        hi = s.range(a)
        if k == z3.Z3_OP_UNINTERPRETED:
            if e.decl().name() == 'ring': v = s.var('rg!%d' % a, 0, hi); s.approx = True       # its facts are given as lemma instances
            elif n == 0: v = s.var('i!' + e.decl().name() + '!%d' % w, 0, hi)
            else:
                args = []
                for c in e.children():
                    if z3.is_bv(c): args.append(s.uval(linform(c)))
                    else: raise NotLinear('uf arg')
                s.whole.add(e.decl().name())
                if e.decl().name() in s.parts: s.approx = True
                f = z3.Function('i!' + e.decl().name(), *([z3.IntSort()] * n), z3.IntSort())
                v = f(*args); s.side.append(z3.And(v >= 0, v <= hi))
        elif k == z3.Z3_OP_ITE:
            x, y = s.uval(linform(e.arg(1))), s.uval(linform(e.arg(2)))
            v = z3.If(s.b(e.arg(0)), x, y)
        elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            v, r, hi = s.divide(linform(e.arg(0)), e.arg(1).as_long(), hi)
        elif k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            d = e.arg(1).as_long()
            _, v, _ = s.divide(linform(e.arg(0)), d, 1 << 70); hi = min(hi, d - 1)
        elif k == z3.Z3_OP_BLSHR and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < w:
            v, r, hi = s.divide(linform(e.arg(0)), 1 << e.arg(1).as_long(), hi)
        elif k == z3.Z3_OP_BASHR and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < w:
            # floor division of the signed value (z3's integer division by a positive constant is floor)
            x = s.signed(linform(e.arg(0))); d = 1 << e.arg(1).as_long(); n = next(_n)
            q = s.var('a!%d' % n, -(1 << (w - 1)) // d, ((1 << (w - 1)) - 1) // d); r = s.var('ar!%d' % n, 0, d - 1)
            s.side.append(x == d * q + r)
            v = z3.If(q < 0, q + (1 << w), q)
        elif k == z3.Z3_OP_EXTRACT:
            h, lo = e.params()
            if lo == 0 and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_ITE:
                c = e.arg(0); v = z3.If(s.b(c.arg(0)), s.uval(linform(z3.simplify(z3.Extract(h, 0, c.arg(1))))), s.uval(linform(z3.simplify(z3.Extract(h, 0, c.arg(2))))))
                s.vars[a] = (v, hi); return s.vars[a]
            u = e.arg(0)
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() and all(z3.is_bv(c) for c in u.children()):
                # bits of an uninterpreted function: a function of its own (fewer facts about the other bits: only a proof counts)
                nm = u.decl().name()
                if h == lo and h:
                    # the top bit of the low part
                    L = linform(z3.Extract(h, 0, u)); y = s.uval(L)
                    s.vars[a] = (z3.If(y >= (1 << h), z3.IntVal(1), z3.IntVal(0)), 1); return s.vars[a]
                if s.parts.setdefault(nm, (h, lo)) != (h, lo) or nm in s.whole: s.approx = True
                f = z3.Function('i!%s!%d!%d' % (nm, h, lo), *([z3.IntSort()] * (u.num_args() + 1)))
                v = f(*[s.uval(linform(c)) for c in u.children()]); s.side.append(z3.And(v >= 0, v <= hi))
                s.vars[a] = (v, hi); return s.vars[a]
            x = s.uval(linform(e.arg(0))); xw = e.arg(0).size()
            v = s.var('x!%d' % a, 0, hi); t = v * (1 << lo)
            if lo: t = t + s.var('xl!%d' % a, 0, (1 << lo) - 1)
            if h < xw - 1: t = t + (1 << (h + 1)) * s.var('xh!%d' % a, 0, (1 << (xw - 1 - h)) - 1)
            s.side.append(x == t)
        elif k == z3.Z3_OP_CONCAT:
            v = None; ux = unsext(e)
            if ux is not None:
                v = s.signed(linform(ux)); v = z3.If(v < 0, v + (1 << w), v)
            for c in e.children() if ux is None else ():
                x = s.uval(linform(c)); v = x if v is None else v * (1 << c.size()) + x
        elif k == z3.Z3_OP_ZERO_EXT: v = s.uval(linform(e.arg(0)))
        elif k == z3.Z3_OP_SIGN_EXT:
            v = s.signed(linform(e.arg(0)))
            v = z3.If(v < 0, v + (1 << w), v)
        else: raise NotLinear(e.decl().name())
        s.vars[a] = (v, hi)
        return s.vars[a]
    def ubound(s, L):
        lo, hi = s.lohi(L); M = 1 << L.w
        return hi if lo >= 0 and hi < M else M - 1
    def divide(s, L, d, hi):
        """L == d * q + r"""
        key = (L.key(), d)
        if key not in s.divs:
            x = s.uval(L); n = next(_n)
            h = min(hi, s.ubound(L) // d)
            q = s.var('q!%d' % n, 0, h); r = s.var('r!%d' % n, 0, d - 1)
            s.side.append(x == d * q + r)
            s.divs[key] = (q, r, h)
        q, r, h = s.divs[key]
        return q, r, min(h, hi)
    def rems(s, L):
        """x - d * (x / d) is the remainder"""
        out = []
        t = None
        for a, k in L.t.items():
            e = _ATOM[a]
            if e.decl().kind() not in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) or not z3.is_bv_value(e.arg(1)): continue
            d = e.arg(1).as_long(); X = linform(e.arg(0))
            if not d or len(X.t) != 1 or X.c: continue
            (xa, xk), = X.t.items()
            if xk != 1: continue
            cur = t if t is not None else L.t
            kk = sgn(k, L.w)
            if xa in cur and kk == -d * sgn(cur[xa], L.w):
                s.atomv(a)
                out.append((sgn(cur[xa], L.w), s.divs[(X.key(), d)][1], d - 1))
                t = dict(cur); del t[xa]; del t[a]
        if t is not None: L = BV(L.w, L.c, t)
        return L, out
    def sum(s, L):
        """integer sum with signed coefficients, and its range"""
        w = L.w
        lo, hi = s.lohi(L)
        S = L.sc(); parts = []
        L, rem = s.rems(L)
        if rem:
            l2, h2 = s.lohi(L) if L.t else (L.sc(), L.sc())
            for k, v, ub in rem:
                parts.append(v if k == 1 else k * v)
                if k > 0: h2 += k * ub
                else: l2 += k * ub
            lo, hi = max(lo, l2), min(hi, h2)
        for a, k in L.t.items():
            k = sgn(k, w); v, _ = s.atomv(a)
            parts.append(v if k == 1 else k * v)
        e = parts[0] if parts else z3.IntVal(0)
        for p in parts[1:]: e = e + p
        if S: e = e + S
        return e, lo, hi
    def red(s, L, base):
        """value of L in [base, base + 2^w)"""
        key = (L.key(), base)
        if key in s.memo: return s.memo[key]
        if not L.t: return z3.IntVal(L.c if base == 0 else L.sc())
        S, lo, hi = s.sum(L)
        M = 1 << L.w
        ql, qh = (lo - base) // M, (hi - base) // M
        if ql == qh: v = S if ql == 0 else S - ql * M
        else:
            q = s.var('w!%d' % next(_n), ql, qh)
            v = S - M * q
            s.side.append(z3.And(v >= base, v < base + M))
        s.memo[key] = v
        return v
    def uval(s, L): return s.red(L, 0)
    def signed(s, L): return s.red(L, -(1 << (L.w - 1)))
    # ---- formulas
    def b(s, f):
        k = ('b', f.get_id())
        r = s.memo.get(k)
        if r is None: r = (s._b(f), f); s.memo[k] = r
        return r[0]
    def _b(s, f):
        if z3.is_true(f) or z3.is_false(f): return f
        if z3.is_quantifier(f): raise NotLinear('quantifier')
        if z3.is_and(f): return z3.And(*[s.b(c) for c in f.children()])
        if z3.is_or(f): return z3.Or(*[s.b(c) for c in f.children()])
        if z3.is_not(f): return z3.Not(s.b(f.arg(0)))
        k = f.decl().kind()
        if k in CMP:
            kind, strict = CMP[k]
            a, b = linform(f.arg(0)), linform(f.arg(1))
            if kind in 'US': a, b = b, a
            g = s.uval if kind in 'uU' else s.signed
            x, y = g(a), g(b)
            return x < y if strict else x <= y
        if k == z3.Z3_OP_EQ:
            a, b = f.arg(0), f.arg(1)
            if z3.is_bool(a): return s.b(a) == s.b(b)
            if z3.is_bv(a):
                ua, ub_ = unsext(a), unsext(b)
                if ua is not None and ub_ is not None and ua.size() == ub_.size(): return s.b(ua == ub_)
                for x, y in ((a, b), (b, a)):
                    ux = ua if x is a else ub_
                    if z3.is_bv_value(y) and ux is not None:
                        c = sgn(y.as_long(), y.size()); h = ux.size()
                        return s.b(ux == z3.BitVecVal(c, h)) if -(1 << (h - 1)) <= c < (1 << (h - 1)) else z3.BoolVal(False)
                    if z3.is_bv_value(y) and z3.is_app(x):
                        if x.decl().kind() == z3.Z3_OP_EXTRACT and y.as_long() == 0 and x.params()[0] == x.arg(0).size() - 1:
                            return s.uval(linform(x.arg(0))) < (1 << x.params()[1])
                        kk = x.decl().kind(); c = y.as_long()
                        if kk == z3.Z3_OP_CONCAT:
                            out = []; hi = x.size()
                            for ch in x.children():
                                hi -= ch.size()
                                out.append(s.b(ch == z3.BitVecVal((c >> hi) & ((1 << ch.size()) - 1), ch.size())))
                            return z3.And(*out)
                        if kk == z3.Z3_OP_ITE and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
                            p, q = x.arg(1).as_long() == c, x.arg(2).as_long() == c
                            return z3.BoolVal(p) if p == q else s.b(x.arg(0)) if p else z3.Not(s.b(x.arg(0)))
                D = linform(a) - linform(b)
                if not D.t: return z3.BoolVal(D.c == 0)
                S, lo, hi = s.sum(D); M = 1 << D.w
                ql, qh = -((-lo) // M), hi // M
                if ql > qh: return z3.BoolVal(False)
                if qh - ql < 6: return z3.Or(*[S == q * M for q in range(ql, qh + 1)])
                return s.uval(D) == 0
            raise NotLinear('eq')
        if k == z3.Z3_OP_DISTINCT and f.num_args() == 2: return z3.Not(s.b(f.arg(0) == f.arg(1)))
        if k == z3.Z3_OP_ITE: return z3.If(s.b(f.arg(0)), s.b(f.arg(1)), s.b(f.arg(2)))
        if k == z3.Z3_OP_XOR: return z3.Xor(s.b(f.arg(0)), s.b(f.arg(1)))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.b(f.arg(0)), s.b(f.arg(1)))
        if k == z3.Z3_OP_UNINTERPRETED:
            if f.num_args() == 0: return f
            if all(z3.is_bv(c) for c in f.children()):
                g = z3.Function('i!' + f.decl().name(), *([z3.IntSort()] * f.num_args()), z3.BoolSort())
                return g(*[s.uval(linform(c)) for c in f.children()])
        raise NotLinear(f.decl().name())

_C = {}          # ids of a fact list -> Tr (which keeps the facts alive, so the ids stay theirs)
def base(facts):
    key = tuple(f.get_id() for f in facts)
    r = _C.pop(key, None)
    if r is None:
        n = len(facts) - 1
        while n > 0 and key[:n] not in _C: n -= 1
        r = _C[key[:n]].copy() if n > 0 else Tr()
        r.extend(facts[n:])
        while len(_C) > 40: _C.pop(next(iter(_C)))
    _C[key] = r
    return r
def translate(facts, last):
    """facts and one more formula"""
    t = base(facts)
    if t.bad is None:
        t = t.copy(); t.extend(last)
    if t.bad is not None: raise NotLinear(t.bad)
    return t.out + t.side, t.approx
