"""Exact rational functions over real-valued atoms: the mathematical reading of floating-point code.
A float/double is treated as a real number (stated as an assumption in every evidence file that uses it);
sqrt/sin/cos/... are uninterpreted real functions with sqrt(x)^2 = x and sin^2 + cos^2 = 1."""
from fractions import Fraction
import math
import z3

ONE = {(): Fraction(1)}

_FNS = {}         # fn name -> [(args, atom)]
_ATOMFN = {}      # atom -> (fn, args)
_Z3ATOM = {}
TRUNC_IDENTITY = [True]

def reset():
    _FNS.clear(); _ATOMFN.clear()

def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n: r[m] = n
        else: r.pop(m, None)
    return r

def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b: d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))

def pmul(a, b):
    r = {}
    red = False
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n: r[m] = n
            else: r.pop(m, None)
    if len(r) > 20000: raise OverflowError('polynomial too large')
    return preduce(r)

def preduce(p):
    """sqrt(x)^2 -> x (x polynomial), sin(x)^2 -> 1 - cos(x)^2"""
    for m in p:
        for at, e in m:
            if e >= 2 and at in _ATOMFN:
                fn, args = _ATOMFN[at]
                if fn == 'sqrt' and args[0].den == ONE:
                    rep = args[0].num
                elif fn == 'sin':
                    c = Rat.fn('cos', args[0])
                    rep = (Rat.const(1) - c * c).num
                else: continue
                out = {}
                for m2, c2 in p.items():
                    d = dict(m2)
                    k = d.get(at, 0)
                    if k >= 2:
                        d[at] = k - 2
                        if d[at] == 0: del d[at]
                        out = padd(out, pmul({tuple(sorted(d.items())): c2}, rep))
                    else: out = padd(out, {m2: c2})
                return preduce(out)
    return p

class Rat:
    __slots__ = ('num', 'den')
    def __init__(s, num, den=None):
        den = den or ONE
        if den is not ONE and len(den) == 1 and () in den:
            k = den[()]
            num = {m: c / k for m, c in num.items()}; den = ONE
        elif den is not ONE and den != ONE:
            # common monomial factor and constant normalisation
            if not num: den = ONE
            else:
                lead = den[max(den)]
                if lead != 1:
                    num = {m: c / lead for m, c in num.items()}; den = {m: c / lead for m, c in den.items()}
                if num == den: num, den = ONE, ONE
                else:
                    com = None
                    for m in list(num) + list(den):
                        d = dict(m)
                        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
                        if not com: break
                    if com:
                        def dv(p):
                            o = {}
                            for m, c in p.items():
                                d = dict(m)
                                for a, e in com.items():
                                    d[a] -= e
                                    if not d[a]: del d[a]
                                o[tuple(sorted(d.items()))] = c
                            return o
                        num, den = dv(num), dv(den)
                        if den == ONE: den = ONE
        if den == ONE: den = ONE
        s.num = num; s.den = den
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Rat({(): c} if c else {})
    @staticmethod
    def sym(name): return Rat({((name, 1),): Fraction(1)})
    @staticmethod
    def fn(name, *args):
        args = [a if isinstance(a, Rat) else Rat.const(a) for a in args]
        if all(a.is_const() for a in args) and args[0].const_value() == 0:
            if name in ('sqrt', 'sin', 'tan', 'asin', 'atan'): return Rat.const(0)
            if name == 'cos': return Rat.const(1)
        if name == 'sqrt' and args[0].is_const() and args[0].const_value() == 1: return Rat.const(1)
        if name == 'tan': return Rat.fn('sin', *args) / Rat.fn('cos', *args)
        # odd/even symmetries
        l = _FNS.setdefault(name, [])
        for a, at in l:
            if all(x.same(y) for x, y in zip(a, args)): return Rat.sym(at)
        if name in ('sin', 'tan', 'atan', 'asin', 'cos'):
            for a, at in l:
                if a[0].same(-args[0]):
                    return Rat.sym(at) if name == 'cos' else -Rat.sym(at)
        at = '%s@%d' % (name, len(l))
        l.append((args, at)); _ATOMFN[at] = (name, args)
        return Rat.sym(at)
    def is_const(s): return s.den == ONE and all(m == () for m in s.num)
    def const_value(s): return s.num.get((), Fraction(0))
    def co(x): return x if isinstance(x, Rat) else Rat.const(x)
    def __add__(s, o):
        o = Rat.co(o)
        if s.den == o.den: return Rat(padd(s.num, o.num), s.den)
        return Rat(padd(pmul(s.num, o.den), pmul(o.num, s.den)), pmul(s.den, o.den))
    __radd__ = __add__
    def __neg__(s): return Rat({m: -c for m, c in s.num.items()}, s.den)
    def __sub__(s, o): return s + (-Rat.co(o))
    def __rsub__(s, o): return Rat.co(o) - s
    def __mul__(s, o):
        o = Rat.co(o)
        a, b, c, d = s.num, s.den, o.num, o.den
        if a == d: a, d = ONE, ONE
        if c == b: c, b = ONE, ONE
        return Rat(pmul(a, c), b if d is ONE else (d if b is ONE else pmul(b, d)))
    __rmul__ = __mul__
    def __truediv__(s, o):
        o = Rat.co(o)
        if not o.num: return Rat.sym('div0')
        return s * Rat(o.den, o.num)
    def __rtruediv__(s, o): return Rat.co(o) / s
    def same(s, o): return pmul(s.num, o.den) == pmul(o.num, s.den)
    def close(s, o, tol):
        """equal up to relative rounding of the constants that occur in them"""
        a, b = pmul(s.num, o.den), pmul(o.num, s.den)
        if a == b: return True
        sc = max([abs(c) for c in list(a.values()) + list(b.values())] or [1])
        for m in set(a) | set(b):
            x, y = a.get(m, Fraction(0)), b.get(m, Fraction(0))
            if x == y: continue
            if abs(x - y) > Fraction(tol) * max(abs(x), abs(y)) : return False
        return True
    def fptrunc(s):
        if TRUNC_IDENTITY[0] or s.is_const(): return s
        return Rat.fn('f32', s)
    def atoms(s):
        return {a for p in (s.num, s.den) for m in p for a, _ in m}
    def name(s):
        f = lambda p: '+'.join('%s*%s' % (c, '*'.join('%s^%d' % x for x in m)) for m, c in sorted(p.items())) or '0'
        return f(s.num) if s.den == ONE else '(%s)/(%s)' % (f(s.num), f(s.den))
    __repr__ = name
    def z3(s):
        def f(p):
            ts = []
            for m, c in sorted(p.items()):
                fs = [] if c == 1 and m else [z3.RealVal(str(c))]
                for a, e in m: fs += [z3atom(a)] * e
                t = fs[0]
                for x in fs[1:]: t = t * x
                ts.append(t)
            if not ts: return z3.RealVal(0)
            t = ts[0]
            for x in ts[1:]: t = t + x
            return t
        return f(s.num) if s.den == ONE else f(s.num) / f(s.den)
    def cmp(s, pred, o):
        s = Rat.co(s); o = Rat.co(o)
        if pred in ('ord', 'true'): return True
        if pred in ('uno', 'false'): return False
        p = pred[1:]
        d = s - o
        if d.is_const():
            v = d.const_value()
            return {'eq': v == 0, 'ne': v != 0, 'lt': v < 0, 'le': v <= 0, 'gt': v > 0, 'ge': v >= 0}[p]
        x, y = s.z3(), o.z3()
        if p == 'eq': return x == y
        if p == 'ne': return x != y
        return {'lt': x < y, 'le': x <= y, 'gt': y < x, 'ge': y <= x}[p]
    def eval(s, env):
        def at(a):
            if a in _ATOMFN:
                f, args = _ATOMFN[a]
                vs = [x.eval(env) for x in args]
                return {'sqrt': math.sqrt, 'f32': float}.get(f, getattr(math, f, None))(*vs)
            return env[a]
        def f(p):
            t = 0.0
            for m, c in p.items():
                x = float(c)
                for a, e in m: x *= at(a) ** e
                t += x
            return t
        return f(s.num) / f(s.den)

def z3atom(a):
    if a not in _Z3ATOM: _Z3ATOM[a] = z3.Real(a)
    return _Z3ATOM[a]

def req(a, b, tol=0):
    """goal: a == b"""
    a, b = Rat.co(a), Rat.co(b)
    if a.same(b): return True
    if tol and a.close(b, tol): return True
    return a.z3() == b.z3()

def i2f_name(sg, e):
    """one atom for the number an integer term denotes, however wide a register it was extended to"""
    while z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT: sg = 'u'; e = e.arg(0)
        elif k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0: sg = 'u'; e = e.arg(1)
        elif k == z3.Z3_OP_SIGN_EXT and sg == 's': e = e.arg(0)
        else: break
    return 'i2f_%s_%s' % (sg, e.sexpr())
