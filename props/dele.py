"""C23: the owning delegate."""
from xvc.scen import Sc
H = '''#include <xme/core/functional/delegate.hpp>
#include <functional>
using D = xme::Delegate<u64(u64)>;
inline u64 fn1(u64 x) { xv_hit(1); return x + 1; }
inline u64 fn2(u64 x) { xv_hit(1); return x * 2; }
struct Small { u64 v; u64 operator()(u64 x) const { xv_hit(1); return x + v; } };
struct Two { u64 v, w; u64 operator()(u64 x) const { xv_hit(1); return x * 3 + v - w; } };
struct Large { u64 v, a, b, c, d; Large(u64 n) : v(n), a(n + 1), b(n + 2), c(n + 3), d(n + 4) {} u64 operator()(u64 x) const { xv_hit(1); return x + v + a + b + c + d; } };
struct SmallE { E e; SmallE(u64 v) : e(v) {} SmallE(const SmallE&) = default; SmallE(SmallE&&) = default; u64 operator()(u64 x) const { xv_hit(1); return x + e.v(); } };
struct LargeE { E e; u64 pad[4]; LargeE(u64 v) : e(v), pad{1, 2, 3, 4} {} LargeE(const LargeE&) = default; LargeE(LargeE&&) = default; u64 operator()(u64 x) const { xv_hit(1); return x + e.v() + pad[3]; } };
struct alignas(32) Over { u64 v; u64 operator()(u64 x) const { xv_hit(1); XV((u64(this) & 31) == 0); return x + v + 5; } };
struct SelfPtr { u64 v; const u64* p; SelfPtr(u64 n) : v(n), p(&v) {} SelfPtr(const SelfPtr& o) : v(o.v), p(&v) {} SelfPtr(SelfPtr&& o) : v(o.v), p(&v) {} ~SelfPtr() {} u64 operator()(u64 x) const { xv_hit(1); XV(p == &v); return x + *p; } };
struct Count { u64 n; u64 operator()(u64 x) { xv_hit(1); n += x; return n; } };
struct CountL { u64 n, q[4]; u64 operator()(u64 x) { xv_hit(1); n += x; return n; } };
struct ThrowC { ET e; ThrowC(u64 v) : e(v) {} ThrowC(const ThrowC&) = default; ThrowC(ThrowC&&) = default; u64 operator()(u64 x) const { return x + e.v(); } };
struct Obj { u64 b; u64 f(u64 x) { b = b + 1; return b + x; } u64 g(u64 x) const { return b * x; } u64 m; };
struct Ov { u64 v; u64 operator()(u64 x) & { return x + v + 1; } u64 operator()(u64 x) const& { return x + v + 2; } u64 operator()(u64 x) && { return x + v + 3; } };
static constexpr u32 KINDS = 8;
static D mk(u32 k, u64 v) { switch(k) { case 1: return D(&fn1); case 2: return D(Small{v}); case 3: return D(Large(v)); case 4: return D(SmallE(v)); case 5: return D(LargeE(v)); case 6: return D(Two{v, 9}); case 7: return D(SelfPtr(v)); default: return D(); } }
static u64 want(u32 k, u64 v, u64 x) { switch(k) { case 1: return x + 1; case 2: return x + v; case 3: return x + 5 * v + 10; case 4: return x + v; case 5: return x + v + 4; case 6: return x * 3 + v - 9; case 7: return x + v; default: return 0; } }
static void holds(const D& d, u32 k, u64 v, u64 x) { XV(bool(d) == (k != 0)); const u64 h = xv_hits(1); if(k) { u64 r = d(x); XV(r == want(k, v, x)); XV(xv_hits(1) == h + 1); } else { bool c = false; try { d(x); } catch(const std::bad_function_call&) { c = true; } XV(c); XV(xv_hits(1) == h); } }
'''
def scenarios():
    S = []
    def sc(n, w, b, p=(), **k): S.append(Sc(n, w, list(p), b, **k))
    U = lambda *n: [('u64', x) for x in n]
    for k in range(8):
        nm = ['empty', 'function pointer', 'small functor', 'large functor', 'small element', 'large element', 'two-word functor', 'self-referencing functor'][k]
        sc('d_one_%d' % k, 'delegate holding %s: call, copy, move, reset, destruction' % nm, '{ D d = mk(%d, v); holds(d, %d, v, x); holds(d, %d, v, y); D c(d); holds(c, %d, v, x); holds(d, %d, v, x); D m(std::move(c)); holds(m, %d, v, x); holds(c, 0, 0, x); c = nullptr; holds(c, 0, 0, x); m = nullptr; holds(m, 0, 0, x); m = nullptr; holds(d, %d, v, y); m = d; holds(m, %d, v, x); d = nullptr; holds(m, %d, v, y); }' % ((k,) * 9), U('v', 'x', 'y'))
        sc('d_self_%d' % k, 'self copy, self move and self swap of a delegate holding %s' % nm, '{ D d = mk(%d, v); d = *&d; holds(d, %d, v, x); D& r = d; d = std::move(r); holds(d, %d, v, x); d.swap(r); holds(d, %d, v, x); }' % ((k,) * 4), U('v', 'x'))
        for j in range(8):
            sc('d_asg_%d_%d' % (k, j), 'assignment and swap between delegates of kinds %d and %d' % (k, j), '{ D a = mk(%d, v), b = mk(%d, w); { D c(a), d(b); c = d; holds(c, %d, w, x); holds(d, %d, w, x); c = a; holds(c, %d, v, x); } { D c(a), d(b); c = std::move(d); holds(c, %d, w, x); d = c; holds(d, %d, w, x); } a.swap(b); holds(a, %d, w, x); holds(b, %d, v, x); std::swap(a, b); holds(a, %d, v, x); holds(b, %d, w, x); }' % (k, j, j, j, k, j, j, j, k, k, j), U('v', 'w', 'x'))
        for f, nm2 in enumerate(('Small{w}', 'Large(w)', 'SmallE(w)', 'LargeE(w)', '&fn2')):
            exp = ('want(2, w, x)', 'want(3, w, x)', 'want(4, w, x)', 'want(5, w, x)', 'x * 2')[f]
            sc('d_fas_%d_%d' % (k, f), 'assigning a callable to a delegate holding %s (%d)' % (nm, f), '{ D a = mk(%d, v); D keep(a); a = %s; XV(bool(a)); XV(a(x) == %s); holds(keep, %d, v, x); }' % (k, nm2, exp, k), U('v', 'w', 'x'))
    # construction from lvalues copies
    sc('d_lv', 'construction from lvalues copies the callable', '{ Small s{v}; SmallE e(v); LargeE l(v); D a(s), b(e), c(l), f(fn1); s.v = w; e.e = E(w); l.e = E(w); holds(a, 2, v, x); holds(b, 4, v, x); holds(c, 5, v, x); holds(f, 1, v, x); const LargeE q(v); D g(q); holds(g, 5, v, x); XV(q.e.v() == v); D h; h = e; XV(h(x) == x + w); XV(e.e.v() == w); h = l; XV(h(x) == x + w + 4); }', U('v', 'w', 'x'))
    sc('d_over', 'over-aligned functors keep their alignment', '{ D a(Over{v}); XV(a(x) == x + v + 5); D b(a); XV(b(x) == x + v + 5); D c(std::move(a)); XV(c(x) == x + v + 5); XV(!a); }', U('v', 'x'))
    sc('d_null', 'null function and member pointers give an empty delegate', 'u64 (*f)(u64) = nullptr; D a(f); holds(a, 0, 0, x); D d(Small{v}); d = f; holds(d, 0, 0, x); u64 (Obj::*m)(u64) = nullptr; xme::Delegate<u64(Obj&, u64)> b(m); XV(!b); u64 Obj::*o = nullptr; xme::Delegate<u64(Obj&)> c(o); XV(!c); Obj q{v, x}; bool t = false; try { b(q, x); } catch(const std::bad_function_call&) { t = true; } XV(t);', U('v', 'x'))
    sc('d_mem', 'member functions and member objects', 'Obj o{v, w}; xme::Delegate<u64(Obj&, u64)> f(&Obj::f); XV(f(o, x) == v + 1 + x); XV(o.b == v + 1); xme::Delegate<u64(const Obj&, u64)> g(&Obj::g); XV(g(o, x) == (v + 1) * x); xme::Delegate<u64(Obj*, u64)> p(&Obj::f); XV(p(&o, x) == v + 2 + x); xme::Delegate<u64&(Obj&)> m(&Obj::m); XV(&m(o) == &o.m); XV(m(o) == w); auto c = f; XV(c(o, x) == v + 3 + x); auto d = std::move(c); XV(!c); XV(d(o, x) == v + 4 + x); d = &Obj::g; XV(d(o, x) == (v + 4) * x);', U('v', 'w', 'x'))
    sc('d_state', 'the functor keeps its state between calls and copies have their own', '{ D a(Count{v}); XV(a(x) == v + x); XV(a(x) == v + x + x); D b(a); XV(b(y) == v + x + x + y); XV(a(x) == v + x + x + x); D c(std::move(a)); XV(c(y) == v + x + x + x + y); D l(CountL{v, {1, 2, 3, 4}}); XV(l(x) == v + x); D m(l); XV(m(y) == v + x + y); XV(l(x) == v + x + x); XV(m(x) == v + x + y + x); m = l; XV(m(y) == v + x + x + y); XV(l(0) == v + x + x); l.swap(b); XV(l(0) == v + x + x + y); XV(b(0) == v + x + x); }', U('v', 'x', 'y'))
    sc('d_lam', 'lambdas with captures by reference and by value', 'u64 n = v; D a([&n](u64 x2) { n += x2; return n; }); XV(a(x) == v + x); XV(n == v + x); D b([n, w](u64 q) mutable { n += q + w; return n; }); XV(b(x) == v + x + x + w); XV(n == v + x); XV(b(x) == v + x + x + w + x + w); xme::Delegate d([w](u64 q) { return q ^ w; }); XV((std::is_same_v<decltype(d), xme::Delegate<u64(u64)>>)); XV(d(x) == (x ^ w)); xme::Delegate e(&fn1); XV((std::is_same_v<decltype(e), xme::Delegate<u64(u64)>>)); XV(e(x) == x + 1); xme::Delegate g(fn2); XV(g(x) == x * 2);', U('v', 'w', 'x'))
    sc('d_args', 'arguments keep value, order and reference kind', '''{ u64 n = v; xme::Delegate<void(u64&, u64)> f([](u64& r, u64 k) { r += k; }); f(n, x); XV(n == v + x); xme::Delegate<u64(u64, u64, u64, u64)> o([](u64 a, u64 b, u64 c, u64 d) { return a + 2 * b + 4 * c + 8 * d; }); XV(o(v, w, x, n) == v + 2 * w + 4 * x + 8 * n); xme::Delegate<u64(E&&)> r([](E&& e) { E t(std::move(e)); return t.v(); }); XV(r(E(v)) == v); xme::Delegate<u64(const E&, E)> c([](const E& a, E b) { return a.v() * 3 + b.v(); }); E q(w), q2(x); XV(c(q, q2) == w * 3 + x); XV(q2.v() == x); xme::Delegate<u64(Elem<4>)> mo([](Elem<4> e) { return e.v(); }); XV(mo(Elem<4>(v)) == v); xme::Delegate<u64&(u64&)> rr([](u64& z) -> u64& { return z; }); XV(&rr(n) == &n); xme::Delegate<E(u64)> re([](u64 z) { return E(z); }); XV(re(v).v() == v); xme::Delegate<void(u64)> dv([](u64 z) { xv_hit(5); return z; }); dv(v); XV(xv_hits(5) == 1); }''', U('v', 'w', 'x'))
    sc('d_ov', 'the functor is called as a modifiable lvalue', 'D a(Ov{v}); XV(a(x) == x + v + 1); const D b(Ov{v}); XV(b(x) == x + v + 1); XV(std::move(a)(x) == x + v + 1);', U('v', 'x'))
    for t, mkx, val in (('Small', 'Small{v}', 'p->v'), ('Large', 'Large(v)', 'p->v'), ('SmallE', 'SmallE(v)', 'p->e.v()'), ('LargeE', 'LargeE(v)', 'p->e.v()'), ('SelfPtr', 'SelfPtr(v)', 'p->v'), ('Two', 'Two{v, 1}', 'p->v')):
        sc('d_handle_' + t, 'handle() of a delegate holding %s' % t, '{ D d{%s}; const %s* p = d.handle<%s>(); XV(p != nullptr); XV(%s == v); XV(d.handle<%s>() == nullptr); D c(d); const %s* q = c.handle<%s>(); XV(q != nullptr && q != p); { auto* p = q; XV(%s == v); } d = nullptr; XV(d.handle<%s>() == nullptr); { auto* p = c.handle<%s>(); XV(p == q); XV(%s == v); } }' % (mkx, t, t, val, 'Over' if t != 'Over' else 'Small', t, t, val, t, t, val), U('v'))
    Z = 'XV((std::is_same_v<decltype(d), xme::Delegate<%s>>)); '
    for n, w, mk, sig, call in (('fp', 'a function pointer', '&fn1', 'u64(u64)', None),
        ('fr', 'a function', 'fn1', 'u64(u64)', None),
        ('lam', 'a lambda', '[v](u64 q) { return q + v; }', 'u64(u64)', 'v'), ('mut', 'a lambda that changes its captures', '[v](u64 q) mutable { v += q; return v; }', 'u64(u64)', 'v'),
        ('nex', 'a lambda that cannot throw', '[v](u64 q) noexcept { return q + v; }', 'u64(u64)', 'v'),
        ('lref', 'an object called as a modifiable lvalue', 'L1{v}', 'u64(u64)', 'v'), ('cref', 'an object called as a constant lvalue', 'L2{v}', 'u64(u64)', 'v'),
        ('lrefn', 'an object called as a modifiable lvalue that cannot throw', 'L3{v}', 'u64(u64)', 'v'), ('crefn', 'an object called as a constant lvalue that cannot throw', 'L4{v}', 'u64(u64)', 'v')):
        sc('d_ctad_' + n, 'a delegate whose signature is deduced from ' + w, '{ struct L1 { u64 v; u64 operator()(u64 q) & { return q + v; } }; struct L2 { u64 v; u64 operator()(u64 q) const& { return q + v; } }; struct L3 { u64 v; u64 operator()(u64 q) & noexcept { return q + v; } }; struct L4 { u64 v; u64 operator()(u64 q) const& noexcept { return q + v; } }; '
           + 'xme::Delegate d(%s); ' % mk + Z % sig + 'XV(bool(d)); xme::Delegate e(d); XV((std::is_same_v<decltype(e), decltype(d)>)); XV(d(x) == %s); XV(e(x) == %s); }' % (('fn1(x)',) * 2 if call is None else ('x + v',) * 2), U('v', 'x'))
    sc('d_ctad_sig', 'deduced signatures keep the argument and result types', '{ u64 n = v; xme::Delegate d([&n](u64& r, const u64& c, u64&& m) -> u64& { r += c; n += m; return n; }); XV((std::is_same_v<decltype(d), xme::Delegate<u64&(u64&, const u64&, u64&&)>>)); u64 a = x; auto&& r = d(a, w, 5ul); XV(&r == &n); XV(a == x + w); XV(n == v + 5); xme::Delegate q([&n] { n = 1; }); XV((std::is_same_v<decltype(q), xme::Delegate<void()>>)); q(); XV(n == 1); }', U('v', 'w', 'x'))
    sc('d_handlefn', 'handle() of a function pointer', 'D d(&fn1); auto* p = d.handle<u64 (*)(u64)>(); XV(p != nullptr && *p == &fn1); XV(d.handle<Small>() == nullptr);')
    sc('d_throwcall', 'an exception of the callable reaches the caller and the delegate stays usable', '{ D d([v](u64 x) -> u64 { if(x == 0) throw Boom{}; return x + v; }); bool c = false; u64 r = 0; try { r = d(x); } catch(Boom&) { c = true; } XV(c == (x == 0)); XV(c || r == x + v); XV(d(7) == 7 + v); }', U('v', 'x'))
    sc('d_throwcopy', 'a functor whose copy fails: nothing leaks, targets keep their value', '''{ D t(Small{v}); try { ThrowC f(w); D a(f); D b(a); XV(b(x) == x + w); t = a; XV(t(x) == x + w); } catch(Boom&) { } const bool kept = t(x) == x + v; XV(kept || t(x) == x + w); }''', U('v', 'w', 'x'), throwing=True)
    sc('d_throwasg', 'assigning a functor whose copy fails leaves the old target', '''{ D t{LargeE(v)}; try { ThrowC f(w); try { t = f; XV(t(x) == x + w); } catch(Boom&) { XV(t(x) == x + v + 4); } } catch(Boom&) { XV(t(x) == x + v + 4); } }''', U('v', 'w', 'x'), throwing=True)
    sc('d_nested', 'a delegate inside a delegate', '{ D a{SmallE(v)}; D b([a](u64 x) { return a(x) + 1; }); a = nullptr; XV(b(x) == x + v + 1); D c(b); b = nullptr; XV(c(x) == x + v + 1); }', U('v', 'x'))
    for k in range(8):
        j = (3 * k + 1) % 8
        sc('d_hist_%d' % k, 'sequences of assignments, swaps and moves end in the last value (%d, %d)' % (k, j), ('{ const u32 k = %d, j = %d; ' % (k, j)) + 'D d = mk(k, v); d = mk(j, w); holds(d, j, w, x); D e; e = d; d = mk(k, v); holds(e, j, w, x); e.swap(d); holds(e, k, v, x); holds(d, j, w, x); e = std::move(d); holds(e, j, w, x); d = e; holds(d, j, w, x); d = mk(j, v); holds(e, j, w, x); holds(d, j, v, x); }', U('v', 'w', 'x'))
    return S
