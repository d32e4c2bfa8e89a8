"""Small fixed-size components: bit utilities, aligned storage, scoped delegate, bind, pair and tuple."""
from xvc.scen import Sc
HB = '''#include <cstring>
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/utility/to_unsigned.hpp>
#include <xme/core/utility/forward_like.hpp>
#include <xme/core/type_traits/is_scoped_enum.hpp>
#include <xme/core/type_traits/is_initializer_list.hpp>
#include <type_traits>
template<class T> static bool power_of_two(T n) { bool r = false; for(unsigned k = 0; k < 8 * sizeof(T); ++k) r |= n == T(T(1) << k); return r; }
enum Small : signed char { sa = -3 }; enum class Scoped : unsigned short { a }; enum class Wide : long long { a }; enum Plain { pa, pb = 1000 };
template<class T, class U> static void same_bits(T a) { auto r = xme::to_unsigned(a); using R = decltype(r); XV((std::is_same_v<R, U>)); XV(r == static_cast<U>(a)); XV(static_cast<T>(r) == a);
  U x, y; std::memcpy(&x, &a, sizeof a); std::memcpy(&y, &r, sizeof r); XV(sizeof a == sizeof r); XV(x == y); }
'''
def bits():
    S = []
    for t, ct in (('u8', 'unsigned char'), ('u16', 'unsigned short'), ('u32', 'unsigned int'), ('u64', 'unsigned long')):
        S.append(Sc('single_' + t, 'has_single_bit(%s)' % ct, [(t, 'n')], 'XV(bool(xme::has_single_bit<%s>(n)) == power_of_two<%s>(n));' % (ct, ct)))
    S.append(Sc('single_ull', 'has_single_bit(unsigned long long)', [('u64', 'n')], 'XV(bool(xme::has_single_bit<unsigned long long>(n)) == power_of_two<unsigned long long>(n));'))
    for t, ct, ut in (('i8', 'signed char', 'unsigned char'), ('u8', 'char', 'unsigned char'), ('u8', 'unsigned char', 'unsigned char'), ('i16', 'short', 'unsigned short'), ('u16', 'unsigned short', 'unsigned short'),
                      ('i32', 'int', 'unsigned int'), ('u32', 'unsigned int', 'unsigned int'), ('i64', 'long', 'unsigned long'), ('u64', 'unsigned long', 'unsigned long'),
                      ('i64', 'long long', 'unsigned long long'), ('u64', 'unsigned long long', 'unsigned long long'), ('u16', 'char16_t', 'std::make_unsigned_t<char16_t>'), ('u32', 'char32_t', 'std::make_unsigned_t<char32_t>'),
                      ('i32', 'wchar_t', 'std::make_unsigned_t<wchar_t>'), ('u8', 'char8_t', 'std::make_unsigned_t<char8_t>'),
                      ('i8', 'Small', 'unsigned char'), ('u16', 'Scoped', 'unsigned short'), ('i64', 'Wide', 'std::make_unsigned_t<Wide>'), ('i32', 'Plain', 'std::make_unsigned_t<Plain>')):
        n = ct.replace(' ', '_')
        S.append(Sc('tou_' + n, 'to_unsigned(%s)' % ct, [(t, 'n')], 'same_bits<%s, %s>(static_cast<%s>(n));' % (ct, ut, ct)))
    S.append(Sc('tou_i128', 'to_unsigned(__int128)', [('u64', 'hi'), ('u64', 'lo')],
       'unsigned __int128 v = ((unsigned __int128)hi << 64) | lo; __int128 s = (__int128)v; auto r = xme::to_unsigned(s); XV(r == v); XV((std::is_same_v<decltype(r), unsigned __int128>)); auto q = xme::to_unsigned(v); XV(q == v); XV((std::is_same_v<decltype(q), unsigned __int128>));'))
    S.append(Sc('fwdlike', 'forward_like<L>(value)', [('u64', 'a')],
       '''u64 v = a; const u64 c = a; struct A {};
       XV((std::is_same_v<decltype(xme::forward_like<A&>(v)), u64&>)); XV((std::is_same_v<decltype(xme::forward_like<const A&>(v)), const u64&>));
       XV((std::is_same_v<decltype(xme::forward_like<A>(v)), u64&&>)); XV((std::is_same_v<decltype(xme::forward_like<A&&>(v)), u64&&>)); XV((std::is_same_v<decltype(xme::forward_like<const A>(v)), const u64&&>));
       XV((std::is_same_v<decltype(xme::forward_like<const A&&>(v)), const u64&&>)); XV((std::is_same_v<decltype(xme::forward_like<A>(c)), const u64&&>));
       auto&& r1 = xme::forward_like<A&>(v); XV(&r1 == &v); auto&& r2 = xme::forward_like<const A&>(v); XV(&r2 == &v); auto&& r3 = xme::forward_like<A>(v); XV(&r3 == &v); auto&& r4 = xme::forward_like<const A>(c); XV(&r4 == &c); XV(r4 == a);'''))
    S.append(Sc('traits', 'is_scoped_enum, is_initializer_list', [],
       'XV(xme::is_scoped_enum<Scoped>); XV(xme::is_scoped_enum<Wide>); XV(!xme::is_scoped_enum<Plain>); XV(!xme::is_scoped_enum<Small>); XV(!xme::is_scoped_enum<int>); struct Q {}; XV(!xme::is_scoped_enum<Q>); XV(xme::is_initializer_list<std::initializer_list<int>>); XV(!xme::is_initializer_list<int>); XV(!xme::is_initializer_list<int*>);'))
    return S

HA = '''#include <xme/container/aligned_data.hpp>
#include <memory>
struct Big { u64 a; u32 b; unsigned char c[5]; Big(u64 x, u32 y, unsigned char z) : a(x), b(y), c{z, 1, 2, 3, z} {} };
struct alignas(32) Wide { u64 q[3]; Wide(u64 x) : q{x, x + 1, x + 2} {} };
struct None { };
template<class T, std::size_t A> struct Guarded { u64 before; xme::AlignedData<T, A> d; u64 after; template<class... X> Guarded(u64 g, X&&... x) : before(g), d(std::forward<X>(x)...), after(~g) {} };
template<class AD, class T, std::size_t A> static void shape(AD& d) {
  XV(alignof(AD) % A == 0); XV(sizeof(AD) >= sizeof(T));
  const AD& c = d;
  XV((u64(d.address()) & (A - 1)) == 0); XV(d.address() == static_cast<void*>(&d)); XV(static_cast<void*>(d.data()) == d.address()); XV(c.address() == d.address()); XV(c.data() == d.data());
  XV((std::is_same_v<decltype(d.data()), T*>)); XV((std::is_same_v<decltype(c.data()), const T*>)); XV((std::is_same_v<decltype(d.address()), void*>)); XV((std::is_same_v<decltype(c.address()), const void*>)); }
#define GUARDS XV(g.before == q && g.after == ~q);
'''
def aligned():
    S = []
    for al in (8, 16, 32, 64):
        S.append(Sc('al_el_%d' % al, 'AlignedData<Elem, %d> from a value' % al, [('u64', 'v'), ('u64', 'q')],
          'Guarded<E, %d> g(q, v); shape<decltype(g.d), E, %d>(g.d); XV(el_live(g.d.data())); XV(g.d.data()->v() == v); GUARDS std::destroy_at(g.d.data()); GUARDS' % (al, al)))
        S.append(Sc('al_mv_%d' % al, 'AlignedData<Elem, %d> from a moved element' % al, [('u64', 'v'), ('u64', 'q')],
          '{ Elem<4> s(v); Guarded<Elem<4>, %d> g(q, std::move(s)); XV(g.d.data()->v() == v); GUARDS std::destroy_at(g.d.data()); }' % al))
        S.append(Sc('al_cp_%d' % al, 'AlignedData<Elem, %d> from a copied element' % al, [('u64', 'v'), ('u64', 'q')],
          '{ const E s(v); Guarded<E, %d> g(q, s); XV(g.d.data()->v() == v); XV(s.v() == v); *g.d.data() = E(q); XV(g.d.data()->v() == q); XV(s.v() == v); GUARDS std::destroy_at(g.d.data()); }' % al))
        S.append(Sc('al_lv_%d' % al, 'AlignedData<Elem, %d> from an lvalue element copies it' % al, [('u64', 'v'), ('u64', 'q')],
          '{ E s(v); Guarded<E, %d> g(q, s); XV(g.d.data()->v() == v); XV(s.v() == v); GUARDS std::destroy_at(g.d.data()); }' % al))
        S.append(Sc('al_big_%d' % al, 'AlignedData<struct, %d> from three arguments' % al, [('u64', 'a'), ('u32', 'b'), ('u8', 'c'), ('u64', 'q')],
          'Guarded<Big, %d> g(q, a, b, c); shape<decltype(g.d), Big, %d>(g.d); const Big& r = *g.d.data(); XV(r.a == a); XV(r.b == b); XV(r.c[0] == c && r.c[1] == 1 && r.c[2] == 2 && r.c[3] == 3 && r.c[4] == c); GUARDS' % (al, al)))
    for t, ct in (('u8', 'unsigned char'), ('u16', 'unsigned short'), ('u32', 'unsigned int'), ('u64', 'unsigned long')):
        for al in (0, 16, 64):
            A = 'alignof(%s)' % ct if not al else str(al)
            S.append(Sc('al_%s_%d' % (t, al), 'AlignedData<%s, %s>' % (ct, A), [(t, 'v'), (t, 'w'), ('u64', 'q')],
              'Guarded<%s, %s> g(q, v); shape<decltype(g.d), %s, %s>(g.d); XV(*g.d.data() == v); *g.d.data() = w; XV(*static_cast<const %s*>(const_cast<const decltype(g.d)&>(g.d).address()) == w); GUARDS auto c = g.d; XV(*static_cast<const decltype(g.d)&>(c).data() == w); XV(c.data() != g.d.data());' % (ct, A, ct, A, ct) if False else
              'Guarded<%s, %s> g(q, v); shape<decltype(g.d), %s, %s>(g.d); XV(*g.d.data() == v); *g.d.data() = w; XV(*static_cast<const %s*>(const_cast<const decltype(g.d)&>(g.d).address()) == w); GUARDS' % (ct, A, ct, A, ct)))
    S.append(Sc('al_wide', 'AlignedData of an over-aligned type', [('u64', 'v'), ('u64', 'q')],
      'Guarded<Wide, alignof(Wide)> g(q, v); shape<decltype(g.d), Wide, 32>(g.d); XV(g.d.data()->q[0] == v && g.d.data()->q[1] == v + 1 && g.d.data()->q[2] == v + 2); GUARDS xme::AlignedData<Wide> w(v); shape<decltype(w), Wide, 32>(w);'))
    S.append(Sc('al_default', 'AlignedData default construction stores nothing', [],
      'xme::AlignedData<E, 32> d; shape<decltype(d), E, 32>(d); XV(!el_live(d.data())); std::construct_at(d.data(), 5ul); XV(d.data()->v() == 5); std::destroy_at(d.data()); xme::AlignedData<u64, 16> u; XV(*u.data() == 0);'))
    S.append(Sc('al_arr', 'neighbouring aligned objects do not overlap', [('u64', 'v'), ('u64', 'w')],
      'xme::AlignedData<u64, 32> a[2] = {v, w}; XV(*a[0].data() == v); XV(*a[1].data() == w); *a[0].data() = w + 1; XV(*a[1].data() == w); XV((char*)a[1].address() - (char*)a[0].address() == 32);'))
    return S

HS = '''#include <concepts>
#include <xme/core/functional/scoped_delegate.hpp>
struct Act { u64* n; void operator()() { ++*n; xv_hit(1); } };
struct ActE { E e; ActE(u64 v) : e(v) {} ActE(const ActE&) = default; ActE(ActE&&) = default; void operator()() { XV(el_live(&e)); xv_hit(e.v() == 7 ? 1 : 2); } };
inline void fnact() { xv_hit(1); }
'''
def scoped():
    B = []
    def sc(n, w, b, p=(), **k): B.append(Sc(n, w, list(p), b, **k))
    sc('sd_rv', 'scoped delegate from a temporary functor, normal exit', 'u64 n = 0; { xme::ScopedDelegate<Act> d(Act{&n}); XV(n == 0); XV(xv_hits(1) == 0); } XV(n == 1); XV(xv_hits(1) == 1);')
    sc('sd_lv', 'scoped delegate from an lvalue functor, normal exit', 'u64 n = 0; Act a{&n}; { xme::ScopedDelegate<Act> d(a); XV(n == 0); } XV(n == 1); XV(xv_hits(1) == 1);')
    sc('sd_ctad', 'scoped delegate with deduced type', 'u64 n = 0; { xme::ScopedDelegate d([&n] { ++n; }); XV(n == 0); } XV(n == 1);')
    sc('sd_fn', 'scoped delegate of a function pointer', '{ void (*f)() = fnact; xme::ScopedDelegate<void (*)()> d(f); XV(xv_hits(1) == 0); } XV(xv_hits(1) == 1);')
    sc('sd_ref', 'scoped delegate keeps its own copy of the functor', 'u64 n = 0, m = 0; Act a{&n}; { xme::ScopedDelegate<Act> d(a); a.n = &m; } XV(n == 1); XV(m == 0);')
    sc('sd_throw', 'scoped delegate, exit by exception', 'u64 n = 0; bool caught = false; try { xme::ScopedDelegate<Act> d(Act{&n}); if(c) throw Boom{}; XV(n == 0); } catch(Boom&) { caught = true; XV(n == 1); } XV(n == 1); XV(xv_hits(1) == 1); XV(caught == c);', [('bool', 'c')])
    sc('sd_order', 'scoped delegates run in reverse order', 'u64 n = x; { xme::ScopedDelegate a([&n] { n = n * 2; }); xme::ScopedDelegate b([&n] { n = n + 3; }); XV(n == x); } XV(n == (x + 3) * 2);', [('u64', 'x')])
    sc('sd_early', 'scoped delegate, early return and loop exit', 'u64 n = 0; auto f = [&n](bool e) { xme::ScopedDelegate<Act> d(Act{&n}); if(e) return; XV(n == 0 || n == 1); }; f(c); XV(n == 1); f(!c); XV(n == 2); for(int i = 0; i < 3; ++i) { xme::ScopedDelegate<Act> d(Act{&n}); if(i == 1) break; } XV(n == 4);', [('bool', 'c')])
    sc('sd_el', 'the stored functor is alive when it runs and destroyed once', '{ xme::ScopedDelegate<ActE> d(ActE(7)); XV(xv_hits(1) == 0); } XV(xv_hits(1) == 1); XV(xv_hits(2) == 0);')
    sc('sd_ellv', 'the functor copied from an lvalue is alive when it runs', '{ ActE a(7); xme::ScopedDelegate<ActE> d(a); XV(a.e.v() == 7); } XV(xv_hits(1) == 1);')
    sc('sd_nested', 'an action that itself uses a scoped delegate', 'u64 n = 0; { xme::ScopedDelegate a([&n] { xme::ScopedDelegate b([&n] { n = n * 10 + 2; }); n = n * 10 + 1; }); } XV(n == 12);')
    sc('sd_mo', 'an action that can only be moved, and one that is moved out of a named object', 'u64 n = 0; { struct Mo { Elem<4> e; u64* n; void operator()() { *n += e.v(); } }; { xme::ScopedDelegate<Mo> d(Mo{Elem<4>(x), &n}); XV(n == 0); } XV(n == x); Mo m{Elem<4>(y), &n}; { xme::ScopedDelegate d(std::move(m)); XV(n == x); } XV(n == x + y); }', [('u64', 'x'), ('u64', 'y')])
    sc('sd_kind', 'the action is called once as an object that may change', 'u64 n = 0; struct K { u64* n; void operator()() & { *n += 1; } void operator()() const& { *n += 100; } void operator()() && { *n += 1; } }; { xme::ScopedDelegate<K> d(K{&n}); XV(n == 0); } XV(n == 1);')
    for nm, tr, op in (('cc', 'copy_constructible', 'D e(d);'), ('mc', 'move_constructible', 'D e(static_cast<D&&>(d));')):
        sc('sd_' + nm, 'an action runs once even if its guard is handed on (%s)' % tr, 'u64 n = 0; [&n]<class D>(D*) { D d(Act{&n}); if constexpr(std::is_%s_v<D>) { %s } XV(n == 0 || std::is_%s_v<D>); }(static_cast<xme::ScopedDelegate<Act>*>(nullptr)); XV(n == 1); XV(xv_hits(1) == 1);' % (tr, op, tr))
    for nm, tr, op in (('ca', 'is_copy_assignable_v<D>', 'd = e;'), ('ma', 'is_move_assignable_v<D>', 'd = static_cast<D&&>(e);')):
        sc('sd_' + nm, 'two actions run once each even if a guard is assigned (%s)' % tr[3:-5], 'u64 n = 0, m = 0; [&n, &m]<class D>(D*) { D d(Act{&n}); D e(Act{&m}); if constexpr(std::%s) { %s } }(static_cast<xme::ScopedDelegate<Act>*>(nullptr)); XV(n == 1); XV(m == 1); XV(xv_hits(1) == 2);' % (tr, op))
    return B

HBIND = '''#include <xme/core/functional/bind.hpp>
#include <functional>
struct Rec { u64 n; u64 a[8]; };
template<class... A> static Rec rec(A... a) { xv_hit(1); return Rec{sizeof...(A), {u64(a)...}}; }
struct RecF { template<class... A> Rec operator()(A... a) const { xv_hit(1); return Rec{sizeof...(A), {u64(a)...}}; } };
// which overload is used and how each argument arrives: 1 lvalue, 2 const lvalue, 3 rvalue, 4 const rvalue
template<class T> constexpr u64 kind() { return std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? 2 : 1) : (std::is_const_v<std::remove_reference_t<T>> ? 4 : 3); }
struct Kinds { u64 self, n, k[4]; };
struct KindF {
  template<class... A> Kinds operator()(A&&...) & { return {1, sizeof...(A), {kind<A&&>()...}}; }
  template<class... A> Kinds operator()(A&&...) const& { return {2, sizeof...(A), {kind<A&&>()...}}; }
  template<class... A> Kinds operator()(A&&...) && { return {3, sizeof...(A), {kind<A&&>()...}}; }
  template<class... A> Kinds operator()(A&&...) const&& { return {4, sizeof...(A), {kind<A&&>()...}}; } };
struct Obj { u64 base; u64 mem(u64 x, u64 y) { base += 1; return base * 3 + x * 5 + y * 7; } u64 cmem(u64 x) const { return base + x; } };
struct El { E e; El(u64 v) : e(v) {} El(const El&) = default; El(El&&) = default; };
struct TakeE { u64 operator()(const E& a, const E& b) const { return a.v() * 3 + b.v(); } };
struct TakeM { u64 operator()(E a, E b) const { return a.v() * 3 + b.v(); } };
struct RefRet { u64& operator()(u64& r, u64) const { return r; } };
template<class U> struct PtrTo { U* p; };
'''
def binds():
    S = []
    for fb, fn in (('front', 'bind_front'), ('back', 'bind_back')):
        for b in range(5):
            for c in range(5):
                if b + c > 6: continue
                bp = [('u64', 'b%d' % i) for i in range(b)]; cp = [('u64', 'c%d' % i) for i in range(c)]
                bn = [n for _, n in bp]; cn = [n for _, n in cp]
                want = bn + cn if fb == 'front' else cn + bn
                chk = 'XV(r.n == %d);' % (b + c) + ''.join(' XV(r.a[%d] == %s);' % (i, w) for i, w in enumerate(want)) + ' XV(xv_hits(1) == 1);'
                S.append(Sc('bf_%s_%d_%d' % (fb, b, c), '%s: %d bound, %d call arguments' % (fn, b, c), bp + cp,
                   'auto f = xme::%s(%s); XV(xv_hits(1) == 0); Rec r = f(%s); %s' % (fn, ', '.join(['RecF{}'] + bn), ', '.join(cn), chk)))
                if (b, c) in ((0, 2), (1, 2), (2, 1), (3, 0), (3, 2)):
                    S.append(Sc('bp_%s_%d_%d' % (fb, b, c), '%s of a function pointer, const and temporary wrapper: %d bound, %d call arguments' % (fn, b, c), bp + cp + [('u32', 'how')],
                       'Rec (*p)(%s) = rec<%s>; const auto f = xme::%s(%s); auto g = f; Rec r = how == 0 ? f(%s) : how == 1 ? g(%s) : how == 2 ? std::move(g)(%s) : std::move(f)(%s); %s'
                       % (', '.join(['u64'] * (b + c)), ', '.join(['u64'] * (b + c)), fn, ', '.join(['p'] + bn), *[', '.join(cn)] * 4, chk)))
        # reference kinds
        for selfk, call in ((1, 'f'), (2, 'std::as_const(f)'), (3, 'std::move(f)'), (4, 'std::move(std::as_const(f))')):
            kb = [selfk, selfk]
            kc = [1, 2, 3][:2]
            order = kb + [1, 3] if fb == 'front' else [1, 3] + kb
            S.append(Sc('bk_%s_%d' % (fb, selfk), '%s: value category of wrapper, bound and call arguments (%d)' % (fn, selfk), [('u64', 'x')],
               'KindF kf; u64 y = x; auto f = xme::%s(kf, x, y); u64 z = x; Kinds k = %s(z, u64(x)); XV(k.self == %d); XV(k.n == 4);' % (fn, call, selfk) + ''.join(' XV(k.k[%d] == %d);' % (i, w) for i, w in enumerate(order))))
            order = kb + [2, 4] if fb == 'front' else [2, 4] + kb
            S.append(Sc('bkc_%s_%d' % (fb, selfk), '%s: const call arguments keep their kind (%d)' % (fn, selfk), [('u64', 'x')],
               'KindF kf; u64 y = x; auto f = xme::%s(kf, x, y); const u64 z = x; Kinds k = %s(z, std::move(z)); XV(k.self == %d);' % (fn, call, selfk) + ''.join(' XV(k.k[%d] == %d);' % (i, w) for i, w in enumerate(order))))
        own = 'auto f = xme::%s(RecF{}, a); a = a + 1; Rec r = f(x); ' % fn
        S.append(Sc('bv_%s' % fb, '%s stores copies of the bound arguments' % fn, [('u64', 'a0'), ('u64', 'x')], 'u64 a = a0; %s XV(r.a[%d] == a0); XV(r.a[%d] == x);' % (own, 0 if fb == 'front' else 1, 1 if fb == 'front' else 0)))
        S.append(Sc('br_%s' % fb, '%s passes references through std::ref and call references' % fn, [('u64', 'a0'), ('u64', 'x')],
           'u64 a = a0, b = x; auto f = xme::%s([](u64& p, u64& q) { p += 1; q += 2; }, std::ref(a)); f(b); XV(a == a0 + %d); XV(b == x + %d);' % (fn, *((1, 2) if fb == 'front' else (2, 1)))))
        S.append(Sc('brr_%s' % fb, '%s returns references' % fn, [('u64', 'x')],
           ('u64 a = x; auto f = xme::bind_front(RefRet{}, std::ref(a)); auto&& r = f(1ul); XV(&r == &a); XV((std::is_same_v<decltype(f(1ul)), u64&>));' if fb == 'front' else 'u64 a = x; auto f = xme::bind_back(RefRet{}, 1ul); auto&& r = f(a); XV(&r == &a); XV((std::is_same_v<decltype(f(a)), u64&>));')))
        S.append(Sc('bs_%s' % fb, '%s: bound arguments persist and can change between calls' % fn, [('u64', 'x')],
           'auto f = xme::%s([](u64& p%s) { return p++; }, x); XV(f() == x); XV(f() == x + 1); auto g = f; XV(g() == x + 2); XV(f() == x + 2); XV(g() == x + 3);' % (fn, '')))
        S.append(Sc('be_%s' % fb, '%s owns bound elements and copies them with the wrapper' % fn, [('u64', 'x'), ('u64', 'y')],
           '{ E a(x), b(y); auto f = xme::%s(TakeE{}, a); auto g = f; XV(a.v() == x); u64 r = f(b); XV(r == %s); auto h = std::move(f); XV(h(b) == %s); XV(g(b) == r); XV(std::move(g)(b) == r); }' % (fn, *(['x * 3 + y' if fb == 'front' else 'y * 3 + x'] * 2))))
        S.append(Sc('bm_%s' % fb, '%s moves bound elements out of a temporary wrapper and call elements in' % fn, [('u64', 'x'), ('u64', 'y')],
           '{ auto f = xme::%s([](Elem<4> a, Elem<4> b) { return a.v() * 3 + b.v(); }, Elem<4>(x)); XV(std::move(f)(Elem<4>(y)) == %s); }' % (fn, 'x * 3 + y' if fb == 'front' else 'y * 3 + x')))
    S.append(Sc('bmem_front', 'bind_front of a member function and an object', [('u64', 's'), ('u64', 'x'), ('u64', 'y')],
       'Obj o{s}; auto f = xme::bind_front(&Obj::mem, &o, x); XV(f(y) == (s + 1) * 3 + x * 5 + y * 7); XV(o.base == s + 1); auto g = xme::bind_front(&Obj::mem, o); XV(g(x, y) == (s + 2) * 3 + x * 5 + y * 7); XV(o.base == s + 1); const auto h = xme::bind_front(&Obj::cmem, o); XV(h(x) == s + 1 + x); auto d = xme::bind_front(&Obj::base, std::ref(o)); d() = y; XV(o.base == y);'))
    S.append(Sc('bmem_back', 'bind_back of a member function', [('u64', 's'), ('u64', 'x'), ('u64', 'y')],
       'Obj o{s}; auto f = xme::bind_back(&Obj::mem, x, y); XV(f(o) == (s + 1) * 3 + x * 5 + y * 7); XV(o.base == s + 1); auto g = xme::bind_back(&Obj::mem, y); XV(g(&o, x) == (s + 2) * 3 + x * 5 + y * 7); XV(o.base == s + 2);'))
    S.append(Sc('bnest', 'nested bind_front and bind_back', [('u64', 'x'), ('u64', 'y'), ('u64', 'z'), ('u64', 'w')],
       'auto f = xme::bind_front(xme::bind_back(RecF{}, z), x); Rec r = f(y, w); XV(r.n == 4); XV(r.a[0] == x); XV(r.a[1] == y); XV(r.a[2] == w); XV(r.a[3] == z); auto g = xme::bind_front(xme::bind_front(RecF{}, x), y); Rec q = g(z); XV(q.n == 3 && q.a[0] == x && q.a[1] == y && q.a[2] == z);'))
    S.append(Sc('bassign', 'assigning a wrapper copies target and bound arguments', [('u64', 'x'), ('u64', 'y'), ('u64', 'z')],
       'auto f = xme::bind_front(RecF{}, x, y); auto g = xme::bind_front(RecF{}, z, z); g = f; Rec r = g(z); XV(r.a[0] == x && r.a[1] == y && r.a[2] == z); f = xme::bind_front(RecF{}, y, z); r = g(z); XV(r.a[0] == x && r.a[1] == y); auto p = xme::bind_back(RecF{}, x, y); auto q = xme::bind_back(RecF{}, z, z); q = p; r = q(z); XV(r.a[0] == z && r.a[1] == x && r.a[2] == y);'))
    for fb in ('front', 'back'):
        fn = 'bind_' + fb
        for i, call in enumerate(('f', 'std::as_const(f)', 'std::move(f)', 'std::move(std::as_const(f))')):
            S.append(Sc('bthrow_%s_%d' % (fb, i), '%s: an exception of the target reaches the caller (%s)' % (fn, call), [('u64', 'x'), ('bool', 't')],
               'auto f = xme::%s([](u64 a, u64 t) { if(%s) throw Boom{}; return a + t; }, x); bool c = false; u64 r = 0; try { r = %s(u64(t)); } catch(Boom&) { c = true; } XV(c == t); XV(t || r == x);' % (fn, 't' if fb == 'front' else 'a', call)))
            Q = ('&', 'const&', '&&', 'const&&')
            tg = 'struct Tg { ' + ' '.join('u64 operator()(u64 a, u64 t) %s noexcept(%s) { %s return a + t; }' % (q, 'false' if i == j else 'true', ('if(%s) throw Boom{};' % ('t' if fb == 'front' else 'a')) if i == j else '') for j, q in enumerate(Q)) + ' }; '
            S.append(Sc('bthrowk_%s_%d' % (fb, i), '%s: the exception of the one overload of the target that can fail reaches the caller (%s)' % (fn, call), [('u64', 'x'), ('bool', 't')],
               tg + 'auto f = xme::%s(Tg{}, x); bool c = false; u64 r = 0; try { r = %s(u64(t)); } catch(Boom&) { c = true; } XV(c == t); XV(t || r == x);' % (fn, call)))
            S.append(Sc('bthrowa_%s_%d' % (fb, i), '%s: the exception of a conversion of a bound argument reaches the caller (%s)' % (fn, call), [('u64', 'x'), ('bool', 't')],
               'struct Cv { u64 v; bool t; ' + ' '.join('operator u64() %s noexcept(%s) { %s return v; }' % (q, 'false' if i == j else 'true', 'if(t) throw Boom{};' if i == j else '') for j, q in enumerate(Q)) + ' }; auto f = xme::%s([](u64 a, u64 b) noexcept { return a + b; }, Cv{x, t}); bool c = false; u64 r = 0; try { r = %s(u64(1)); } catch(Boom&) { c = true; } XV(c == t); XV(t || r == x + 1);' % (fn, call)))
        w = 'x * 3 + y' if fb == 'front' else 'y * 3 + x'
        tgt = '[](const %s& a, const %s& b) { return a.v() * 3 + b.v(); }'
        def th(n, what, body): S.append(Sc('bt%s_%s' % (n, fb), '%s: %s' % (fn, what), [('u64', 'x'), ('u64', 'y'), ('u64', 'z')], '{ u64 r = 0; bool done = false; ' + body + ' }', throwing=True))
        T1 = tgt % ('Elem<1>', 'Elem<1>')
        th('const', 'a bound argument that cannot be copied from a constant: the exception reaches the caller', 'try { const Elem<1> a(x), b(y); try { auto f = xme::%s(%s, a); r = f(b); done = true; } catch(Boom&) { XV(a.v() == x); } } catch(Boom&) { } XV(done ? r == %s : xv_hits(99) == 1);' % (fn, T1, w))
        th('lv', 'a bound argument that cannot be copied: the exception reaches the caller', 'try { Elem<1> a(x), b(y); try { auto f = xme::%s(%s, a); r = f(b); done = true; } catch(Boom&) { XV(a.v() == x); } } catch(Boom&) { } XV(done ? r == %s : xv_hits(99) == 1);' % (fn, T1, w))
        th('second', 'two bound arguments, one of which cannot be copied', 'try { const Elem<1> a(x), b(y); auto f = xme::%s(%s, a, b); r = f(); done = true; } catch(Boom&) { } XV(done ? r == x * 3 + y : xv_hits(99) == 1);' % (fn, T1))
        th('copy', 'a wrapper whose bound argument cannot be copied: the exception reaches the caller', 'try { const Elem<1> b(y); auto f = xme::%s(%s, Elem<1>(x)); try { auto g = f; r = g(b); done = true; } catch(Boom&) { XV(f(b) == %s); } } catch(Boom&) { } XV(done ? r == %s : xv_hits(99) == 1);' % (fn, T1, w, w))
        th('assign', 'assigning a wrapper whose bound argument cannot be copied', 'try { const Elem<1> b(y); auto f = xme::%s(Elem<1>(x)), b0 = xme::%s(Elem<1>(z)); (void)f; (void)b0; } catch(Boom&) { }' % (fn, fn) if 0 else
           'struct Tg { u64 operator()(const Elem<1>& a, const Elem<1>& b) const { return a.v() * 3 + b.v(); } }; try { const Elem<1> b(y); auto f = xme::%s(Tg{}, Elem<1>(x)), g = xme::%s(Tg{}, Elem<1>(z)); try { g = f; r = g(b); done = true; } catch(Boom&) { XV(f(b) == %s); XV(g(b) == %s); } } catch(Boom&) { } XV(done ? r == %s : xv_hits(99) == 1);' % (fn, fn, w, w.replace('x', 'z'), w))
        th('arg', 'a call argument that cannot be copied', 'try { const Elem<1> b(y); auto f = xme::%s([](Elem<1> a, Elem<1> b) { return a.v() * 3 + b.v(); }, Elem<1>(x)); r = f(b); done = true; } catch(Boom&) { } XV(done ? r == %s : xv_hits(99) == 1);' % (fn, w))
        th('fn', 'a target that cannot be copied: the exception reaches the caller', 'struct Tg { Elem<1> e; u64 operator()(u64 a, u64 b) const { return e.v() + a * 3 + b; } }; try { const Tg t{Elem<1>(z)}; auto f = xme::%s(t, x); r = f(y); done = true; } catch(Boom&) { } XV(done ? r == z + %s : xv_hits(99) == 1);' % (fn, w))
        S.append(Sc('bmo_%s' % fb, '%s of a target and arguments that can only be moved' % fn, [('u64', 'x'), ('u64', 'y'), ('u64', 'z')],
           '{ struct Tg { Elem<4> e; u64 operator()(const Elem<4>& a, u64 b) const { return e.v() + a.v() * 3 + b; } u64 operator()(u64 b, const Elem<4>& a) const { return e.v() + a.v() * 3 + b; } }; auto f = xme::%s(Tg{Elem<4>(z)}, Elem<4>(x)); XV(f(y) == z + x * 3 + y); auto g = std::move(f); XV(g(y) == z + x * 3 + y); XV(std::as_const(g)(y) == z + x * 3 + y); }' % fn))
    return S
