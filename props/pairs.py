"""C21: pair and tuple."""
from xvc.scen import Sc
H = '''#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
#include <functional>
#include <compare>
#include <tuple>
template<std::size_t I> constexpr std::integral_constant<std::size_t, I> ix{};
template<class X, class Y> constexpr bool same = std::is_same_v<X, Y>;
using EM = Elem<4>;
struct Empty { bool operator==(const Empty&) const noexcept = default; auto operator<=>(const Empty&) const noexcept = default; };
struct Empty2 { bool operator==(const Empty2&) const noexcept = default; auto operator<=>(const Empty2&) const noexcept = default; };
using u8 = unsigned char; using u16 = unsigned short; using i8 = signed char;
struct Agg3 { u64 a; u32 b; u8 c; };
struct Obj { u64 b; u64 f(u64 x) { b = b + 1; return b + x; } };
template<class O> static O ord(O a) { return a; }
#define ACC(I, X) XV((same<decltype(t[ix<I>]), X&>)); XV((same<decltype(std::as_const(t)[ix<I>]), const X&>)); XV((same<decltype(std::move(t)[ix<I>]), X&&>)); XV((same<decltype(std::move(std::as_const(t))[ix<I>]), const X&&>)); \\
  XV((same<decltype(get<I>(t)), X&>)); XV((same<decltype(get<I>(std::as_const(t))), const X&>)); XV((same<decltype(get<I>(std::move(t))), X&&>)); XV((same<decltype(get<I>(std::move(std::as_const(t)))), const X&&>)); \\
  XV((same<std::tuple_element_t<I, decltype(t)>, X>)); { auto&& g0 = get<I>(t); auto&& g1 = get<I>(std::as_const(t)); auto&& g2 = get<I>(std::move(t)); auto&& g3 = get<I>(std::move(std::as_const(t))); auto&& i0 = t[ix<I>]; auto&& i1 = std::as_const(t)[ix<I>]; auto&& i2 = std::move(t)[ix<I>]; auto&& i3 = std::move(std::as_const(t))[ix<I>]; \\
  XV(&g0 == &i0 && &g0 == &g1 && &g0 == &i1 && (void*)&g0 >= (void*)&t && (void*)&g0 < (void*)(&t + 1)); XV(&g2 == &g0); XV(&g3 == &g0); XV(&i2 == &g0); XV(&i3 == &g0); }
'''
TY = {'u64': 'u64', 'u32': 'u32', 'u8': 'u8', 'i32': 'i32', 'u16': 'u16'}
CT = {'u64': 'u64', 'u32': 'u32', 'u8': 'u8', 'i32': 'int', 'u16': 'u16'}
COMBOS = [('u64',), ('u64', 'u64'), ('u8', 'u64'), ('u64', 'u8', 'u32'), ('i32', 'i32', 'i32', 'i32'), ('u8', 'u8', 'u64', 'u16', 'u8'), ('u64', 'u64', 'u64', 'u64', 'u64', 'u64')]

def lexless(xs, ys):
    """C++ spec of lexicographic order: -1/0/1"""
    r = '0'
    for x, y in reversed(list(zip(xs, ys))): r = '(%s < %s ? -1 : %s < %s ? 1 : %s)' % (x, y, y, x, r)
    return r

def family(S, kind, combo):
    n = len(combo)
    t = '%s<%s>' % (kind, ', '.join(CT[c] for c in combo))
    X = 'xme::' + t
    tag = ('p_' if kind == 'Pair' else 't_') + '_'.join(combo)
    a = ['a%d' % i for i in range(n)]; b = ['b%d' % i for i in range(n)]
    pa = list(zip(combo, a)); pb = list(zip(combo, b))
    mk = 'xme::make_%s' % kind.lower()
    def vals(v, names): return ''.join(' XV(get<%d>(%s) == %s); XV(%s[ix<%d>] == %s);' % (i, v, x, v, i, x) for i, x in enumerate(names))
    S.append(Sc('acc_' + tag, '%s: construction, element access and its kind' % t, pa + pb[:1],
      '%s t{%s};' % (X, ', '.join(a)) + vals('t', a) + ' const %s c = t;' % X + vals('c', a) + ''.join(' ACC(%d, %s)' % (i, CT[k]) for i, k in enumerate(combo))
      + ' XV((std::tuple_size_v<%s> == %d));' % (X, n) + ''.join(' get<%d>(t) = b0;' % i + vals('t', [CT[k] + '(b0)' if j <= i else x for j, (x, k) in enumerate(zip(a, combo))]) for i in range(n)) + vals('c', a)))
    S.append(Sc('val_' + tag, '%s: copy, move, assignment, swap, factory' % t, pa + pb,
      '%s x{%s}, y{%s};' % (X, ', '.join(a), ', '.join(b)) + '%s c(x), m(std::move(x));' % X + vals('c', a) + vals('m', a) + ' c = y;' + vals('c', b) + vals('y', b) + ' m = %s{%s};' % (X, ', '.join(b)) + vals('m', b)
      + ' m = %s{%s}; m = m;' % (X, ', '.join(a)) + vals('m', a) + ' m.swap(y);' + vals('m', b) + vals('y', a) + ' swap(m, y);' + vals('m', a) + vals('y', b) + ' y.swap(y);' + vals('y', b)
      + ' auto z = %s(%s); XV((same<decltype(z), %s>));' % (mk, ', '.join(a), X) + vals('z', a) + ' auto q = %s(%s); XV((same<decltype(q), %s>));' % (mk, ', '.join('std::as_const(%s)' % x for x in b), X) + vals('q', b)))
    S.append(Sc('cmp_' + tag, '%s: equality and ordering' % t, pa + pb,
      'const %s x{%s}, y{%s};' % (X, ', '.join(a), ', '.join(b)) + ' const bool e = %s; const int o = %s;' % (' && '.join('%s == %s' % z for z in zip(a, b)), lexless(a, b))
      + ' XV((x == y) == e); XV((x != y) == !e); XV((x < y) == (o < 0)); XV((x > y) == (o > 0)); XV((x <= y) == (o <= 0)); XV((x >= y) == (o >= 0)); XV(((x <=> y) < 0) == (o < 0)); XV(((x <=> y) == 0) == (o == 0)); XV(x == x); XV((same<decltype(x <=> y), std::strong_ordering>));'))
    if kind == 'Tuple':
        S.append(Sc('apply_' + tag, 'apply on %s' % t, pa,
          '%s t{%s};' % (X, ', '.join(a)) + ' u64 calls = 0; auto r = xme::apply([&](%s) { ++calls; return %s; }, t); XV(calls == 1); XV(r == %s);' % (', '.join('%s& v%d' % (CT[k], i) for i, k in enumerate(combo)), ' + '.join('%d * u64(v%d)' % (i + 1, i) for i in range(n)), ' + '.join('%d * u64(a%d)' % (i + 1, i) for i in range(n)))
          + ' auto r2 = xme::apply([&](%s) { return %s; }, std::as_const(t)); XV(r2 == r);' % (', '.join('const %s& v%d' % (CT[k], i) for i, k in enumerate(combo)), ' + '.join('%d * u64(v%d)' % (i + 1, i) for i in range(n)))
          + ' auto r3 = xme::apply([&](%s) { return %s; }, std::move(t)); XV(r3 == r);' % (', '.join('%s&& v%d' % (CT[k], i) for i, k in enumerate(combo)), ' + '.join('%d * u64(v%d)' % (i + 1, i) for i in range(n)))))
        S.append(Sc('tie_' + tag, 'tie and forward_as_tuple with the elements of %s' % t, pa + pb,
          'auto t = xme::tie(%s);' % ', '.join(a) + ''.join(' XV(&get<%d>(t) == &a%d); XV(&t[ix<%d>] == &a%d);' % (i, i, i, i) for i in range(n)) + ' XV((same<decltype(t), xme::Tuple<%s>>));' % ', '.join(CT[c] + '&' for c in combo)
          + ' t = %s{%s};' % (X, ', '.join(b)) + ''.join(' XV(a%d == b%d);' % (i, i) for i in range(n))
          + ' auto f = xme::forward_as_tuple(%s);' % ', '.join(('a%d' if i % 3 == 0 else 'std::as_const(a%d)' if i % 3 == 1 else 'std::move(a%d)') % i for i in range(n))
          + ' XV((same<decltype(f), xme::Tuple<%s>>));' % ', '.join((('%s&', 'const %s&', '%s&&')[i % 3]) % CT[c] for i, c in enumerate(combo))
          + ''.join(' { auto&& g = get<%d>(std::move(f)); XV(&g == &a%d); }' % (i, i) for i in range(n)))) 

def scenarios():
    S = []
    def sc(n, w, b, p=(), **k): S.append(Sc(n, w, list(p), b, **k))
    for c in COMBOS:
        family(S, 'Tuple', c)
        if len(c) == 2: family(S, 'Pair', c)
    U = lambda *n: [('u64', x) for x in n]
    for kind in ('Pair', 'Tuple'):
        k = kind[0].lower()
        P = 'xme::%s' % kind
        # element lifetime
        sc(k + '_el', '%s of elements with observable lifetime' % kind, '''{ %s<E, E> x{E(a), E(b)}; XV(get<0>(x).v() == a && get<1>(x).v() == b); %s<E, E> y(x); XV(get<0>(x).v() == a && get<1>(x).v() == b); XV(get<0>(y).v() == a && get<1>(y).v() == b);
          %s<E, E> z(std::move(y)); XV(get<0>(z).v() == a && get<1>(z).v() == b); %s<E, E> w{E(c), E(d)}; w = z; XV(get<0>(w).v() == a && get<1>(w).v() == b && get<0>(z).v() == a && get<1>(z).v() == b);
          w = %s<E, E>{E(c), E(d)}; XV(get<0>(w).v() == c && get<1>(w).v() == d); w.swap(z); XV(get<0>(w).v() == a && get<1>(w).v() == b && get<0>(z).v() == c && get<1>(z).v() == d); swap(w, z); XV(get<0>(w).v() == c && get<1>(w).v() == d && get<0>(z).v() == a && get<1>(z).v() == b);
          XV((w == z) == (a == c && b == d)); }''' % ((P,) * 5), U('a', 'b', 'c', 'd'))
        sc(k + '_mo', '%s of move-only elements' % kind, '''{ %s<EM, EM> x{EM(a), EM(b)}; %s<EM, EM> y(std::move(x)); XV(get<0>(y).v() == a && get<1>(y).v() == b); %s<EM, EM> z{EM(c), EM(d)}; z = std::move(y); XV(get<0>(z).v() == a && get<1>(z).v() == b);
          EM m(get<0>(std::move(z))); XV(m.v() == a); EM n(std::move(z)[ix<1>]); XV(n.v() == b); auto q = xme::make_%s(EM(c), std::move(n)); XV(get<0>(q).v() == c && get<1>(q).v() == b); XV((same<decltype(q), %s<EM, EM>>)); }''' % (P, P, P, kind.lower(), P), U('a', 'b', 'c', 'd'))
        sc(k + '_make', 'make_%s copies lvalues, moves temporaries and unwraps references' % kind.lower(), '''{ E x(a), y(b); auto p = xme::make_%s(x, std::move(y)); XV((same<decltype(p), %s<E, E>>)); XV(x.v() == a); XV(get<0>(p).v() == a && get<1>(p).v() == b); u64 n = a; auto r = xme::make_%s(std::ref(n), n); XV((same<decltype(r), %s<u64&, u64>>)); get<0>(r) = b; XV(n == b); XV(get<1>(r) == a);
          const u64 cn = a; auto s = xme::make_%s(std::cref(cn), cn); XV((same<decltype(s), %s<const u64&, u64>>)); XV(&get<0>(s) == &cn); %s g{std::ref(n), cn}; XV((same<decltype(g), %s<u64&, u64>>)); XV(&get<0>(g) == &n); XV(get<1>(g) == a); }''' % (kind.lower(), P, kind.lower(), P, kind.lower(), P, P, P), U('a', 'b'))
        # references
        sc(k + '_ref', '%s of references refers to and assigns through' % kind, '''u64 x = a, y = b; { %s<u64&, const u64&> p{x, y}; XV(&get<0>(p) == &x && &get<1>(p) == &y); XV((same<decltype(get<0>(p)), u64&>)); XV((same<decltype(get<0>(std::as_const(p))), u64&>)); XV((same<decltype(get<1>(p)), const u64&>)); XV((same<decltype(get<0>(std::move(p))), u64&>)); XV((same<decltype(p[ix<0>]), u64&>)); get<0>(std::as_const(p)) = c; XV(x == c); get<0>(std::move(p)) = d; XV(x == d); XV(y == b); }
          { %s<u64&&, u64&> p{std::move(x), y}; XV((same<decltype(get<0>(std::move(p))), u64&&>)); XV((same<decltype(get<0>(p)), u64&>)); auto&& g = get<0>(std::move(p)); XV(&g == &x); auto&& h = get<1>(std::move(p)); XV((same<decltype(get<1>(std::move(p))), u64&>)); XV(&h == &y); }''' % (P, P), U('a', 'b', 'c', 'd'))
        sc(k + '_refasg', 'assigning to a %s of references assigns the referents' % kind.lower(), '''u64 x = a, y = b; %s<u64&, u64&> p{x, y}; p = %s<u64, u64>{c, d}; XV(x == c && y == d); const %s<u64, u64> q{a, b}; p = q; XV(x == a && y == b); %s<u8, u32> n{u8(c), u32(d)}; p = n; XV(x == u8(c) && y == u32(d)); XV(get<0>(n) == u8(c) && get<1>(n) == u32(d)); p = std::pair<u64, u64>(d, c); XV(x == d && y == c); p = std::tuple<u64, u64>(c, d); XV(x == c && y == d);''' % ((P,) * 4), U('a', 'b', 'c', 'd'))
        # empty types
        sc(k + '_empty', '%s with empty members keeps the other value' % kind, '''%s<Empty, u64> x{Empty{}, a}; %s<u64, Empty> y{b, Empty{}}; XV(get<1>(x) == a); XV(get<0>(y) == b); XV(x[ix<1>] == a); get<1>(x) = b; XV(get<1>(x) == b); get<0>(x) = Empty{}; XV(get<1>(x) == b); get<1>(y) = Empty{}; XV(get<0>(y) == b); auto z = x; XV(get<1>(z) == b); get<0>(y) = c; XV(get<0>(y) == c); %s<Empty, Empty2> w{}; %s<Empty, Empty2> v{}; XV(w == v); %s<u64, Empty> q{a, Empty{}}; XV((q == y) == (a == c)); XV((q < y) == (a < c)); q.swap(y); XV(get<0>(q) == c && get<0>(y) == a); XV(sizeof(%s<Empty, u64>) == 8); XV(sizeof(%s<u64, Empty>) == 8); %s<Empty, Empty> same2{}; XV(&get<0>(same2) != &get<1>(same2));''' % ((P,) * 8), U('a', 'b', 'c'))
        sc(k + '_other', '%s assigned from other pair-like types' % kind, '''%s<u64, u64> x{0, 0}; x = std::pair<u32, u64>(a, b); XV(get<0>(x) == a && get<1>(x) == b); std::tuple<u64, u8> t(c, 5); x = t; XV(get<0>(x) == c && get<1>(x) == 5); XV(std::get<0>(t) == c); x = xme::Pair<u64, u64>{b, c}; XV(get<0>(x) == b && get<1>(x) == c); x = xme::Tuple<u32, u8>{a, u8(9)}; XV(get<0>(x) == a && get<1>(x) == 9); { %s<E, E> e{E(b), E(c)}; std::pair<E, E> s{E(c), E(b)}; e = s; XV(get<0>(e).v() == c && get<1>(e).v() == b); XV(s.first.v() == c && s.second.v() == b); e = std::move(s); XV(get<0>(e).v() == c && get<1>(e).v() == b);
          %s<EM, EM> m{EM(b), EM(c)}; std::pair<EM, EM> ms{EM(c), EM(b)}; m = std::move(ms); XV(get<0>(m).v() == c && get<1>(m).v() == b); }''' % ((P,) * 3), [('u32', 'a'), ('u64', 'b'), ('u64', 'c')])
        sc(k + '_bind', 'structured bindings of %s' % kind.lower(), '''%s<u64, u64> x{a, b}; { auto& [p, q] = x; XV(&p == &get<0>(x) && &q == &get<1>(x)); p = c; XV(get<0>(x) == c); } { auto [p, q] = x; p = a; XV(get<0>(x) == c); XV(q == b); } { const auto& [p, q] = x; XV(p == c && q == b); }''' % P, U('a', 'b', 'c'))
        sc(k + '_ordel', 'ordering of %s compares later elements only on equality of earlier ones' % kind.lower(), '''{ const %s<E, E> x{E(a), E(b)}, y{E(c), E(d)}; const u64 ra = xv_rank(a), rb = xv_rank(b), rc = xv_rank(c), rd = xv_rank(d); const bool less = ra < rc || (ra == rc && rb < rd); XV((x < y) == less); XV((x > y) == (rc < ra || (ra == rc && rd < rb))); XV((x == y) == (a == c && b == d)); }''' % P, U('a', 'b', 'c', 'd'))
        sc(k + '_part', '%s of partially ordered elements' % kind, 'const %s<double, double> x{1.0, nan ? __builtin_nan("") : 2.0}, y{1.0, 2.0}; XV((same<decltype(x <=> y), std::partial_ordering>)); XV((x == y) == !nan); XV(!(x < y)); XV(!(x > y)); XV((x <= y) == !nan); XV(((x <=> y) == std::partial_ordering::unordered) == nan);' % P, [('bool', 'nan')])
        sc(k + '_nest', 'nested %s' % kind.lower(), '''%s<%s<u64, u64>, u64> x{%s<u64, u64>{a, b}, c}; XV(get<0>(get<0>(x)) == a && get<1>(get<0>(x)) == b && get<1>(x) == c); auto y = x; get<1>(get<0>(y)) = c; XV(get<1>(get<0>(x)) == b); XV((x == y) == (b == c)); XV((x < y) == (b < c)); x = y; XV(get<1>(get<0>(x)) == c); XV(get<0>(get<0>(x)) == a);''' % (P, P, P), U('a', 'b', 'c'))
        sc(k + '_self', 'assigning a %s from its own parts' % kind.lower(), '''%s<u64, u64> x{a, b}; x = %s<u64&, u64&>{get<0>(x), get<1>(x)}; XV(get<0>(x) == a && get<1>(x) == b); x = std::move(x); XV(get<0>(x) == a && get<1>(x) == b);''' % (P, P), U('a', 'b'))
    sc('p_member', 'pair members first and second are its elements', 'xme::Pair<u64, u32> p{a, b}; XV(p.first == a && p.second == b); XV(&p.first == &get<0>(p) && &p.second == &get<1>(p)); p.first = c; XV(get<0>(p) == c && p.second == b); xme::Pair d(a, b); XV((same<decltype(d), xme::Pair<u64, u32>>)); XV(d.first == a && d.second == b);', [('u64', 'a'), ('u32', 'b'), ('u64', 'c')])
    sc('t_zero', 'the empty tuple', 'xme::Tuple<> a, b; XV(a == b); XV(!(a < b)); XV(a <= b); a = b; a.swap(b); XV(std::tuple_size_v<xme::Tuple<>> == 0); XV(xme::apply([] { return 7; }, a) == 7); auto c = xme::make_tuple(); XV((same<decltype(c), xme::Tuple<>>)); auto d = xme::tuple_cat(); XV((same<decltype(d), xme::Tuple<>>));')
    sc('t_el5', 'five elements with observable lifetime', '''{ xme::Tuple<E, u64, E, Empty, E> x{E(a), b, E(c), {}, E(d)}; auto y = x; XV(get<0>(y).v() == a && get<1>(y) == b && get<2>(y).v() == c && get<4>(y).v() == d); auto z = std::move(x); XV(get<0>(z).v() == a && get<2>(z).v() == c && get<4>(z).v() == d); xme::Tuple<E, u64, E, Empty, E> w{E(d), a, E(a), {}, E(b)}; w.swap(z); XV(get<0>(w).v() == a && get<1>(w) == b && get<2>(w).v() == c && get<4>(w).v() == d); XV(get<0>(z).v() == d && get<1>(z) == a && get<2>(z).v() == a && get<4>(z).v() == b); z = w; XV(get<4>(z).v() == d && get<2>(z).v() == c); z = std::move(y); XV(get<0>(z).v() == a && get<4>(z).v() == d); XV((z == w)); }''', U('a', 'b', 'c', 'd'))
    sc('t_conv', 'conversion to aggregates, pairs and tuples', '''const xme::Tuple<u64, u32, u8> t{a, b, c}; Agg3 g = t; XV(g.a == a && g.b == b && g.c == c); std::tuple<u64, u32, u8> s = static_cast<std::tuple<u64, u32, u8>>(t); XV(std::get<0>(s) == a && std::get<1>(s) == b && std::get<2>(s) == c); xme::Tuple<u64, u32> t2{a, b}; xme::Pair<u64, u32> p = t2; XV(p.first == a && p.second == b); std::pair<u64, u32> sp = t2; XV(sp.first == a && sp.second == b); XV(get<0>(t) == a && get<1>(t) == b && get<2>(t) == c);''', [('u64', 'a'), ('u32', 'b'), ('u8', 'c')])
    sc('t_cat', 'tuple_cat concatenates values in order', '''xme::Tuple<u64, u8> x{a, b}; const xme::Tuple<u32> y{c}; xme::Pair<u64, u16> p{d, e}; auto r = xme::tuple_cat(x, y, xme::Tuple<>{}, p, std::pair<u8, u64>(b, a)); XV((same<decltype(r), xme::Tuple<u64, u8, u32, u64, u16, u8, u64>>)); XV(get<0>(r) == a && get<1>(r) == b && get<2>(r) == c && get<3>(r) == d && get<4>(r) == e && get<5>(r) == b && get<6>(r) == a); XV(get<0>(x) == a && get<1>(x) == b); auto q = xme::tuple_cat(x); XV((same<decltype(q), xme::Tuple<u64, u8>>)); XV(q == x); auto z = xme::tuple_cat(x, x, x); XV(get<0>(z) == a && get<1>(z) == b && get<2>(z) == a && get<3>(z) == b && get<4>(z) == a && get<5>(z) == b);''', [('u64', 'a'), ('u8', 'b'), ('u32', 'c'), ('u64', 'd'), ('u16', 'e')])
    sc('t_catel', 'tuple_cat copies lvalues and moves temporaries', '''{ xme::Tuple<E, E> x{E(a), E(b)}; xme::Tuple<EM> m{EM(c)}; auto r = xme::tuple_cat(x, std::move(m), xme::Tuple<EM, E>{EM(d), E(a)}); XV(get<0>(x).v() == a && get<1>(x).v() == b); XV(get<0>(r).v() == a && get<1>(r).v() == b && get<2>(r).v() == c && get<3>(r).v() == d && get<4>(r).v() == a); XV((same<decltype(r), xme::Tuple<E, E, EM, EM, E>>)); }''', U('a', 'b', 'c', 'd'))
    sc('t_catref', 'tuple_cat keeps reference elements', '''u64 x = a, y = b; auto r = xme::tuple_cat(xme::tie(x), xme::forward_as_tuple(std::move(y)), xme::make_tuple(c)); XV((same<decltype(r), xme::Tuple<u64&, u64&&, u64>>)); XV(&get<0>(r) == &x); auto&& g = get<1>(std::move(r)); XV(&g == &y); XV(get<2>(r) == c); get<0>(r) = c; XV(x == c);''', U('a', 'b', 'c'))
    sc('t_applyother', 'apply on pairs and standard tuples, member functions, move-only', '''auto add = [](u64 x, u64 y) { return x * 3 + y; }; XV(xme::apply(add, xme::Pair<u64, u64>{a, b}) == a * 3 + b); XV(xme::apply(add, std::pair<u64, u64>(a, b)) == a * 3 + b); XV(xme::apply(add, std::tuple<u64, u64>(a, b)) == a * 3 + b); { u64 r = xme::apply([](EM x, const EM& y) { return x.v() * 3 + y.v(); }, xme::Tuple<EM, EM>{EM(a), EM(b)}); XV(r == a * 3 + b); } u64 n = a; xme::Tuple<u64&> q{n}; XV((same<decltype(xme::apply([](u64& z) -> u64& { return z; }, q)), u64&>)); auto&& z = xme::apply([](u64& w) -> u64& { return w; }, q); XV(&z == &n);''', U('a', 'b'))
    sc('t_tieswap', 'tie as assignment target and for comparison', '''u64 x = a, y = b; xme::tie(x, y) = xme::Tuple<u64, u64>{c, d}; XV(x == c && y == d); xme::tie(x, y) = xme::Pair<u64, u64>{y, x}; XV(x == d && y == c); u64 p = a, q = b; xme::Tuple<u64&, u64&> t = xme::tie(x, y), s = xme::tie(p, q); swap(t, s); XV(x == a && y == b && p == d && q == c); XV(&get<0>(t) == &x && &get<0>(s) == &p);''', U('a', 'b', 'c', 'd'))
    sc('t_throw', 'a failing element copy leaves no element behind', '''bool c = false; { xme::Tuple<ET, ET, ET>* p = nullptr; try { ET x(a); xme::Tuple<ET, ET, ET> t{x, x, x}; auto u = t; XV(get<2>(u).v() == a); u = t; auto v = xme::tuple_cat(t, u); XV(get<5>(v).v() == a); } catch(Boom&) { c = true; } }''', U('a'), throwing=True)
    sc('p_throw', 'a failing element copy of a pair leaves no element behind', '''try { ET x(a), y(b); xme::Pair<ET, ET> t{x, y}; auto u = t; XV(get<1>(u).v() == b); u = t; auto m = xme::make_pair(x, std::move(y)); XV(m.first.v() == a && m.second.v() == b); } catch(Boom&) { }''', U('a', 'b'), throwing=True)
    for i, call in enumerate(('t', 'std::as_const(t)', 'std::move(t)')):
        for kind in ('Tuple', 'Pair'):
            sc('applythrow_%s%d' % (kind[0], i), 'an exception of the function given to apply reaches the caller (%s, %s)' % (kind, call), 'xme::%s<u64, bool> t{a, b}; bool c = false; u64 r = 0; try { r = xme::apply([](u64 x, bool y) { if(y) throw Boom{}; return x + 1; }, %s); } catch(Boom&) { c = true; } XV(c == b); XV(b || r == a + 1);' % (kind, call), [('u64', 'a'), ('bool', 'b')])
    Q = ('&', 'const&', '&&', 'const&&')
    for i, call in enumerate(('f', 'std::as_const(f)', 'std::move(f)', 'std::move(std::as_const(f))')):
        tg = 'struct Tg { ' + ' '.join('u64 operator()(u64 x, bool y) %s noexcept(%s) { %s return x + %d; }' % (q, 'false' if i == j else 'true', 'if(y) throw Boom{};' if i == j else '', j) for j, q in enumerate(Q)) + ' }; '
        sc('applythrowk_%d' % i, 'apply calls the function given with its own kind, and its exception reaches the caller (%s)' % call, tg + 'Tg f; xme::Tuple<u64, bool> t{a, b}; bool c = false; u64 r = 0; try { r = xme::apply(%s, t); } catch(Boom&) { c = true; } XV(c == b); XV(b || r == a + %d);' % (call, i), [('u64', 'a'), ('bool', 'b')])
        t = call.replace('f', 't') if i < 2 else call.replace('(f)', '(t)')
        sc('applythrowa_%d' % i, 'the exception of converting an element for apply reaches the caller (%s)' % t, 'struct Cv { u64 v; bool t; ' + ' '.join('operator u64() %s noexcept(%s) { %s return v; }' % (q, 'false' if i == j else 'true', 'if(t) throw Boom{};' if i == j else '') for j, q in enumerate(Q)) + ' }; xme::Tuple<Cv, u64> t{Cv{a, b}, 5}; bool c = false; u64 r = 0; try { r = xme::apply([](u64 x, u64 y) noexcept { return x + y; }, %s); } catch(Boom&) { c = true; } XV(c == b); XV(b || r == a + 5);' % ('std::as_const(t)' if i == 1 else t), [('u64', 'a'), ('bool', 'b')])
    for kind in ('Tuple', 'Pair'):
        for mi, (A, B) in enumerate((('EB', 'EB'), ('EB', 'E'), ('E', 'EB'), ('EA', 'EB'), ('EC', 'EB'), ('EA', 'E'), ('E', 'EA'), ('EC', 'E'), ('E', 'EC'))):
            D = 'using EB = Elem<3>; using EA = Elem<1>; using EC = Elem<2>; using P = xme::%s<%s, %s>; ' % (kind, A, B)
            two = 'P x{%s(a), %s(b)}, y{%s(c), %s(d)}; ' % (A, B, A, B)
            V = lambda v, p, q: 'XV(get<0>(%s).v() == %s && get<1>(%s).v() == %s); ' % (v, p, v, q)
            for how in ('x.swap(y)', 'swap(x, y)'):
                sc('swapthrow_%s%d%d' % (kind[0], how[0] == 's', mi), 'a failing swap of an element reaches the caller (%s<%s, %s>, %s)' % (kind, A, B, how), 'bool ok = false; try { ' + D + two + how + '; ok = true; ' + V('x', 'c', 'd') + V('y', 'a', 'b') + '} catch(Boom&) { } XV(ok || xv_hits(99) == 1);', U('a', 'b', 'c', 'd'), throwing=True)
            sc('asgthrow_%s%d' % (kind[0], mi), 'a failing assignment of an element reaches the caller (%s<%s, %s>)' % (kind, A, B), 'bool ok = false; try { ' + D + two + 'x = y; ' + V('x', 'c', 'd') + 'y = P{%s(a), %s(b)}; ' % (A, B) + V('y', 'a', 'b')
               + 'std::pair<%s, %s> p(a, b); x = p; ' % (A, B) + V('x', 'a', 'b') + 'x = std::pair<%s, %s>(c, d); ' % (A, B) + V('x', 'c', 'd') + 'x = std::tuple<%s, %s>(a, b); ' % (A, B) + V('x', 'a', 'b')
               + 'const P z(std::move(x)); auto m = xme::make_%s(get<0>(z), get<1>(std::move(z))); ' % kind.lower() + V('m', 'a', 'b') + 'ok = true; } catch(Boom&) { } XV(ok || xv_hits(99) == 1);', U('a', 'b', 'c', 'd'), throwing=True)
    return S
