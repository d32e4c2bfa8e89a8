"""C15: ArrayView."""
from xvc.scen import Sc
H = '''#include <array>
#include <vector>
#include <span>
#include <bit>
#include <cstddef>
#include <type_traits>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
using u8 = unsigned char; using u16 = unsigned short;
template<class T, std::size_t N = std::size_t(-1)> using AV = xme::ArrayView<T, N>;
struct Tri { u32 a, b, c; };
template<class V> concept has_view = std::is_nothrow_copy_constructible_v<V> && std::is_nothrow_copy_assignable_v<V>;
'''
def scenarios():
    S = []
    U = lambda *n: [('u64', x, (0, 40)) for x in n]
    def sc(n, w, b, p=(), **k): S.append(Sc(n, w, list(p), b, **k))
    def src(T, n='n'): return 'using T = %s; xv_assume(%s <= (u64(1) << 40)); const T* p = (const T*)xv_data(%s, 1, sizeof(T), 0); ' % (T, n, n)
    def mut(T, n='n'): return 'using T = %s; xv_assume(%s <= (u64(1) << 40)); T* p = (T*)xv_data(%s, 1, sizeof(T), 1); ' % (T, n, n)
    def whole(v, n='n', p='p'):
        t = 'XV(@.size() == #); XV(@.size_bytes() == # * sizeof(T)); XV(@.empty() == (# == 0)); XV(@.data() == $); XV(@.begin() == $); XV(@.end() == $ + #); XV(@.end() - @.begin() == i64(#)); if(k < #) { XV(&@[i64(k)] == $ + k); XV(@[i64(k)] == T(xv_in(1, k))); XV(&*(@.begin() + k) == $ + k); } if(# > 0) { XV(&@.front() == $); XV(&@.back() == $ + (# - 1)); } '
        return t.replace('@', v).replace('#', n).replace('$', p)
    CW = lambda v: 'const auto& c = %s; ' % v + whole('c')
    for t, ct in [('u32', 'u32'), ('u8', 'u8'), ('i64', 'i64')]:
        sc('w_ptr_' + t, 'view of %s elements from a pointer and a count' % ct, src(ct) + 'AV<const T> v(p, n); ' + whole('v') + CW('v'), U('n', 'k'))
        sc('w_it_' + t, 'view of %s elements from two pointers' % ct, src(ct) + 'AV<const T> v(p, p + n); ' + whole('v') + 'const T* cp = p; xme::ArrayView d(cp, cp + n); static_assert(std::is_same_v<decltype(d), AV<const T>>); XV(d.data() == p && d.size() == n); xme::ArrayView e(cp, n); static_assert(std::is_same_v<decltype(e), AV<const T>>); XV(e.data() == p && e.size() == n);', U('n', 'k'))
    sc('w_mut', 'view of mutable elements writes through', mut('u32') + 'AV<T> v(p, n); ' + whole('v') + CW('v') + 'if(k < n) { v[i64(k)] = T(x); XV(p[k] == T(x)); XV(v[k] == T(x)); if(j < n && j != k) XV(p[j] == T(xv_in(1, j))); *(v.begin() + k) = T(x + 1); XV(p[k] == T(x + 1)); v.front() = T(x + 2); XV(p[0] == T(x + 2)); v.back() = T(x + 3); XV(p[n - 1] == T(x + 3)); v.data()[k] = 9; XV(p[k] == 9); }', [('u64', 'n', (0, 40)), ('u64', 'k', (0, 40)), ('u64', 'j', (0, 40)), ('u64', 'x')])
    sc('w_static', 'view of a size known at compile time', src('u16', '5').replace('xv_assume(5', 'xv_assume(5') + 'AV<const T, 5> v(p, 5); ' + whole('v', '5') + 'AV<const T, 5> w(p, p + 5); XV(w.data() == p && w.size() == 5); AV<const T, 5> x(w); XV(x.data() == p); static_assert(sizeof(v) == sizeof(void*));', U('k'))
    sc('w_dflt', 'empty views', 'AV<int> v; XV(v.size() == 0); XV(v.empty()); XV(v.begin() == v.end()); XV(v.data() == nullptr); XV(v.size_bytes() == 0); AV<int, 0> z; XV(z.size() == 0 && z.empty() && z.begin() == z.end()); static_assert(!std::is_default_constructible_v<AV<int, 2>>);')
    sc('w_copy', 'copies of a view designate the same elements', src('u32') + 'AV<const T> v(p, n); AV<const T> w(v); ' + whole('w') + 'AV<const T> x; x = v; XV(x.data() == p && x.size() == n); XV(v.data() == p && v.size() == n); AV<const T> y(std::move(v)); XV(y.data() == p && y.size() == n); y = AV<const T>(); XV(y.empty() && y.data() == nullptr); static_assert(has_view<AV<u32>>);', U('n', 'k'))
    sc('w_range', 'view of a range object', src('u32') + 'std::span<const T> s(p, n); AV<const T> v(s); ' + whole('v') + 'xme::ArrayView d(s); static_assert(std::is_same_v<decltype(d), AV<const T>>); XV(d.data() == p && d.size() == n);', U('n', 'k'))
    sc('w_rangem', 'view of a range object with mutable elements', mut('u8') + 'std::span<T> s(p, n); AV<T> v(s); ' + whole('v') + 'xme::ArrayView d(s); static_assert(std::is_same_v<decltype(d), AV<T>>); XV(d.data() == p && d.size() == n); AV<const T> q(s); XV(q.data() == p && q.size() == n);', U('n', 'k'))
    sc('w_array', 'view of an Array', 'xv_assume(n <= (u64(1) << 40)); E* s = (E*)xv_elems(n, 1, sizeof(E)); { xme::Array<E, Al<E>> a(s, s + n); AV<E> v(a); XV(v.size() == n); XV(v.data() == a.data()); XV(v.begin() == a.data()); XV(v.end() == a.data() + n); if(k < n) { XV(v[k].v() == xv_in(1, k)); XV(&v[k] == &a[k]); } xme::ArrayView d(a); static_assert(std::is_same_v<decltype(d), AV<E>>); XV(d.size() == n && d.data() == a.data()); const auto& ca = a; xme::ArrayView c(ca); static_assert(std::is_same_v<decltype(c), AV<const E>>); XV(c.size() == n && c.data() == a.data()); }', U('n', 'k'))
    sc('w_carr', 'view of a C array', 'u32 a[4] = {x, x + 1, x + 2, x + 3}; AV<u32> v(a); AV<u32, 4> w(a); AV<const u32> c(a); xme::ArrayView d(a); static_assert(std::is_same_v<decltype(d), AV<u32, 4>>); const u32 b[3] = {7, x, 9}; xme::ArrayView e(b); static_assert(std::is_same_v<decltype(e), AV<const u32, 3>>); XV(v.size() == 4 && w.size() == 4 && c.size() == 4 && d.size() == 4 && e.size() == 3); XV(v.data() == a && w.data() == a && c.data() == a && d.data() == a && e.data() == b); XV(v[2] == x + 2 && w[3] == x + 3 && e[1] == x); v[1] = 5; XV(a[1] == 5 && d[1] == 5); XV(v.end() == a + 4 && e.end() == b + 3);', [('u32', 'x')])
    sc('w_sarr', 'view of a standard array', 'std::array<u32, 4> a = {x, x + 1, x + 2, x + 3}; AV<u32> v(a); AV<u32, 4> w(a); AV<const u32> c(a); xme::ArrayView d(a); static_assert(std::is_same_v<decltype(d), AV<u32, 4>>); const std::array<u32, 3> b = {7, x, 9}; xme::ArrayView e(b); static_assert(std::is_same_v<decltype(e), AV<const u32, 3>>); AV<const u32> f(b); XV(v.size() == 4 && w.size() == 4 && c.size() == 4 && d.size() == 4 && e.size() == 3 && f.size() == 3); XV(v.data() == a.data() && w.data() == a.data() && c.data() == a.data() && d.data() == a.data() && e.data() == b.data() && f.data() == b.data()); XV(v[2] == x + 2 && w[3] == x + 3 && e[1] == x); v[1] = 5; XV(a[1] == 5 && d[1] == 5);', [('u32', 'x')])
    sc('w_wide', 'view of elements larger than their alignment', 'xv_assume(n <= (u64(1) << 40)); using T = Tri; const T* p = (const T*)xv_data(n * 3, 1, 4, 0); AV<const T> v(p, n); XV(v.size() == n && v.data() == p && v.begin() == p && v.end() == p + n); XV(v.size_bytes() == n * 12); if(k < n) { XV(&v[i64(k)] == p + k); XV(v[i64(k)].b == u32(xv_in(1, 3 * k + 1))); XV(&*(v.begin() + k) == p + k); } if(n > 0) { XV(&v.front() == p); XV(&v.back() == p + (n - 1)); } auto b = xme::as_bytes(v); XV(b.size() == 12 * n); XV((const void*)b.end() == (const void*)(p + n)); xv_assume(o <= n && c <= n - o); auto w = v.subview(o, c); XV(w.data() == p + o && w.size() == c && w.size_bytes() == 12 * c); auto l = v.last(c); XV(l.data() == p + (n - c) && l.end() == p + n); auto f = v.first(c); XV(f.data() == p && f.end() == p + c); const T a[3] = {}; auto s = xme::as_bytes(AV<const T, 3>(a)); static_assert(std::is_same_v<decltype(s), AV<const std::byte, 36>>); XV(s.size() == 36 && (const void*)s.data() == (const void*)a);', U('n', 'k', 'o', 'c'))
    # ---- parts
    def part(v, o, c, ty):
        t = 'XV(@.size() == #); XV(@.data() == p + ($)); if(k < #) XV(@[k] == T(xv_in(1, ($) + k))); XV(@.end() == p + (($) + #)); static_assert(std::is_same_v<decltype(@), %s>);' % ty
        return t.replace('@', v).replace('#', '(' + c + ')').replace('$', o)
    sc('w_sub', 'sub-view', src('u32') + 'AV<const T> v(p, n); xv_assume(o <= n && c <= n - o); auto w = v.subview(o, c); ' + part('w', 'o', 'c', 'AV<const T>') + 'XV(v.size() == n && v.data() == p);', U('n', 'o', 'c', 'k'))
    sc('w_first', 'prefix', src('u16') + 'AV<const T> v(p, n); xv_assume(c <= n); auto w = v.first(c); ' + part('w', '0', 'c', 'AV<const T>'), U('n', 'c', 'k'))
    sc('w_last', 'suffix', src('u8') + 'AV<const T> v(p, n); xv_assume(c <= n); auto w = v.last(c); ' + part('w', 'n - c', 'c', 'AV<const T>'), U('n', 'c', 'k'))
    sc('w_subs', 'sub-views of a constant position and size', src('u32') + 'xv_assume(n >= 7); AV<const T> v(p, n); auto w = v.template subview<2, 5>(); ' + part('w', '2', '5', 'AV<const T, 5>').replace('decltype(w)', 'decltype(w)') + ' auto f = v.template first<3>(); ' + part('f', '0', '3', 'AV<const T, 3>') + ' auto l = v.template last<4>(); ' + part('l', 'n - 4', '4', 'AV<const T, 4>'), U('n', 'k'))
    sc('w_subst', 'sub-views of a view of constant size', src('u32', '8') + 'AV<const T, 8> v(p, 8); auto w = v.template subview<2, 6>(); ' + part('w', '2', '6', 'AV<const T, 6>') + ' auto f = v.template first<3>(); ' + part('f', '0', '3', 'AV<const T, 3>') + ' auto l = v.template last<5>(); ' + part('l', '3', '5', 'AV<const T, 5>') + ' xv_assume(o <= 8 && c <= 8 - o); auto d = v.subview(o, c); ' + part('d', 'o', 'c', 'AV<const T>') + ' auto df = v.first(c); ' + part('df', '0', 'c', 'AV<const T>') + ' auto dl = v.last(c); ' + part('dl', '8 - c', 'c', 'AV<const T>'), U('o', 'c', 'k'))
    sc('w_subsub', 'parts of parts', src('u32') + 'AV<const T> v(p, n); xv_assume(o <= n && c <= n - o); xv_assume(o2 <= c && c2 <= c - o2); auto w = v.subview(o, c).subview(o2, c2); ' + part('w', 'o + o2', 'c2', 'AV<const T>') + ' auto l = v.subview(o, c).last(c2); ' + part('l', 'o + c - c2', 'c2', 'AV<const T>'), U('n', 'o', 'c', 'o2', 'c2', 'k'))
    sc('w_submut', 'a part of a mutable view is mutable', mut('u32') + 'const AV<T> v(p, n); xv_assume(o <= n && c <= n - o && k < c); auto w = v.subview(o, c); static_assert(std::is_same_v<decltype(w), AV<T>>); w[k] = T(x); XV(p[o + k] == T(x)); if(j < n && j != o + k) XV(p[j] == T(xv_in(1, j)));', [('u64', 'n', (0, 40)), ('u64', 'o', (0, 40)), ('u64', 'c', (0, 40)), ('u64', 'k', (0, 40)), ('u64', 'j', (0, 40)), ('u64', 'x')])
    # ---- bytes
    sc('w_bytes', 'bytes of a view', src('u32') + 'AV<const T> v(p, n); auto b = xme::as_bytes(v); static_assert(std::is_same_v<decltype(b), AV<const std::byte>>); XV(b.size() == 4 * n); XV((const void*)b.data() == (const void*)p); XV((const void*)b.end() == (const void*)(p + n)); if(k < n) XV(b[4 * k + 1] == std::byte(xv_in(1, k) >> 8)); const u32 a[3] = {}; auto s = xme::as_bytes(AV<const u32, 3>(a)); static_assert(std::is_same_v<decltype(s), AV<const std::byte, 12>>); XV(s.size() == 12 && (const void*)s.data() == (const void*)a);', U('n', 'k'))
    sc('w_wbytes', 'writable bytes of a view', mut('u32') + 'AV<T> v(p, n); auto b = xme::as_writable_bytes(v); static_assert(std::is_same_v<decltype(b), AV<std::byte>>); XV(b.size() == 4 * n); XV((void*)b.data() == (void*)p); XV((void*)b.end() == (void*)(p + n)); u32 a[3] = {}; auto s = xme::as_writable_bytes(AV<u32, 3>(a)); static_assert(std::is_same_v<decltype(s), AV<std::byte, 12>>); XV(s.size() == 12 && (void*)s.data() == (void*)a); s[4] = std::byte(7); XV(a[1] == 7);', U('n', 'k'))
    # ---- iteration
    sc('w_iter', 'iteration visits every element once in order', src('u32') + 'AV<const T> v(p, n); u64 i = 0; u64 bad = 0; for(auto& x : v) { if(&x != p + i) bad = 1; ++i; } XV(bad == 0); XV(i == n);', U('n'))
    sc('w_riter', 'reverse iteration', src('u32') + 'AV<const T> v(p, n); typename AV<const T>::reverse_iterator r(v.end()), e(v.begin()); XV(e - r == i64(n)); if(k < n) { XV(&*(r + i64(k)) == p + (n - 1 - k)); XV(r[i64(k)] == T(xv_in(1, n - 1 - k))); } XV((r == e) == (n == 0)); u64 i = 0; for(; r != e; ++r) ++i; XV(i == n);', U('n', 'k'))
    sc('w_borrow', 'iterators of a view outlive it', 'static_assert(std::ranges::borrowed_range<AV<int>> && std::ranges::view<AV<int>> && std::ranges::contiguous_range<AV<int>> && std::ranges::sized_range<AV<int>>); static_assert(std::is_same_v<AV<const int>::reference, const int&> && std::is_same_v<decltype(std::declval<const AV<int>&>()[0]), const int&> && std::is_same_v<decltype(std::declval<AV<int>&>()[0]), int&>); XV(true);')
    return S
