"""C26: reverse and constant iterator adaptors."""
from xvc.scen import Sc
H = '''#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/concepts/constant_iterator.hpp>
#include <xme/container/array.hpp>
#include <array>
#include <compare>
#include <type_traits>
using u8 = unsigned char;
// base iterators with observable movement: position p in 0..n, value of element k is xv_in(1, k)
template<class Tag> struct It { using value_type = u64; using difference_type = i64; using reference = const u64&; using pointer = const u64*; using iterator_category = Tag;
  u64* a = nullptr; i64 p = 0;
  reference operator*() const { return a[p]; } pointer operator->() const { return a + p; }
  It& operator++() { ++p; return *this; } It operator++(int) { It t = *this; ++p; return t; } bool operator==(const It& o) const { return p == o.p; }
  It& operator--() requires std::derived_from<Tag, std::bidirectional_iterator_tag> { --p; return *this; } It operator--(int) requires std::derived_from<Tag, std::bidirectional_iterator_tag> { It t = *this; --p; return t; } };
struct RA { using value_type = u64; using difference_type = i64; using reference = u64&; using pointer = u64*; using iterator_category = std::random_access_iterator_tag;
  u64* a = nullptr; i64 p = 0;
  reference operator*() const { return a[p]; } pointer operator->() const { return a + p; } reference operator[](i64 n) const { return a[p + n]; }
  RA& operator++() { ++p; return *this; } RA operator++(int) { RA t = *this; ++p; return t; } RA& operator--() { --p; return *this; } RA operator--(int) { RA t = *this; --p; return t; }
  RA& operator+=(i64 n) { p += n; return *this; } RA& operator-=(i64 n) { p -= n; return *this; } RA operator+(i64 n) const { return {a, p + n}; } RA operator-(i64 n) const { return {a, p - n}; } friend RA operator+(i64 n, RA r) { return {r.a, r.p + n}; }
  i64 operator-(const RA& o) const { return p - o.p; } bool operator==(const RA& o) const { return p == o.p; } auto operator<=>(const RA& o) const { return p <=> o.p; } };
struct RN { using value_type = u64; using difference_type = i64; using reference = u64&; using pointer = u64*; using iterator_category = std::random_access_iterator_tag;
  u64* a = nullptr; i64 p = 0;
  reference operator*() const { return a[p]; } pointer operator->() const { return a + p; } reference operator[](i64 n) const { return a[p + n]; }
  RN& operator++() { ++p; return *this; } RN operator++(int) { RN t = *this; ++p; return t; } RN& operator--() { --p; return *this; } RN operator--(int) { RN t = *this; --p; return t; }
  RN& operator+=(i64 n) { p += n; return *this; } RN& operator-=(i64 n) { p -= n; return *this; } RN operator+(i64 n) const { return {a, p + n}; } RN operator-(i64 n) const { return {a, p - n}; } friend RN operator+(i64 n, RN r) { return {r.a, r.p + n}; }
  i64 operator-(const RN& o) const { return p - o.p; } bool operator==(const RN& o) const { return p == o.p; }
  bool operator<(const RN& o) const { return p < o.p; } bool operator>(const RN& o) const { return p > o.p; } bool operator<=(const RN& o) const { return p <= o.p; } bool operator>=(const RN& o) const { return p >= o.p; } };
struct End { i64 n; friend bool operator==(const RA& r, const End& e) { return r.p == e.n; } friend i64 operator-(const RA& r, const End& e) { return r.p - e.n; } friend i64 operator-(const End& e, const RA& r) { return e.n - r.p; } };
struct CRA : RA { using reference = const u64&; };
template<class T> using A6 = std::array<T, 6>;
using AIt = xme::Array<u64>::iterator; using ACIt = xme::Array<u64>::const_iterator;
using R = xme::ReverseIterator<const u8*>; using RU = xme::ReverseIterator<u8*>; using C = xme::ConstIterator<u8*>; using CR = xme::ConstIterator<RA>; using RR = xme::ReverseIterator<RA>;
#define IN(k) u8(xv_in(1, u64(k)))
#define ARR u64 a[6] = {v, v + 1, v + 2, v + 3, v + 4, v + 5};
#define RNG const u8* p = (const u8*)xv_bytes(n, 1); xv_assume(n < (1ul << 40)); const i64 N = i64(n);
#define POS(x) xv_assume(0 <= x && x <= N);
'''
def scenarios():
    S = []
    def sc(n, w, b, p=(), **k): S.append(Sc(n, w, list(p), b, **k))
    I = lambda *n: [('i64', x, (0, 9)) for x in n]
    N = [('u64', 'n', (0, 8))]
    # ---- reverse iterator over a pointer range of any length
    sc('r_deref', 'reverse iterator over any range: dereference, arrow, index', 'RNG POS(i) POS(j) xv_assume(i > 0 && i - j > 0); const R r(p + i); XV(*r == IN(i - 1)); XV(&*r == p + (i - 1)); XV(r.operator->() == p + (i - 1)); XV(r[j] == IN(i - 1 - j)); XV(&r[j] == p + (i - 1 - j)); XV((std::is_same_v<decltype(*r), const u8&>)); XV((std::is_same_v<decltype(r[j]), const u8&>));', N + I('i', 'j'))
    sc('r_step', 'reverse iterator over any range: increments and decrements', 'RNG POS(i) xv_assume(i > 1); R r(p + i); R& s = ++r; XV(&s == &r); XV(&*r == p + (i - 2)); R& t = --r; XV(&t == &r); XV(&*r == p + (i - 1)); R o = r++; XV(&*o == p + (i - 1)); XV(&*r == p + (i - 2)); R q = r--; XV(&*q == p + (i - 2)); XV(&*r == p + (i - 1)); XV(o == r); XV(!(q == r)); XV(q != r);', N + I('i'))
    sc('r_off', 'reverse iterator over any range: offsets', 'RNG POS(i) xv_assume(i - d > 0 && i - d <= N); const R r(p + i); const R a = r + d; XV(&*a == p + (i - d - 1)); const R b = d + r; XV(b == a); R c = r; R& e = (c += d); XV(&e == &c); XV(c == a); const R f = a - d; XV(f == r); R g = a; R& h = (g -= d); XV(&h == &g); XV(g == r); XV(a - r == d); XV(r - a == -d); XV(r - r == 0); XV(&r[d] == &*a || true); XV(&a[0] == &*a);', N + [('i64', 'i', (0, 9)), ('i64', 'd', (-5, 5))])
    sc('r_cmp', 'reverse iterator over any range: equality, ordering, distance', 'RNG POS(i) POS(j) const R r(p + i), s(p + j); XV((r == s) == (i == j)); XV((r != s) == (i != j)); XV((r < s) == (i > j)); XV((r > s) == (i < j)); XV((r <= s) == (i >= j)); XV((r >= s) == (i <= j)); XV(((r <=> s) < 0) == (i > j)); XV(((r <=> s) == 0) == (i == j)); XV(s - r == i - j); XV((r < s) == (s - r > 0));', N + I('i', 'j'))
    sc('r_mix', 'reverse iterators of convertible bases compare and convert', 'RNG POS(i) POS(j) const RU r((u8*)p + i); const R s(p + j); XV((r == s) == (i == j)); XV((s == r) == (i == j)); XV((r != s) == (i != j)); XV((r < s) == (i > j)); XV((r > s) == (i < j)); XV((r <= s) == (i >= j)); XV((r >= s) == (i <= j)); XV((s < r) == (j > i)); const R c = r; XV(c == R(p + i)); XV((c == s) == (i == j)); R t; t = r; XV(t == c);', N + I('i', 'j'))
    sc('r_whole', 'a reverse iterator range visits exactly the underlying range backwards', 'ARR xme::ReverseIterator<u64*> b(a + 6), e(a); u64 k = 0; for(auto r = b; r != e; ++r) { XV(*r == v + 5 - k); XV(&*r == a + (5 - k)); XV(r - b == i64(k)); ++k; } XV(k == 6); XV(e - b == 6); for(auto r = e; r != b;) { --r; --k; XV(*r == v + 5 - k); } XV(k == 0); *b = 9; XV(a[5] == 9); b[2] = v; XV(a[3] == v);', [('u64', 'v')])
    sc('r_ra', 'reverse iterator over a random access class iterator', 'ARR xv_assume(i > 1 && i <= 6 && j >= 0 && j < i); RR r(RA{a, i}); XV(*r == v + u64(i - 1)); XV(r.operator->() == a + (i - 1)); XV(&r[j] == a + (i - 1 - j)); RR s = r; ++s; XV(*s == v + u64(i - 2)); XV(s - r == 1); XV(r - s == -1); XV(r < s); XV(s > r); XV(!(s <= r)); XV(s >= r); --s; XV(s == r); s++; s--; XV(s == r); s += 1; XV(&*s == a + (i - 2)); s -= 1; XV(s == r); XV(&*(r + 1) == a + (i - 2)); XV(&*(1 + r) == a + (i - 2)); XV((r + 1) - 1 == r); *r = 5; XV(a[i - 1] == 5);', [('u64', 'v')] + [('i64', 'i', (0, 7)), ('i64', 'j', (0, 6))])
    sc('r_bidi', 'reverse iterator over a bidirectional class iterator', 'ARR using B = It<std::bidirectional_iterator_tag>; xv_assume(i > 1 && i <= 6); xme::ReverseIterator<B> r(B{a, i}); XV(*r == v + u64(i - 1)); XV(r.operator->() == a + (i - 1)); auto s = r; XV(s == r); ++s; XV(*s == v + u64(i - 2)); XV(!(s == r)); auto t = s--; XV(s == r); XV(t != r); t = s++; XV(t == r); --s; XV(s == r); XV((std::is_same_v<decltype(*r), const u64&>)); XV((std::is_same_v<decltype(r)::iterator_category, std::bidirectional_iterator_tag>)); XV(std::bidirectional_iterator<decltype(r)>);', [('u64', 'v'), ('i64', 'i', (0, 7))])
    sc('r_traits', 'types and concepts of reverse iterators', 'XV(std::random_access_iterator<R>); XV(std::random_access_iterator<RR>); XV(!std::contiguous_iterator<R>); XV((std::is_same_v<std::iter_value_t<RU>, u8>)); XV((std::is_same_v<std::iter_reference_t<RU>, u8&>)); XV((std::is_same_v<std::iter_difference_t<RU>, std::ptrdiff_t>)); XV((std::is_same_v<R::pointer, const u8*>)); XV((!std::is_convertible_v<R, RU>)); XV((std::is_convertible_v<RU, R>)); XV((std::is_same_v<R::iterator_concept, std::random_access_iterator_tag>)); XV((std::is_same_v<R::iterator_category, std::random_access_iterator_tag>));')
    sc('r_twice', 'reversing twice is the identity', 'RNG POS(i) xv_assume(i < N && i > 0); xme::ReverseIterator<R> q(R(p + i)); XV(&*q == p + i); ++q; XV(q == xme::ReverseIterator<R>(R(p + (i + 1)))); --q; XV(*q == IN(i)); XV(&*(q - 1) == p + (i - 1)); XV(q - 1 < q); XV(q > q - 1); XV(q - (q - 1) == 1);', N + I('i'))
    sc('r_const', 'reverse iterator of a constant iterator', 'ARR xv_assume(i > 1 && i <= 6); xme::ReverseIterator<xme::ConstIterator<u64*>> r{xme::ConstIterator<u64*>(a + i)}; XV(&*r == a + (i - 1)); XV((std::is_same_v<decltype(*r), const u64&>)); ++r; XV(*r == v + u64(i - 2)); XV(r[-1] == v + u64(i - 1)); --r; XV(r - (r + 1) == -1); XV(r < r + 1);', [('u64', 'v'), ('i64', 'i', (0, 7))])
    # ---- constant iterator
    sc('c_deref', 'constant iterator over any range: dereference, arrow, index', 'RNG POS(i) POS(j) xv_assume(i < N && i + j < N); const C c((u8*)p + i); XV(*c == IN(i)); XV(&*c == p + i); XV(c.operator->() == p + i); XV(c[j] == IN(i + j)); XV(&c[j] == p + (i + j)); XV((std::is_same_v<decltype(*c), const u8&>)); XV((std::is_same_v<decltype(c[j]), const u8&>)); XV((std::is_same_v<decltype(c.operator->()), const u8*>));', N + I('i', 'j'))
    sc('c_step', 'constant iterator over any range: increments and decrements', 'RNG POS(i) xv_assume(i > 0 && i + 1 < N); C c((u8*)p + i); C& s = ++c; XV(&s == &c); XV(&*c == p + (i + 1)); C& t = --c; XV(&t == &c); XV(&*c == p + i); C o = c++; XV(&*o == p + i); XV(&*c == p + (i + 1)); C q = c--; XV(&*q == p + (i + 1)); XV(&*c == p + i); XV(o == c); XV(q != c); --c; XV(&*c == p + (i - 1));', N + I('i'))
    sc('c_off', 'constant iterator over any range: offsets', 'RNG POS(i) xv_assume(i + d >= 0 && i + d < N && i < N); const C c((u8*)p + i); const C a = c + d; XV(&*a == p + (i + d)); XV(d + c == a); C e = c; C& f = (e += d); XV(&f == &e); XV(e == a); XV(a - d == c); C g = a; C& h = (g -= d); XV(&h == &g); XV(g == c); XV(a - c == d); XV(c - a == -d); XV(&c[d] == &*a);', N + [('i64', 'i', (0, 9)), ('i64', 'd', (-5, 5))])
    sc('c_cmp', 'constant iterator over any range: equality, ordering, distance', 'RNG POS(i) POS(j) const C r((u8*)p + i), s((u8*)p + j); XV((r == s) == (i == j)); XV((r != s) == (i != j)); XV((r < s) == (i < j)); XV((r > s) == (i > j)); XV((r <= s) == (i <= j)); XV((r >= s) == (i >= j)); XV(((r <=> s) < 0) == (i < j)); XV(((r <=> s) == 0) == (i == j)); XV(r - s == i - j);', N + I('i', 'j'))
    sc('c_mix', 'constant iterators compare with their base', 'RNG POS(i) POS(j) const C r((u8*)p + i); u8* const b = (u8*)p + j; XV((r == b) == (i == j)); XV((b == r) == (i == j)); XV((r != b) == (i != j)); XV((r < b) == (i < j)); XV((r > b) == (i > j)); XV((r <= b) == (i <= j)); XV((r >= b) == (i >= j)); XV((b < r) == (j < i)); XV((b >= r) == (j >= i)); XV(((r <=> b) < 0) == (i < j)); XV(r - b == i - j); XV(b - r == j - i); const u8* q = p + j; XV((r == q) == (i == j)); XV((r < q) == (i < j)); XV((r > q) == (i > j)); XV((r <= q) == (i <= j)); XV((r >= q) == (i >= j)); XV(r - q == i - j); XV(q - r == j - i);', N + I('i', 'j'))
    sc('c_no3', 'constant iterators over a base without three-way comparison', 'ARR xv_assume(i >= 0 && i <= 6 && j >= 0 && j <= 6); using CN = xme::ConstIterator<RN>; const CN r(RN{a, i}), s(RN{a, j}); const RN b{a, j}; XV((r < s) == (i < j)); XV((r > s) == (i > j)); XV((r <= s) == (i <= j)); XV((r >= s) == (i >= j)); XV((r == s) == (i == j)); XV((r != s) == (i != j)); XV(r - s == i - j); XV((r < b) == (i < j)); XV((r > b) == (i > j)); XV((r <= b) == (i <= j)); XV((r >= b) == (i >= j)); XV((r == b) == (i == j)); XV((b == r) == (i == j)); XV(r - b == i - j);', [('u64', 'v'), ('i64', 'i', (0, 6)), ('i64', 'j', (0, 6))])
    sc('c_conv', 'constant iterators are built from the base and from convertible constant iterators', 'ARR xv_assume(i >= 0 && i < 6); xme::ConstIterator<u64*> c = a + i; XV(&*c == a + i); xme::ConstIterator<AIt> x(AIt(a + i)); XV(&*x == a + i); XV((std::is_same_v<decltype(*x), const u64&>)); xme::ConstIterator<ACIt> y(AIt(a + i)); XV(&*y == a + i); xme::ConstIterator<ACIt> z = x; XV(&*z == a + i); z = x; XV(&*z == a + i); xme::ConstIterator<u64*> d; d = c; XV(d == c); XV((!std::is_convertible_v<xme::ConstIterator<u64*>, u64*>));', [('u64', 'v'), ('i64', 'i', (0, 5))])
    sc('c_whole', 'a constant iterator range visits exactly the underlying range, read-only', 'ARR xme::ConstIterator<u64*> b(a), e(a + 6); u64 k = 0; for(auto r = b; r != e; ++r) { XV(*r == v + k); XV(&*r == a + k); XV(r - b == i64(k)); ++k; } XV(k == 6); XV(e - b == 6); XV((!std::is_assignable_v<decltype(*b), u64>)); XV((!std::is_assignable_v<decltype(b[0]), u64>));', [('u64', 'v')])
    sc('c_ra', 'constant iterator over a random access class iterator', 'ARR xv_assume(i > 0 && i < 5 && j >= 0 && i + j < 6); CR r(RA{a, i}); XV(*r == v + u64(i)); XV(&*r == a + i); XV(r.operator->() == a + i); XV(&r[j] == a + (i + j)); XV((std::is_same_v<decltype(*r), const u64&>)); CR s = r; ++s; XV(*s == v + u64(i + 1)); XV(s - r == 1); XV(r < s); XV(s > r); XV(s >= r); XV(r <= s); --s; XV(s == r); s++; s--; XV(s == r); s += 1; XV(&*s == a + (i + 1)); s -= 2; XV(&*s == a + (i - 1)); XV(&*(r + 1) == a + (i + 1)); XV(&*(1 + r) == a + (i + 1)); XV((r + 1) - 1 == r); End e{6}; XV(!(r == e)); XV(r - e == i - 6); XV(e - r == 6 - i); r += 6 - i; XV(r == e);', [('u64', 'v'), ('i64', 'i', (0, 6)), ('i64', 'j', (0, 6))])
    sc('c_fwd', 'constant iterator over forward, input and bidirectional class iterators', 'ARR using F = It<std::forward_iterator_tag>; using IN_ = It<std::input_iterator_tag>; using B = It<std::bidirectional_iterator_tag>; xv_assume(i >= 0 && i < 5); xme::ConstIterator<F> f(F{a, i}); XV(*f == v + u64(i)); XV(f.operator->() == a + i); auto g = f++; XV(*g == v + u64(i)); XV(*f == v + u64(i) + 1); ++g; XV(f == g); xme::ConstIterator<IN_> n(IN_{a, i}); XV(*n == v + u64(i)); ++n; XV(*n == v + u64(i) + 1); xme::ConstIterator<B> b(B{a, i}); ++b; auto c = b--; XV(*b == v + u64(i)); XV(*c == v + u64(i) + 1); --c; XV(c == b); XV((std::is_same_v<xme::ConstIterator<F>::iterator_concept, std::forward_iterator_tag>)); XV((std::is_same_v<xme::ConstIterator<B>::iterator_concept, std::bidirectional_iterator_tag>)); XV((std::is_same_v<xme::ConstIterator<IN_>::iterator_concept, std::input_iterator_tag>)); XV((std::is_same_v<CR::iterator_concept, std::random_access_iterator_tag>)); XV((std::is_same_v<C::iterator_concept, std::contiguous_iterator_tag>)); XV((std::forward_iterator<xme::ConstIterator<F>>)); XV((std::bidirectional_iterator<xme::ConstIterator<B>>)); XV(std::random_access_iterator<CR>);', [('u64', 'v'), ('i64', 'i', (0, 4))])
    sc('c_make', 'make_const_iterator and make_const_sentinel', 'ARR xv_assume(i >= 0 && i < 6); auto c = xme::make_const_iterator(a + i); XV((std::is_same_v<decltype(c), xme::ConstIterator<u64*>>)); XV(&*c == a + i); const u64* q = a + i; auto d = xme::make_const_iterator(q); XV((std::is_same_v<decltype(d), const u64*>)); XV(d == q); auto s = xme::make_const_sentinel(a + i); XV((std::is_same_v<decltype(s), xme::ConstIterator<u64*>>)); XV(&*s == a + i); auto e = xme::make_const_sentinel(End{i}); XV((std::is_same_v<decltype(e), End>)); XV(e.n == i); XV(xme::CConstantIterator<const u64*>); XV(!xme::CConstantIterator<u64*>); XV(xme::CConstantIterator<ACIt>); XV(!xme::CConstantIterator<AIt>); XV(xme::CConstantIterator<xme::ConstIterator<u64*>>);', [('u64', 'v'), ('i64', 'i', (0, 5))])
    return S
