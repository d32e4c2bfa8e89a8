"""C10 find, C11 reverse: every instruction-set configuration, element size, iterator kind, unbounded length."""
from xvc.scen import Sc
CFG = [('avx2', ('XME_SIMD_ENABLE_AVX2',), ('-mavx2',)), ('sse41', ('XME_SIMD_ENABLE_SSE41',), ('-msse4.1',)), ('sse2', ('XME_SIMD_ENABLE_SSE2',), ('-msse2',)), ('scalar', (), ('-msse2',))]
ITERS = '''
#include <span>
#include <vector>
#include <execution>
#include <iterator>
#include <compare>
using u8 = unsigned char; using u16 = unsigned short; using i32 = int;
enum class Col : u16 { red }; enum Old : unsigned { a0 };
struct Low7 { u8 c; friend bool operator==(const Low7& a, const Low7& b) { return ((a.c ^ b.c) & 0x7f) == 0; } };
struct Wide { u64 a, b; friend bool operator==(const Wide& x, const Wide& y) { return x.a == y.a; } };
// bidirectional, not contiguous
template<class T> struct Bi { using value_type = T; using difference_type = i64; using reference = T&; using pointer = T*; using iterator_category = std::bidirectional_iterator_tag;
  T* p = nullptr; T& operator*() const { return *p; } Bi& operator++() { ++p; return *this; } Bi operator++(int) { Bi t = *this; ++p; return t; } Bi& operator--() { --p; return *this; } Bi operator--(int) { Bi t = *this; --p; return t; } bool operator==(const Bi& o) const { return p == o.p; } };
// forward only
template<class T> struct Fw { using value_type = std::remove_const_t<T>; using difference_type = i64; using reference = T&; using pointer = T*; using iterator_category = std::forward_iterator_tag;
  T* p = nullptr; T& operator*() const { return *p; } Fw& operator++() { ++p; return *this; } Fw operator++(int) { Fw t = *this; ++p; return t; } bool operator==(const Fw& o) const { return p == o.p; } };
// random access, not contiguous
template<class T> struct Ra { using value_type = std::remove_const_t<T>; using difference_type = i64; using reference = T&; using pointer = T*; using iterator_category = std::random_access_iterator_tag;
  T* p = nullptr; T& operator*() const { return *p; } T& operator[](i64 n) const { return p[n]; } Ra& operator++() { ++p; return *this; } Ra operator++(int) { Ra t = *this; ++p; return t; } Ra& operator--() { --p; return *this; } Ra operator--(int) { Ra t = *this; --p; return t; }
  Ra& operator+=(i64 n) { p += n; return *this; } Ra& operator-=(i64 n) { p -= n; return *this; } Ra operator+(i64 n) const { return {p + n}; } Ra operator-(i64 n) const { return {p - n}; } friend Ra operator+(i64 n, Ra r) { return {r.p + n}; }
  i64 operator-(const Ra& o) const { return p - o.p; } bool operator==(const Ra& o) const { return p == o.p; } auto operator<=>(const Ra& o) const { return p <=> o.p; } };
// a sentinel that is not an iterator
template<class T> struct Stop { T* e; friend bool operator==(T* const& p, const Stop& s) { return p == s.e; } };
'''
HF = '#include <xme/core/algorithm/find.hpp>\n' + ITERS
HR = '#include <xme/core/algorithm/reverse.hpp>\n' + ITERS
def needle(r): return r.choice([0, 1, 2, 3, 255, 256, 257, 300, 0x10001, 0x80000000, 1 << 32, (1 << 64) - 1]) if r.random() < .5 else r.randint(0, 3)
R = [('u64', 'n', (0, 140)), ('u64', 'v', needle), ('u64', 'k', (0, 140))]
def find():
    S = []
    def sc(n, w, b, p=R, **k): S.append(Sc(n, w, list(p), b, cost=k.pop('cost', 0), **k))
    def first(get, eq):
        return 'XV(i <= n); if(i < n) XV(%s); XV_ALL(k, i) XV(!(%s));' % (eq % (get % 'i'), eq % (get % 'k'))
    SRC = 'xv_assume(n <= (u64(1) << 40)); const T* p = (const T*)xv_data(n, 1, sizeof(T), 0); '
    for t, ct in [('u8', 'u8'), ('char', 'char'), ('i16', 'short'), ('u32', 'u32'), ('i64', 'i64'), ('enum', 'Col'), ('olde', 'Old'), ('c16', 'char16_t'), ('byte', 'std::byte'), ('ull', 'unsigned long long')]:
        sc('f_' + t, 'find in %s elements at any address' % ct, 'using T = %s; ' % ct + SRC + 'const T w = T(v); auto r = xme::find(p, p + n, w); const u64 i = u64(r - p); ' + first('p[%s]', '%s == w'), cost=2)
    sc('f_ptr', 'find in pointers', 'using T = const char*; ' + SRC + 'const T w = (T)v; auto r = xme::find(p, p + n, w); const u64 i = u64(r - p); ' + first('u64(p[%s])', '%s == v'))
    sc('f_mut', 'find in a mutable range leaves it alone', 'using T = u32; xv_assume(n <= (u64(1) << 40)); T* p = (T*)xv_data(n, 1, sizeof(T), 1); const T w = T(v); auto r = xme::find(p, p + n, w); const u64 i = u64(r - p); if(k < n) XV(p[k] == T(xv_in(1, k))); XV(w == T(v)); ' + first('p[%s]', '%s == w'))
    sc('f_span', 'find in a range object', 'using T = u16; ' + SRC + 'std::span<const T> s(p, n); const T w = T(v); auto r = xme::find(s, w); const u64 i = u64(r - s.begin()); ' + first('p[%s]', '%s == w'))
    sc('f_seq', 'find with a sequenced policy', 'using T = u8; ' + SRC + 'const T w = T(v); auto r = xme::find<std::execution::sequenced_policy>(p, p + n, w); const u64 i = u64(r - p); ' + first('p[%s]', '%s == w'))
    sc('f_seqr', 'find in a range object with a sequenced policy', 'using T = u32; ' + SRC + 'std::span<const T> s(p, n); const T w = T(v); auto r = xme::find<std::execution::sequenced_policy>(s, w); const u64 i = u64(r - s.begin()); ' + first('p[%s]', '%s == w'))
    sc('f_fw', 'find over a forward iterator', 'using T = u16; ' + SRC + 'const T w = T(v); auto r = xme::find(Fw<const T>{p}, Fw<const T>{p + n}, w); const u64 i = u64(r.p - p); ' + first('p[%s]', '%s == w'))
    sc('f_ra', 'find over a random access iterator that is not contiguous', 'using T = u8; ' + SRC + 'const T w = T(v); auto r = xme::find(Ra<const T>{p}, Ra<const T>{p + n}, w); const u64 i = u64(r - Ra<const T>{p}); ' + first('p[%s]', '%s == w'))
    sc('f_stop', 'find up to a sentinel', 'using T = u8; ' + SRC + 'const T w = T(v); auto r = xme::find(p, Stop<const T>{p + n}, w); const u64 i = u64(r - p); ' + first('p[%s]', '%s == w'))
    sc('f_low7', 'find uses the equality of the element type', 'using T = Low7; ' + SRC + 'const T w{u8(v)}; auto r = xme::find(p, p + n, w); const u64 i = u64(r - p); ' + first('p[%s]', '%s == w'))
    sc('f_el', 'find in elements of class type', 'xv_assume(n <= (u64(1) << 40)); E* p = (E*)xv_elems(n, 1, sizeof(E)); { const E w(v); auto r = xme::find(p, p + n, w); const u64 i = u64(r - p); ' + first('p[%s].v()', '%s == v') + ' }')
    sc('f_flt', 'find in floating point elements', 'using T = double; xv_assume(n <= (u64(1) << 40)); const u64* q = (const u64*)xv_data(n, 1, 8, 0); const T* p = (const T*)q; const T w = std::bit_cast<T>(v); auto r = xme::find(p, p + n, w); const u64 i = u64(r - p); ' + first('std::bit_cast<T>(xv_in(1, %s))', '%s == w'), [('u64', 'n', (0, 12)), ('u64', 'v'), ('u64', 'k', (0, 12))])
    sc('f_arr', 'find in a small array', 'using T = u32; T a[5] = {1, 2, v1, 4, v1}; auto r = xme::find(a, v1); XV(r == a + (v1 == 1 ? 0 : v1 == 2 ? 1 : 2)); auto q = xme::find(a, 4u); XV(q == a + (v1 == 4 ? 2 : 3)); const T none = v1 ^ 0x100; if(none != 1 && none != 2 && none != 4) XV(xme::find(a, none) == a + 5); XV(a[2] == v1);', [('u32', 'v1')])
    return S
def reverse():
    S = []
    P = [('u64', 'n', (0, 140)), ('u64', 'k', (0, 140))]
    def sc(n, w, b, p=P, **k): S.append(Sc(n, w, list(p), b, cost=k.pop('cost', 0), **k))
    SRC = 'xv_assume(n <= (u64(1) << 40)); T* p = (T*)xv_data(n, 1, sizeof(T), 1); '
    CHK = 'XV_ALL(k, n) XV(p[k] == T(xv_in(1, n - 1 - k)));'
    for t, ct in [('u8', 'u8'), ('char', 'char'), ('i16', 'short'), ('u32', 'u32'), ('i64', 'i64'), ('enum', 'Col'), ('byte', 'std::byte')]:
        sc('v_' + t, 'reverse of %s elements at any address' % ct, 'using T = %s; ' % ct + SRC + 'auto r = xme::reverse(p, p + n); XV(r == p + n); ' + CHK, cost=2)
    sc('v_span', 'reverse of a range object', 'using T = u8; ' + SRC + 'std::span<T> s(p, n); xme::reverse(s); ' + CHK)
    sc('v_span4', 'reverse of a range object of wider elements', 'using T = u32; ' + SRC + 'std::span<T> s(p, n); xme::reverse(s); ' + CHK)
    sc('v_el', 'reverse of elements of class type', 'xv_assume(n <= (u64(1) << 40)); Al<E> al; E* p = al.allocate(n); for(u64 i = 0; i < n; ++i) new(p + i) E(xv_in(1, i)); { auto r = xme::reverse(p, p + n); XV(r == p + n); if(k < n) XV(p[k].v() == xv_in(1, n - 1 - k)); } for(u64 i = 0; i < n; ++i) p[i].~E(); al.deallocate(p, n);')
    sc('v_arr', 'reverse of a small array', 'u32 a[5] = {1, 2, v1, 4, 5}; xme::reverse(a); XV(a[0] == 5 && a[1] == 4 && a[2] == v1 && a[3] == 2 && a[4] == 1);', [('u32', 'v1')])
    sc('v_bi', 'reverse over a bidirectional iterator', 'using T = u8; ' + SRC + 'xme::reverse(Bi<T>{p}, Bi<T>{p + n}); ' + CHK)
    sc('v_ra', 'reverse over a random access iterator that is not contiguous', 'using T = u16; ' + SRC + 'xme::reverse(Ra<T>{p}, Ra<T>{p + n}); ' + CHK)
    sc('v_stop', 'reverse up to a sentinel', 'using T = u8; ' + SRC + 'auto r = xme::reverse(p, Stop<T>{p + n}); XV(r == p + n); ' + CHK)
    return S

# the configurations differ in the vector code only, so what does not reach it is checked in one of them
SKIP = {'avx2': (), 'sse41': None, 'sse2': ('f_char', 'f_byte', 'f_c16', 'f_olde', 'f_seqr', 'f_el', 'f_arr', 'v_char', 'v_byte', 'v_el'), 'scalar': None}
ONLY = {'sse41': ('f_u8', 'f_i64', 'f_ull', 'f_ptr', 'v_u8', 'v_i16', 'v_u32', 'v_i64', 'v_span'), 'scalar': ('f_u8', 'f_i64', 'f_span', 'f_flt', 'v_u8', 'v_u32', 'v_span', 'v_bi')}
def pick(scs, cfg):
    if cfg in ONLY: return [s for s in scs if s.name in ONLY[cfg]]
    return [s for s in scs if s.name not in SKIP[cfg]]
