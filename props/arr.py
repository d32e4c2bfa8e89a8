"""C12, C13, C14: xme::Array."""
from xvc.scen import Sc, Builder
ITERS = '''// a forward iterator that is nothing more, and an end that is not an iterator
template<class X> struct Fwd { using value_type = std::remove_const_t<X>; using difference_type = i64; using reference = X&; using pointer = X*; using iterator_category = std::forward_iterator_tag;
  X* p = nullptr; X& operator*() const { return *p; } X* operator->() const { return p; } Fwd& operator++() { ++p; return *this; } Fwd operator++(int) { Fwd t = *this; ++p; return t; } bool operator==(const Fwd& o) const { return p == o.p; } };
template<class X> struct Fend { X* e; friend bool operator==(const Fwd<X>& p, const Fend& s) { return p.p == s.e; } };
// one pass only: what was passed is gone
template<class X> struct Inp { using value_type = std::remove_const_t<X>; using difference_type = i64; using iterator_concept = std::input_iterator_tag;
  X* p = nullptr; X& operator*() const { return *p; } Inp& operator++() { ++p; return *this; } void operator++(int) { ++p; } };
template<class X> struct Iend { X* e; friend bool operator==(const Inp<X>& p, const Iend& s) { return p.p == s.e; } };
'''
H = '''#include <span>
#include <initializer_list>
#include <xme/container/array.hpp>
using Arr = xme::Array<E, Al<E>>;
using ArrT = xme::Array<ET, Al<ET, true>>;
''' + ITERS + '''
template<class A> inline void inv(const A& a) { xv_inv(a.data(), a.size(), a.capacity(), sizeof(typename A::value_type)); }
'''
def builder(nm, cpp, el):
    return Builder(nm, cpp, '''xv_assume(cap <= (u64(1) << 40) && n <= cap && null <= 1);
      if(null) { xv_assume(cap == 0); new(place) %s(); auto* a = (%s*)place; xv_gen(a->data(), a->size(), a->capacity(), tag, sizeof(%s)); }
      else { %s* p = (%s*)xv_elems(n, tag, sizeof(%s)); auto* a = new(place) %s(p, p + n); if(cap > n) a->reserve(cap);
      xv_gen(a->data(), a->size(), a->capacity(), tag, sizeof(%s)); }''' % (cpp, cpp, el, el, el, el, cpp, el), 'x.~%s();' % cpp, ('n', 'cap', 'null'))
A = builder('A', 'Arr', 'E')
T = builder('T', 'ArrT', 'ET')
V = 'xv_in(%d, %s)'
def seq(a, n, expr, k='k'):
    """the contents of array a are exactly `expr` over index k, for i < n"""
    return 'XV(%s.size() == %s); if(%s < %s) { XV(%s[%s].v() == (%s)); } ' % (a, n, k, n, a, k, expr)
def scenarios():
    S = []
    U = lambda *n: [('u64', x) for x in n]
    def sc(n, w, b, p=(), st=((A, 'a'),), **k): S.append(Sc(n, w, list(p), b, states=st, cost=(n == 'a_insg') + 2 * n.startswith('a_insr') + n.startswith('a_ins'), **k))
    pre = 'const u64 n = a.size(), c = a.capacity(); '
    D = '&a[0]'
    # ---- construction
    sc('a_ctor0', 'default construction', '{ Arr a; XV(a.size() == 0); XV(a.capacity() == 0); XV(a.empty()); XV(a.begin() == a.end()); }', st=())
    sc('a_ctorn', 'construction with a capacity', 'xv_assume(m <= (u64(1) << 40)); { Arr a(m); XV(a.size() == 0); XV(a.capacity() == m); XV(a.empty()); inv(a); Arr b(std::move(a)); }', U('m'), st=())
    sc('a_fill', 'construction from a count and a value', 'xv_assume(m <= (u64(1) << 40)); { E e(v); Arr a(m, e); ' + seq('a', 'm', 'v') + 'XV(a.capacity() == m); XV(e.v() == v); inv(a); }', U('m', 'v', 'k'), st=())
    sc('a_range', 'construction from a range', 'xv_assume(m <= (u64(1) << 40)); { E* p = (E*)xv_elems(m, 1, sizeof(E)); Arr a(p, p + m); ' + seq('a', 'm', V % (1, 'k')) + 'XV(a.capacity() == m); inv(a); }', U('m', 'k'), st=())
    sc('a_rangef', 'construction from forward iterators', 'xv_assume(m <= (u64(1) << 40)); { E* p = (E*)xv_elems(m, 1, sizeof(E)); Arr a(Fwd<E>{p}, Fwd<E>{p + m}); ' + seq('a', 'm', V % (1, 'k')) + 'XV(a.capacity() == m); inv(a); }', U('m', 'k'), st=())
    sc('a_ranges', 'construction from a forward iterator up to a sentinel', 'xv_assume(m <= (u64(1) << 40)); { E* p = (E*)xv_elems(m, 1, sizeof(E)); Arr a(Fwd<const E>{p}, Fend<const E>{p + m}); ' + seq('a', 'm', V % (1, 'k')) + 'XV(a.capacity() == m); inv(a); }', U('m', 'k'), st=())
    sc('a_copy', 'copy construction', '{ Arr b(a); ' + pre + seq('b', 'n', V % (1, 'k')) + seq('a', 'n', V % (1, 'k')) + 'XV(b.capacity() == n); if(n) XV(b.data() != a.data()); inv(b); } inv(a);', U('k'))
    sc('a_move', 'move construction', pre + 'const auto* d = a.data(); { Arr b(std::move(a)); ' + seq('b', 'n', V % (1, 'k')) + 'XV(b.capacity() == c); XV(b.data() == d); XV(a.size() == 0); XV(a.capacity() == 0); XV(a.empty()); inv(b); inv(a); }', U('k'))
    # ---- removal
    sc('a_pop', 'pop_back', pre + 'xv_assume(n > 0); a.pop_back(); ' + seq('a', 'n - 1', V % (1, 'k')) + 'XV(a.capacity() == c); inv(a);', U('k'))
    sc('a_clear', 'clear', pre + 'a.clear(); XV(a.size() == 0); XV(a.capacity() == c); inv(a);')
    sc('a_dtor', 'destructor', 'a.~Arr();', rm=False)
    sc('a_erase', 'erase of one element', pre + 'xv_assume(p < n); auto it = a.erase(a.begin() + p); XV(it == a.begin() + p); ' + seq('a', 'n - 1', 'k < p ? xv_in(1, k) : xv_in(1, k + 1)') + 'XV(a.capacity() == c); inv(a);', U('p', 'k'))
    sc('a_eraser', 'erase of a range', pre + 'xv_assume(p <= q && q <= n); auto it = a.erase(a.begin() + p, a.begin() + q); XV(it == a.begin() + p); ' + seq('a', 'n - (q - p)', 'k < p ? xv_in(1, k) : xv_in(1, k + (q - p))') + 'XV(a.capacity() == c); inv(a);', U('p', 'q', 'k'))
    # ---- capacity
    sc('a_reserve', 'reserve', pre + 'xv_assume(m <= (u64(1) << 40)); a.reserve(m); ' + seq('a', 'n', V % (1, 'k')) + 'XV(a.capacity() == (m > c ? m : c)); inv(a);', U('m', 'k'))
    sc('a_resize', 'resize', pre + 'xv_assume(m <= (u64(1) << 40)); a.resize(m); ' + seq('a', '(m < n ? m : n)', V % (1, 'k')) + 'XV(a.capacity() == m); inv(a);', U('m', 'k'))
    # ---- appending
    sc('a_push', 'push_back of a copy', pre + '{ E e(v); a.push_back(e); XV(e.v() == v); } ' + seq('a', 'n + 1', 'k < n ? xv_in(1, k) : v') + 'XV(a.capacity() == (n < c ? c : n + (n ? n : 1))); inv(a);', U('v', 'k'))
    # an element of the array itself is appended: it is the value it had before the call
    CAP1 = 'XV(a.capacity() == (n < c ? c : n + (n ? n : 1))); inv(a);'
    sc('a_pushm', 'push_back of a temporary', pre + 'a.push_back(E(v)); ' + seq('a', 'n + 1', 'k < n ? xv_in(1, k) : v') + CAP1, U('v', 'k'))
    sc('a_pushc', 'push_back of a convertible value', pre + 'a.push_back(v); ' + seq('a', 'n + 1', 'k < n ? xv_in(1, k) : v') + CAP1, U('v', 'k'))
    sc('a_pushs', 'push_back of an element of the array', pre + 'xv_assume(p < n); a.push_back(a[p]); ' + seq('a', 'n + 1', 'k < n ? xv_in(1, k) : xv_in(1, p)') + CAP1, U('p', 'k'))
    sc('a_emp', 'emplace_back', pre + 'E& r = a.emplace_back(v); XV(&r == &a[n]); ' + seq('a', 'n + 1', 'k < n ? xv_in(1, k) : v') + CAP1, U('v', 'k'))
    sc('a_emps', 'emplace_back of an element of the array', pre + 'xv_assume(p < n); E& r = a.emplace_back(a[p]); XV(&r == &a[n]); ' + seq('a', 'n + 1', 'k < n ? xv_in(1, k) : xv_in(1, p)') + CAP1, U('p', 'k'))
    SRC = 'xv_assume(m <= (u64(1) << 40)); E* s = (E*)xv_elems(m, 2, sizeof(E)); '
    PR = seq('a', 'n + m', 'k < n ? xv_in(1, k) : xv_in(2, k - n)') + 'XV(a.capacity() == (n + m > c ? n + m : c)); inv(a);'
    sc('a_pushr', 'push_back of an iterator range', pre + SRC + 'a.push_back(s, s + m); ' + PR, U('m', 'k'))
    sc('a_pushrf', 'push_back from forward iterators', pre + SRC + 'a.push_back(Fwd<E>{s}, Fwd<E>{s + m}); ' + PR, U('m', 'k'))
    sc('a_pushrs', 'push_back from a forward iterator up to a sentinel', pre + SRC + 'a.push_back(Fwd<const E>{s}, Fend<const E>{s + m}); ' + PR, U('m', 'k'))
    sc('a_pushr2', 'push_back of a range', pre + SRC + 'std::span<E> r(s, m); a.push_back(r); ' + PR, U('m', 'k'))
    # ---- insertion
    INS = lambda v: seq('a', 'n + 1', 'k < p ? xv_in(1, k) : k == p ? %s : xv_in(1, k - 1)' % v) + 'XV(it == a.begin() + p); ' + CAP1
    for nm, w, e, v, ps in [('a_ins', 'insert of a copy', 'e', 'v', U('p', 'v', 'k')), ('a_insm', 'insert of a temporary', 'E(v)', 'v', U('p', 'v', 'k')),
                            ('a_insc', 'insert of a convertible value', 'v', 'v', U('p', 'v', 'k')), ('a_inss', 'insert of an element of the array', 'a[q]', 'xv_in(1, q)', U('p', 'q', 'k'))]:
        for h, hw, cond in [('e', 'at the end', 'p == n'), ('m', 'in the middle', 'p < n && n < c'), ('f', 'in the middle of a full array', 'p < n && n == c')]:
            if e == 'e': b = '{ E e(v); auto it = a.insert(a.begin() + p, e); XV(e.v() == v); %s}' % INS(v)
            else: b = ('xv_assume(q < n); ' if e == 'a[q]' else '') + 'auto it = a.insert(a.begin() + p, %s); ' % e + INS(v)
            sc(nm + h, w + ' ' + hw, pre + 'xv_assume(%s); ' % cond + b, ps)
    INR = seq('a', 'n + m', 'k < p ? xv_in(1, k) : k - p < m ? xv_in(2, k - p) : xv_in(1, k - m)') + 'XV(it == a.begin() + p); XV(a.capacity() == (n + m <= c ? c : c ? c + m : m)); inv(a);'
    for h, hw, cond in [('r', 'that needs more storage', 'n + m > c'), ('s', 'shorter than what follows', 'n + m <= c && m < n - p'), ('l', 'at least as long as what follows', 'n + m <= c && m >= n - p')]:
        sc('a_insr' + h, 'insert of an iterator range ' + hw, pre + SRC + 'xv_assume(p <= n && %s); auto it = a.insert(a.begin() + p, s, s + m); ' % cond + INR, U('p', 'm', 'k'))
    for h, hw, cond in [('r', 'that needs more storage', 'n + m > c'), ('s', 'shorter than what follows', 'n + m <= c && m < n - p'), ('l', 'at least as long as what follows', 'n + m <= c && m >= n - p')]:
        sc('a_insf' + h, 'insert from forward iterators ' + hw, pre + SRC + 'xv_assume(p <= n && %s); auto it = a.insert(a.begin() + p, Fwd<E>{s}, Fwd<E>{s + m}); ' % cond + INR, U('p', 'm', 'k'))
    sc('a_insg', 'insert of a range', pre + SRC + 'xv_assume(p <= n); std::span<E> r(s, m); auto it = a.insert(a.begin() + p, r); ' + INR, U('p', 'm', 'k'))
    # ---- assignment, swap
    two = ((A, 'a'), (A, 'b'))
    pre2 = pre + 'const u64 n2 = b.size(), c2 = b.capacity(); '
    sc('a_asgc', 'copy assignment', pre2 + 'Arr& r = (a = b); XV(&r == &a); ' + seq('a', 'n2', V % (2, 'k')) + seq('b', 'n2', V % (2, 'k')) + 'XV(a.capacity() == n2); XV(b.capacity() == c2); inv(a); inv(b);', U('k'), two)
    sc('a_asgs', 'copy assignment to itself', pre + 'const Arr& o = a; Arr& r = (a = o); XV(&r == &a); ' + seq('a', 'n', V % (1, 'k')) + 'XV(a.capacity() == n); inv(a);', U('k'))
    sc('a_asgm', 'move assignment', pre2 + 'const auto* d = b.data(); Arr& r = (a = std::move(b)); XV(&r == &a); ' + seq('a', 'n2', V % (2, 'k')) + 'XV(a.capacity() == c2); XV(a.data() == d); XV(b.size() == 0); XV(b.capacity() == 0); inv(a); inv(b);', U('k'), two)
    sc('a_asgms', 'move assignment to itself', pre + 'Arr& o = a; Arr& r = (a = std::move(o)); XV(&r == &a); ' + seq('a', 'n', V % (1, 'k')) + 'XV(a.capacity() == c); inv(a);', U('k'))
    sc('a_swap', 'swap', pre2 + 'const auto* d = a.data(); const auto* d2 = b.data(); a.swap(b); ' + seq('a', 'n2', V % (2, 'k')) + seq('b', 'n', V % (1, 'k')) + 'XV(a.capacity() == c2); XV(b.capacity() == c); XV(a.data() == d2); XV(b.data() == d); inv(a); inv(b);', U('k'), two)
    sc('a_swaps', 'swap with itself', pre + 'a.swap(a); ' + seq('a', 'n', V % (1, 'k')) + 'XV(a.capacity() == c); inv(a);', U('k'))
    IL = 'E x0(v), x1(w), x2(x); std::initializer_list<E> l{x0, x1, x2}; '
    ILV = 'k == 0 ? v : k == 1 ? w : x'
    sc('a_il', 'construction from an initializer list', '{ ' + IL + 'Arr a(l); ' + seq('a', '3', ILV) + 'XV(a.capacity() == 3); inv(a); Arr b{E(v), E(w)}; ' + seq('b', '2', ILV) + ' Arr d(std::initializer_list<E>{}); XV(d.size() == 0); XV(d.empty()); }', U('v', 'w', 'x', 'k'), ())
    sc('a_asgi', 'assignment of an initializer list', '{ ' + IL + 'Arr& r = (a = l); XV(&r == &a); ' + seq('a', '3', ILV) + 'XV(a.capacity() == 3); inv(a); }', U('v', 'w', 'x', 'k'))
    sc('a_ctorr', 'construction from a range object', SRC + '{ std::span<E> r(s, m); Arr b(r); ' + seq('b', 'm', V % (2, 'k')) + 'XV(b.capacity() == m); inv(b); Al<E> al; Arr d(al); XV(d.size() == 0); XV(d.capacity() == 0); XV(d.data() == nullptr); inv(d); }', U('m', 'k'), ())
    # ---- access and iteration
    CONST = 'const Arr& o = a; '
    sc('a_acc', 'element access', pre + CONST + 'xv_assume(n > 0 && k < n); XV(&a[k] == a.data() + k); XV(&o[k] == o.data() + k); XV(a.data() == o.data()); XV(a[k].v() == xv_in(1, k)); XV(&a.front() == a.data()); XV(&o.front() == a.data()); XV(&a.back() == a.data() + (n - 1)); XV(&o.back() == &a.back()); XV(&a.at(k) == &a[k]); XV(!a.empty()); XV(bool(a)); ' if False else
       pre + CONST + 'xv_assume(n > 0 && k < n); XV(&a[k] == a.data() + k); XV(&o[k] == o.data() + k); XV(a.data() == o.data()); XV(a[k].v() == xv_in(1, k)); XV(&a.front() == a.data()); XV(&o.front() == a.data()); XV(&a.back() == a.data() + (n - 1)); XV(&o.back() == &a.back()); XV(!a.empty()); inv(a);', U('k'))
    sc('a_it', 'iterators', pre + CONST + '''xv_assume(i <= n && j <= n && k < n); auto b = a.begin(), e = a.end(); auto cb = o.begin(), ce = o.end();
      XV(b.operator->() == a.data()); XV(cb.operator->() == a.data()); XV(u64(e - b) == n); XV(u64(ce - cb) == n); Arr::const_iterator y = b; XV(y == cb); XV(a.empty() == (n == 0)); 
      auto p = b + i, q = b + j; XV(p - q == i64(i - j)); XV((p == q) == (i == j)); XV((p != q) == (i != j)); XV((p < q) == (i < j)); XV((p > q) == (i > j)); XV((p <= q) == (i <= j)); XV((p >= q) == (i >= j));
      XV(i64(i) + b == p); XV(p - i64(i) == b); auto r = b; XV(&(r += i) == &r); XV(r == p); XV(&(r -= i) == &r); XV(r == b); r = b + k; XV(&*r == a.data() + k); XV(&b[k] == a.data() + k); XV(r.operator->() == a.data() + k); XV((*r).v() == xv_in(1, k));
      auto s = r++; XV(s == b + k); XV(r == b + (k + 1)); auto t = r--; XV(t == b + (k + 1)); XV(r == b + k); XV(&++r == &r); XV(r == b + (k + 1)); XV(&--r == &r); XV(r == b + k); inv(a);''', U('i', 'j', 'k'))
    sc('a_cit', 'constant iterators', pre + CONST + '''xv_assume(i <= n && j <= n && k < n); auto b = o.begin();
      auto p = b + i, q = b + j; XV(p - q == i64(i - j)); XV((p == q) == (i == j)); XV((p < q) == (i < j)); XV((p > q) == (i > j)); XV((p <= q) == (i <= j)); XV((p >= q) == (i >= j));
      XV(i64(i) + b == p); XV(p - i64(i) == b); auto r = b; XV(&(r += i) == &r); XV(r == p); XV(&(r -= i) == &r); XV(r == b); r = b + k; XV(&*r == o.data() + k); XV(&b[k] == o.data() + k); XV(r->v() == xv_in(1, k));
      auto s = r++; XV(s == b + k); XV(r == b + (k + 1)); auto t = r--; XV(t == b + (k + 1)); XV(r == b + k); XV(&++r == &r); XV(&--r == &r); XV(r == b + k); inv(a);''', U('i', 'j', 'k'))
    sc('a_rit', 'reverse iteration', pre + CONST + '''xv_assume(k < n); xme::ReverseIterator r(a.end()), e(a.begin()); XV(&*(r + k) == a.data() + (n - 1 - k)); XV(u64(e - r) == n); XV(r + n == e); xme::ReverseIterator cr(o.end()); XV(&*(cr + k) == o.data() + (n - 1 - k)); inv(a);''', U('k'))
    return S

# the same scenarios for a trivially copyable element
HW = H.replace('using Arr = ', '#define E Word\n#define xv_elems xv_words\n#define xv_gen xv_genw\n#define xv_inv xv_invw\nusing Arr = ').replace('using ArrT = xme::Array<ET, Al<ET, true>>;', '')
# C13: the same scenarios for a larger element; only the lifetime and storage obligations and the representation invariant
H13 = H.replace('using Arr = ', 'using E24 = Elem<0, 24>;\n#define E E24\n#undef XV\n#define XV(c) ((void)(c))\nusing Arr = ')
def throwing():
    """C14: every element operation and allocation may throw"""
    S = []
    U = lambda *n: [('u64', x) for x in n]
    def sc(n, w, b, p=(), st=((T, 'a'),), rest='', **k):
        S.append(Sc(n, w, list(p), 'bool caught = false; %s try { %s } catch(...) { caught = true; } XV(caught == (xv_hits(99) > 0)); %s' % (rest, b, ' '.join('%s.~ArrT();' % x for _, x in st)), states=st, throwing=True, rm=False, cost=2 * n.startswith('t_insr') + n.startswith('t_ins'), **k))
    pre = 'const u64 n = a.size(), c = a.capacity(); '
    M = 'xv_assume(m <= (u64(1) << 40)); '
    SRC = M + 'ET* s = (ET*)xv_elems(m, 2, sizeof(ET)); '
    two = ((T, 'a'), (T, 'b'))
    sc('t_ctorn', 'construction with a capacity', M + 'ArrT a(m);', U('m'), ())
    sc('t_fill', 'construction from a count and a value', 'ET e(v); ArrT a(m, e);', U('m', 'v'), (), rest=M)
    sc('t_range', 'construction from a range', 'ArrT a(s, s + m);', U('m'), (), rest=SRC)
    sc('t_il', 'construction from an initializer list', 'ArrT a{ET(v), ET(w), ET(x)};', U('v', 'w', 'x'), ())
    sc('t_copy', 'copy construction', 'ArrT b(a);')
    sc('t_move', 'move construction', 'ArrT b(std::move(a));')
    sc('t_asgc', 'copy assignment', 'a = b;', (), two)
    sc('t_asgm', 'move assignment', 'a = std::move(b);', (), two)
    sc('t_asgi', 'assignment of an initializer list', 'a = {ET(v), ET(w)};', U('v', 'w'))
    sc('t_reserve', 'reserve', 'a.reserve(m);', U('m'), rest=M)
    sc('t_resize', 'resize', 'a.resize(m);', U('m'), rest=M)
    sc('t_push', 'push_back of a copy', 'ET e(v); a.push_back(e);', U('v'))
    sc('t_pushm', 'push_back of a temporary', 'a.push_back(ET(v));', U('v'))
    sc('t_pushs', 'push_back of an element of the array', 'a.push_back(a[p]);', U('p'), rest='xv_assume(p < a.size());')
    sc('t_emp', 'emplace_back', 'a.emplace_back(v);', U('v'))
    sc('t_pushr', 'push_back of a range', 'a.push_back(s, s + m);', U('m'), rest=SRC)
    sc('t_erase', 'erase of one element', 'a.erase(a.begin() + p);', U('p'), rest='xv_assume(p < a.size());')
    sc('t_eraser', 'erase of a range', 'a.erase(a.begin() + p, a.begin() + q);', U('p', 'q'), rest='xv_assume(p <= q && q <= a.size());')
    for h, hw, cond in [('e', 'at the end', 'p == n'), ('m', 'in the middle', 'p < n && n < c'), ('f', 'in the middle of a full array', 'p < n && n == c')]:
        sc('t_ins' + h, 'insert of a copy ' + hw, 'ET e(v); a.insert(a.begin() + p, e);', U('p', 'v'), rest=pre + 'xv_assume(%s); ' % cond)
        sc('t_insm' + h, 'insert of a temporary ' + hw, 'a.insert(a.begin() + p, ET(v));', U('p', 'v'), rest=pre + 'xv_assume(%s); ' % cond)
    for h, hw, cond in [('r', 'that needs more storage', 'n + m > c'), ('s', 'shorter than what follows', 'n + m <= c && m < n - p'), ('l', 'at least as long as what follows', 'n + m <= c && m >= n - p')]:
        sc('t_insr' + h, 'insert of an iterator range ' + hw, 'a.insert(a.begin() + p, s, s + m);', U('p', 'm'), rest=pre + SRC + 'xv_assume(p <= n && %s);' % cond)
    return S
