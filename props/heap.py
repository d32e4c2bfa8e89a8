"""C16: xme::Heap."""
from xvc.scen import Sc, Builder
H = '''#include <span>
#include <xme/container/heap.hpp>
using Arr = xme::Array<E, Al<E>>;
using HM = xme::Heap<E, Arr>;                       // std::less<>: the largest element is on top
using HN = xme::Heap<E, Arr, std::greater<>>;       // the smallest
static_assert(sizeof(HM) == sizeof(Arr) && sizeof(HN) == sizeof(Arr));
template<class H> inline Arr& arr(H& h) { return reinterpret_cast<Arr&>(h); }
template<class H> inline u64 hsize(const H& h) { return u64(h.end() - h.begin()); }
template<class H> inline const E& at(const H& h, u64 k) { return *(h.begin() + k); }
template<class H> inline bool above(const E& a, const E& b);                            // a is ordered above b
template<> inline bool above<HM>(const E& a, const E& b) { return xv_rank(b.v()) < xv_rank(a.v()); }
template<> inline bool above<HN>(const E& a, const E& b) { return xv_rank(a.v()) < xv_rank(b.v()); }
'''
def builder(nm, cpp, mn):
    return Builder(nm, cpp, '''xv_assume(cap <= (u64(1) << 40) && n <= cap && null <= 1);
      if(null) { xv_assume(cap == 0); auto* h = new(place) %s(); Arr* a = &arr(*h); xv_gen(a->data(), a->size(), a->capacity(), tag, sizeof(E)); }
      else { E* p = (E*)xv_heapelems(n, tag, sizeof(E), %d); auto* h = new(place) %s(); Arr* a = &arr(*h); { Arr b(p, p + n); if(cap > n) b.reserve(cap); *a = std::move(b); }
      xv_gen(a->data(), a->size(), a->capacity(), tag, sizeof(E)); }''' % (cpp, mn, cpp), 'x.~%s();' % cpp, ('n', 'cap', 'null'))
def val(r): return r.choice([r.randint(0, 3), r.randint(0, 12), r.randint(0, 250)])
def U(*n): return [('u64', x, val if x in ('v', 'q') else None) for x in n]
def one(cpp, b, mn, x):
    """scenarios for one comparator; the postcondition: heap order, the top is not below any element, exactly the expected elements"""
    S = []
    def sc(n, w, body, p=(), st=True, **k): S.append(Sc(x + n, w + (' (smallest on top)' if mn else ''), list(p) + U('k', 'q'), body, states=((b, 'h'),) if st else (), **k))

    pre = 'const u64 n = arr(h).size(); xv_heap(arr(h).data(), n, 1, %d); xv_watch(arr(h).data(), n, 1, q); ' % mn
    def post(m, count, h='h'):
        A = 'arr(%s)' % h
        return ('XV(hsize(%(h)s) == (%(m)s)); XV(xv_watched(%(A)s.data(), %(A)s.size(), q) == (%(c)s)); XV_ALL(k, %(m)s) { xv_top(%(A)s.data(), %(A)s.size(), %(mn)d, k); if(k > 0) XV(!above<%(T)s>(at(%(h)s, k), at(%(h)s, (k - 1) / 2))); '
                'XV(!above<%(T)s>(at(%(h)s, k), *%(h)s.begin())); } xv_inv(%(A)s.data(), %(A)s.size(), %(A)s.capacity(), sizeof(E)); ') % dict(h=h, A=A, m=m, c=count, mn=mn, T=cpp)
    C = 'xv_count(1, n, q)'
    sc('_ctor0', 'default construction', '{ %s h; XV(hsize(h) == 0); XV(h.begin() == h.end()); }' % cpp, st=False)
    SRC = 'xv_assume(m <= (u64(1) << 40)); E* s = (E*)xv_elems(m, 2, sizeof(E)); xv_heap(nullptr, 0, 1, %d); xv_watch(nullptr, 0, 1, q); ' % mn
    sc('_range', 'construction from iterators', SRC + '{ %s h(s, s + m); ' % cpp + post('m', 'xv_count(2, m, q)') + 'xv_unwatch(); }', U('m'), st=False)
    sc('_rng', 'construction from a range', SRC + '{ std::span<E> r(s, m); %s h(r); ' % cpp + post('m', 'xv_count(2, m, q)') + 'xv_unwatch(); }', U('m'), st=False)
    sc('_push', 'push of a copy', pre + '{ E e(v); h.push(e); XV(e.v() == v); } ' + post('n + 1', C + ' + (v == q)'), U('v'))
    sc('_pushm', 'push of a temporary', pre + 'h.push(E(v)); ' + post('n + 1', C + ' + (v == q)'), U('v'))
    sc('_pushc', 'push of a convertible value', pre + 'h.push(v); ' + post('n + 1', C + ' + (v == q)'), U('v'))
    sc('_pushs', 'push of an element of the heap', pre + 'xv_assume(p < n); h.push(at(h, p)); ' + post('n + 1', C + ' + (xv_in(1, p) == q)'), U('p'))
    sc('_emp', 'emplace', pre + 'h.emplace(v); ' + post('n + 1', C + ' + (v == q)'), U('v'))
    sc('_pop', 'pop', pre + 'xv_assume(n > 0); const u64 t = h.begin()->v(); XV(t == xv_in(1, 0)); h.pop(); ' + post('n - 1', C + ' - (t == q)'))
    sc('_obs', 'observers', pre + 'XV(hsize(h) == n); if(k < n) XV(at(h, k).v() == xv_in(1, k)); XV((h.begin() == h.end()) == (n == 0)); xv_inv(arr(h).data(), n, arr(h).capacity(), sizeof(E));')
    sc('_dtor', 'destructor', 'h.~%s();' % cpp, rm=False)
    return S
M = builder('HMb', 'HM', 0)
N = builder('HNb', 'HN', 1)
def scenarios():
    return one('HM', M, 0, 'hm') + one('HN', N, 1, 'hn')
