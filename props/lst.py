"""C17, C18: xme::LinkedList."""
from xvc.scen import Sc, Builder
from .arr import ITERS
H = '''#include <span>
#include <initializer_list>
#include <xme/container/linked_list.hpp>
using Lst = xme::LinkedList<E, AlN<E>>;
using LstT = xme::LinkedList<ET, AlN<ET, true>>;
using Node = xme::detail::LinkedListNode<E>;
''' + ITERS + '''static_assert(sizeof(Lst) == 8 && sizeof(Node) == 16 && sizeof(LstT) == 8);
template<class L> inline auto at(L& l, u64 k) { auto it = l.begin(); for(u64 i = 0; i < k; ++i) ++it; return it; }
// position p: 0 is before the first element
template<class L> inline auto pos(L& l, u64 p) { auto it = l.before_begin(); if(p) it = at(l, p - 1); return it; }
'''
def builder(nm, cpp, el):
    return Builder(nm, cpp, 'xv_assume(n <= (u64(1) << 40)); %s* p = (%s*)xv_elems(n, tag, sizeof(%s)); new(place) %s(p, p + n); xv_genlist(place, n, tag, 16);' % (el, el, el, cpp), 'x.~%s();' % cpp, ('n',))
A = builder('L', 'Lst', 'E')
T = builder('LT', 'LstT', 'ET')
V = 'xv_in(%d, %s)'
def contents(a, n, expr, k='k'):
    """the list is exactly `expr` over index k, for k < n, and then ends"""
    return '{ const u64 len = %s; if(%s < len) { auto z = at(%s, %s); XV(z != %s.end()); XV((*z).v() == (%s)); } auto y = at(%s, len); XV(y == %s.end()); } ' % (n, k, a, k, a, expr, a, a)
def U(*n): return [('u64', x) for x in n]
def scenarios(values=True):
    S = []
    def sc(n, w, b, p=(), st=((A, 'a'),), rm=False, fin='a.~Lst();', **k):
        S.append(Sc(n, w, list(p), b + (fin if st else ''), states=st, rm=rm, leaks=not values, **k))
    seq = contents if values else lambda a, n, expr, k='k': ''

    M = 'xv_assume(m <= (u64(1) << 40)); '
    SRC = M + 'E* s = (E*)xv_elems(m, 2, sizeof(E)); '
    N, K = 'a_n', ['k', 'a_n']
    one, two = ((A, 'a'),), ((A, 'a'), (A, 'b'))
    # ---- construction
    sc('l_ctor0', 'default construction', '{ Lst a; XV(a.begin() == a.end()); XV(a.empty()); XV(a.before_begin() != a.end()); }', st=())
    sc('l_ctorn', 'construction from a count', M + '{ Lst a(m); ' + seq('a', 'm', '0') + '}', U('m', 'k'), st=())
    sc('l_fill', 'construction from a count and a value', M + '{ E e(v); Lst a(m, e); ' + seq('a', 'm', 'v') + 'XV(e.v() == v); }', U('m', 'v', 'k'), st=())
    sc('l_range', 'construction from an iterator range', SRC + '{ Lst a(s, s + m); ' + seq('a', 'm', V % (2, 'k')) + '}', U('m', 'k'), st=())
    sc('l_range_f', 'construction from forward iterators', SRC + '{ Lst a(Fwd<E>{s}, Fwd<E>{s + m}); ' + seq('a', 'm', V % (2, 'k')) + '}', U('m', 'k'), st=())
    sc('l_range_i', 'construction from a single-pass iterator up to a sentinel', SRC + '{ Lst a(Inp<E>{s}, Iend<E>{s + m}); ' + seq('a', 'm', V % (2, 'k')) + '}', U('m', 'k'), st=())
    sc('l_rng', 'construction from a range', SRC + '{ std::span<E> r(s, m); Lst a(r); ' + seq('a', 'm', V % (2, 'k')) + '}', U('m', 'k'), st=())
    sc('l_il', 'construction from an initializer list', '{ Lst a(std::initializer_list<E>{E(v), E(w), E(x)}); ' + seq('a', '3', 'k == 0 ? v : k == 1 ? w : x') + '}', U('v', 'w', 'x', 'k'), st=())
    sc('l_copy', 'copy construction', '{ Lst b(a); ' + seq('b', N, V % (1, 'k')) + 'if(a_n) XV(&*a.begin() != &*b.begin()); } ' + seq('a', N, V % (1, 'k')), U(*K))
    sc('l_move', 'move construction', 'const bool some = a.begin() != a.end(); E* f = some ? &*a.begin() : nullptr; { Lst b(std::move(a)); ' + seq('b', N, V % (1, 'k')) + 'XV(a.begin() == a.end()); if(some) XV(&*b.begin() == f); } XV(a.empty()); ', U(*K))
    # ---- destruction, iteration
    sc('l_dtor', 'destructor', '')
    sc('l_clear', 'clear', 'a.clear(); XV(a.begin() == a.end()); XV(a.empty()); ')
    sc('l_clear2', 'a cleared list is used again', 'a.clear(); { E e(v); a.push_front(e); } ' + seq('a', '1', 'v'), U('v', 'k'))
    sc('l_seq', 'iteration', seq('a', N, V % (1, 'k')) + 'XV(a.empty() == (a_n == 0)); ', U(*K))
    sc('l_cseq', 'iteration of a constant list', 'const Lst& c = a; ' + seq('c', N, V % (1, 'k')) + 'XV(c.empty() == (a_n == 0)); XV(c.cbefore_begin() == c.before_begin()); XV(++c.before_begin() == c.begin()); ', U(*K))
    sc('l_iter', 'iterators', 'xv_assume(k < a_n); auto i = at(a, k); auto j = i; XV(i == j); XV(j++ == i); XV(j != i); auto h = i; XV(&++h == &h); XV(h == j); XV(i->v() == xv_in(1, k)); XV(&*i == i.operator->()); Lst::const_iterator c = i; XV(&*c == &*i); XV(c->v() == xv_in(1, k)); auto d = c; XV(d++ == c); XV(d != c); auto e = c; XV(&++e == &e); XV(e == d); XV(e == Lst::const_iterator(j)); ', U(*K))
    sc('l_bb', 'before_begin', 'auto i = a.before_begin(); ++i; XV(i == a.begin()); Lst::const_iterator c = a.cbefore_begin(); XV(++c == Lst::const_iterator(a.begin())); ')
    sc('l_foreach', 'a range-based for loop sees every element once, in order', 'u64 c = 0; for(auto& e : a) { if(c == k) XV(e.v() == xv_in(1, k)); ++c; } XV(c == a_n); ', U(*K))
    sc('l_write', 'an element is assigned through an iterator', 'xv_assume(p < a_n); { E e(v); *at(a, p) = e; } ' + seq('a', N, 'k == p ? v : xv_in(1, k)'), U('p', 'v', *K))
    # ---- the front
    F1 = seq('a', 'a_n + 1', 'k == 0 ? v : xv_in(1, k - 1)')
    sc('l_push', 'push_front of a copy', '{ E e(v); a.push_front(e); XV(e.v() == v); } ' + F1, U('v', *K))
    sc('l_pushm', 'push_front of a temporary', 'a.push_front(E(v)); ' + F1, U('v', *K))
    sc('l_pushs', 'push_front of an element of the list', 'xv_assume(p < a_n); a.push_front(*at(a, p)); ' + seq('a', 'a_n + 1', 'k == 0 ? xv_in(1, p) : xv_in(1, k - 1)'), U('p', *K))
    sc('l_emp', 'emplace_front', 'E& r = a.emplace_front(v); XV(&r == &*a.begin()); ' + F1, U('v', *K))
    sc('l_pop', 'pop_front', 'xv_assume(a_n > 0); a.pop_front(); ' + seq('a', 'a_n - 1', 'xv_in(1, k + 1)'), U(*K))
    # ---- insertion after a position: p elements stay in front
    I1 = seq('a', 'a_n + 1', 'k < p ? xv_in(1, k) : k == p ? v : xv_in(1, k - 1)')
    IP = 'xv_assume(p <= a_n); '
    sc('l_emplace', 'emplace_after', IP + 'auto i = a.emplace_after(pos(a, p), v); XV(i == at(a, p)); ' + I1, U('p', 'v', *K))
    sc('l_ins', 'insert_after of a copy', IP + '{ E e(v); auto i = a.insert_after(pos(a, p), e); XV(e.v() == v); XV(i == at(a, p)); } ' + I1, U('p', 'v', *K))
    sc('l_insm', 'insert_after of a temporary', IP + 'auto i = a.insert_after(pos(a, p), E(v)); XV(i == at(a, p)); ' + I1, U('p', 'v', *K))
    sc('l_inss', 'insert_after of an element of the list', IP + 'xv_assume(q < a_n); a.insert_after(pos(a, p), *at(a, q)); ' + seq('a', 'a_n + 1', 'k < p ? xv_in(1, k) : k == p ? xv_in(1, q) : xv_in(1, k - 1)'), U('p', 'q', *K))
    IR = 'XV(i == pos(a, p + m)); ' + seq('a', 'a_n + m', 'k < p ? xv_in(1, k) : k - p < m ? xv_in(2, k - p) : xv_in(1, k - m)')
    sc('l_insr', 'insert_after of an iterator range', SRC + IP + 'auto i = a.insert_after(pos(a, p), s, s + m); ' + IR, U('p', 'm', *K))
    sc('l_insr_f', 'insert_after from forward iterators', SRC + IP + 'auto i = a.insert_after(pos(a, p), Fwd<E>{s}, Fwd<E>{s + m}); ' + IR, U('p', 'm', *K))
    sc('l_insr_i', 'insert_after from a single-pass iterator up to a sentinel', SRC + IP + 'auto i = a.insert_after(pos(a, p), Inp<E>{s}, Iend<E>{s + m}); ' + IR, U('p', 'm', *K))
    sc('l_insg', 'insert_after of a range', SRC + IP + 'std::span<E> r(s, m); auto i = a.insert_after(pos(a, p), r); ' + IR, U('p', 'm', *K))
    # ---- removal
    sc('l_erase', 'erase_after of one element', 'xv_assume(p < a_n); a.erase_after(pos(a, p)); ' + seq('a', 'a_n - 1', 'k < p ? xv_in(1, k) : xv_in(1, k + 1)'), U('p', *K))
    sc('l_eraser', 'erase_after of a range', 'xv_assume(p <= q && q <= a_n); a.erase_after(pos(a, p), at(a, q)); ' + seq('a', 'a_n - (q - p)', 'k < p ? xv_in(1, k) : xv_in(1, k + (q - p))'), U('p', 'q', *K))
    # ---- reverse
    sc('l_rev', 'reverse', 'a.reverse(); ' + seq('a', N, 'xv_in(1, a_n - 1 - k)'), U(*K))
    # ---- assignment
    AR = seq('a', 'm', V % (2, 'k'))
    sc('l_asg', 'assign of an iterator range', SRC + 'a.assign(s, s + m); ' + AR, U('m', *K))
    sc('l_asg_f', 'assign from forward iterators', SRC + 'a.assign(Fwd<E>{s}, Fwd<E>{s + m}); ' + AR, U('m', *K))
    sc('l_asg_i', 'assign from a single-pass iterator up to a sentinel', SRC + 'a.assign(Inp<E>{s}, Iend<E>{s + m}); ' + AR, U('m', *K))
    sc('l_asgr', 'assign of a range', SRC + 'std::span<E> r(s, m); a.assign(r); ' + AR, U('m', *K))
    sc('l_asgil', 'assign of an initializer list', 'a.assign(std::initializer_list<E>{E(v), E(w), E(x)}); ' + seq('a', '3', 'k == 0 ? v : k == 1 ? w : x'), U('v', 'w', 'x', *K))
    sc('l_opil', 'assignment of an initializer list', 'Lst& r = (a = std::initializer_list<E>{E(v), E(w), E(x)}); XV(&r == &a); ' + seq('a', '3', 'k == 0 ? v : k == 1 ? w : x'), U('v', 'w', 'x', *K))
    KB = ['k', 'a_n', 'b_n']
    sc('l_opc', 'copy assignment', 'Lst& r = (a = b); XV(&r == &a); ' + seq('a', 'b_n', V % (2, 'k')) + seq('b', 'b_n', V % (2, 'k')) + 'b.~Lst(); ', U(*KB), st=two)
    sc('l_ops', 'copy assignment to itself', 'const Lst& z = a; a = z; ' + seq('a', N, V % (1, 'k')), U(*K))
    sc('l_opm', 'move assignment', 'Lst& r = (a = std::move(b)); XV(&r == &a); ' + seq('a', 'b_n', V % (2, 'k')) + 'XV(b.begin() == b.end()); b.~Lst(); ', U(*KB), st=two)
    sc('l_opms', 'move assignment to itself leaves a valid list', 'Lst& z = a; a = std::move(z); for(auto& e : a) (void)e.v(); ')
    return S

def throwing():
    """every element operation and every allocation may throw"""
    S = []
    one, two = ((T, 'a'),), ((T, 'a'), (T, 'b'))
    def sc(n, w, b, p=(), st=one, rest='', after=''):
        S.append(Sc(n, w, list(p), 'bool caught = false; %s try { %s } catch(...) { caught = true; } XV(caught == (xv_hits(99) > 0)); %s %s' % (rest, b, after, ' '.join('%s.~LstT();' % x for _, x in st)), states=st, throwing=True, rm=False))
    M = 'xv_assume(m <= (u64(1) << 40)); '
    SRC = M + 'ET* s = (ET*)xv_elems(m, 2, sizeof(ET)); '
    IP = 'xv_assume(p <= a_n); '
    sc('t_ctorn', 'construction from a count', 'LstT a(m);', U('m'), (), rest=M)
    sc('t_fill', 'construction from a count and a value', 'ET e(v); LstT a(m, e);', U('m', 'v'), (), rest=M)
    sc('t_range', 'construction from an iterator range', 'LstT a(s, s + m);', U('m'), (), rest=SRC)
    sc('t_rng', 'construction from a range', 'std::span<ET> r(s, m); LstT a(r);', U('m'), (), rest=SRC)
    sc('t_il', 'construction from an initializer list', 'LstT a(std::initializer_list<ET>{ET(v), ET(w), ET(x)});', U('v', 'w', 'x'), ())
    sc('t_copy', 'copy construction', 'LstT b(a);')
    sc('t_move', 'move construction', 'LstT b(std::move(a));')
    sc('t_push', 'push_front of a copy', 'ET e(v); a.push_front(e);', U('v'))
    sc('t_pushm', 'push_front of a temporary', 'a.push_front(ET(v));', U('v'))
    sc('t_pushs', 'push_front of an element of the list', 'a.push_front(*at(a, p));', U('p', 'a_n'), rest='xv_assume(p < a_n);')
    sc('t_emp', 'emplace_front', 'a.emplace_front(v);', U('v'))
    sc('t_pop', 'pop_front', 'a.pop_front();', U('a_n'), rest='xv_assume(a_n > 0);')
    sc('t_emplace', 'emplace_after', 'a.emplace_after(pos(a, p), v);', U('p', 'v', 'a_n'), rest=IP)
    sc('t_ins', 'insert_after of a copy', 'ET e(v); a.insert_after(pos(a, p), e);', U('p', 'v', 'a_n'), rest=IP)
    sc('t_insm', 'insert_after of a temporary', 'a.insert_after(pos(a, p), ET(v));', U('p', 'v', 'a_n'), rest=IP)
    sc('t_insr', 'insert_after of an iterator range', 'a.insert_after(pos(a, p), s, s + m);', U('p', 'm', 'a_n'), rest=SRC + IP)
    sc('t_insg', 'insert_after of a range', 'std::span<ET> r(s, m); a.insert_after(pos(a, p), r);', U('p', 'm', 'a_n'), rest=SRC + IP)
    sc('t_erase', 'erase_after of one element', 'a.erase_after(pos(a, p));', U('p', 'a_n'), rest='xv_assume(p < a_n);')
    sc('t_eraser', 'erase_after of a range', 'a.erase_after(pos(a, p), at(a, q));', U('p', 'q', 'a_n'), rest='xv_assume(p <= q && q <= a_n);')
    sc('t_rev', 'reverse', 'a.reverse();')
    sc('t_asg', 'assign of an iterator range', 'a.assign(s, s + m);', U('m'), rest=SRC)
    sc('t_asgr', 'assign of a range', 'std::span<ET> r(s, m); a.assign(r);', U('m'), rest=SRC)
    sc('t_opil', 'assignment of an initializer list', 'a = std::initializer_list<ET>{ET(v), ET(w)};', U('v', 'w'))
    sc('t_opc', 'copy assignment', 'a = b;', (), two)
    sc('t_opm', 'move assignment', 'a = std::move(b);', (), two)
    return S
def sequences():
    """two operations on one list: what the second finds is what the first left"""
    S = []
    def sc(n, w, b, p=()): S.append(Sc(n, w, [('u64', x) for x in p], b + 'a.~Lst();', states=((A, 'a'),), rm=False))
    ops = dict(push=('push_front', 'a.push_front(E(v)); ', ()), pop=('pop_front', 'if(!a.empty()) a.pop_front(); ', ()), rev=('reverse', 'a.reverse(); ', ()),
               ins=('insert_after', 'if(p <= a_n) a.emplace_after(pos(a, p), v); ', ('p', 'a_n')), era=('erase_after', 'if(q < a_n) a.erase_after(pos(a, q)); ', ('q', 'a_n')), clr=('clear', 'a.clear(); ', ()))
    for x, y in [('push', 'pop'), ('push', 'rev'), ('rev', 'pop'), ('rev', 'push'), ('clr', 'push'), ('ins', 'clr'), ('era', 'push'), ('ins', 'pop')]:
        sc('s_%s_%s' % (x, y), '%s, then %s' % (ops[x][0], ops[y][0]), ops[x][1] + ops[y][1], ['v'] + list(dict.fromkeys(ops[x][2] + ops[y][2])))
    sc('s_move_push', 'a list moved from is used again', '{ Lst b(std::move(a)); a.push_front(E(v)); b.push_front(E(v)); } ', ['v'])
    sc('s_copy_erase', 'a copy is independent of the original', '{ Lst b(a); if(!b.empty()) b.pop_front(); a.push_front(E(v)); } ', ['v'])
    return S
