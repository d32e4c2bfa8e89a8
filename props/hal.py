"""C28 shared libraries, C29 environment: the system calls are replaced (by macro, in the driver's translation unit) by stubs that record
what they were given; the code of xme between them is the text of /repo."""
from xvc.scen import Sc
H28 = '''#include <dlfcn.h>
#include <string>
#include <string_view>
#include <utility>
#include <concepts>
#include <type_traits>
// the k-th opened library is libs + k; ghost counters: 1 opened so far, 100 + k closings of library k, 2 lookups, 3 calls of dlopen
static char libs[16]; static char sym[16];
static const char* want; static u64 want_n; static void* looked;
extern "C" inline void* xs_dlopen(const char* name, int) noexcept { xv_hit(3); xv_same(name, want, want_n); if(xv_throws()) return nullptr; xv_hit(1); return libs + xv_hits(1); }
extern "C" inline int xs_dlclose(void* h) noexcept { XV(h != nullptr); u64 k = u64((char*)h - libs); XV(k >= 1 && k <= xv_hits(1)); XV(xv_hits(100 + k) == 0); xv_hit(100 + k); return 0; }
extern "C" inline void* xs_dlsym(void* h, const char* name) noexcept { xv_hit(2); XV(h != nullptr); u64 k = u64((char*)h - libs); XV(k >= 1 && k <= xv_hits(1)); XV(xv_hits(100 + k) == 0); xv_same(name, want, want_n); looked = h; return xv_throws() ? nullptr : sym + k; }
#define dlopen xs_dlopen
#define dlclose xs_dlclose
#define dlsym xs_dlsym
#include <xme/hal/shared_library.hpp>
#undef dlopen
#undef dlclose
#undef dlsym
using L = xme::hal::SharedLibrary;
using SV = std::string_view;
// the library held by l (0: none), read through the public interface; whatever a lookup finds belongs to it
inline u64 held(const L& l) {
  char n[2] = {'f', 'g'}; want = n; want_n = 1; const u64 h = xv_hits(2); void* r = l.proc_address<void*>(SV(n, 1));
  if(!l.is_open()) { XV(xv_hits(2) == h); XV(r == nullptr); return 0; }
  XV(xv_hits(2) == h + 1); u64 k = u64((char*)looked - libs); XV(r == nullptr || r == sym + k); return k; }
inline SV nm(u64 n, u64 tag) { const char* p = (const char*)xv_bytes(n, tag); want = p; want_n = n; return SV(p, n); }
// an arbitrary library object: never opened, open, or after a failed open
inline void any(L& l, u64 s) { if(s & 1) { char n[2] = {'l', 'm'}; want = n; want_n = 1; l.open(SV(n, 1)); } }
'''
def libs():
    S = []
    def sc(n, w, b, p=()):
        S.append(Sc(n, w, list(p), b, throwing=True))
    U = lambda *n: [('u64', x, (0, 40)) for x in n]
    N = 'xv_assume(n <= (u64(1) << 40)); '
    # every library ever opened is closed exactly once when all objects are gone
    END = lambda k: 'XV(xv_hits(1) <= %d); ' % k + ' '.join('XV(xv_hits(%d) == (xv_hits(1) >= %d));' % (100 + i, i) for i in range(1, k + 1)) + ' XV(xv_hits(%d) == 0);' % (101 + k)
    sc('l_ctor', 'default construction', '{ L l; XV(!l.is_open()); XV(held(l) == 0); } XV(xv_hits(3) == 0); ' + END(0))
    sc('l_open1', 'construction from a name of any length', N + '{ L l(nm(n, 1)); XV(xv_hits(3) == 1); XV(l.is_open() == (xv_hits(1) == 1)); XV(held(l) == xv_hits(1)); XV(xv_hits(101) == 0); } ' + END(1), U('n'))
    sc('l_open', 'open of any library object', N + '{ L l; any(l, s); const u64 o = xv_hits(1); const u64 c = xv_hits(3); l.open(nm(n, 1)); XV(xv_hits(3) == c + 1); XV(l.is_open() == (xv_hits(1) == o + 1)); XV(held(l) == (xv_hits(1) == o + 1 ? xv_hits(1) : 0)); XV(xv_hits(101) == o); XV(xv_hits(102) == 0); } ' + END(2), U('n', 's'))
    sc('l_close', 'close of any library object', '{ L l; any(l, s); const u64 o = xv_hits(1); l.close(); XV(!l.is_open()); XV(held(l) == 0); XV(xv_hits(101) == o); l.close(); XV(!l.is_open()); XV(xv_hits(101) == o); } ' + END(1), U('s'))
    sc('l_reopen', 'open after close', N + '{ L l; any(l, s); l.close(); const u64 o = xv_hits(1); l.open(nm(n, 1)); XV(l.is_open() == (xv_hits(1) == o + 1)); XV(held(l) == (xv_hits(1) == o + 1 ? xv_hits(1) : 0)); } ' + END(2), U('s', 'n'))
    sc('l_move', 'move construction', '{ L a; any(a, s); const u64 o = held(a); XV(o == xv_hits(1)); { L b(std::move(a)); XV(held(b) == o); XV(b.is_open() == (o != 0)); XV(!a.is_open()); XV(held(a) == 0); XV(xv_hits(101) == 0); } XV(xv_hits(101) == o); XV(!a.is_open()); } ' + END(1), U('s'))
    sc('l_asg', 'move assignment', '{ L a; any(a, s); const u64 x = held(a); { L b; any(b, t); const u64 y = held(b); L& r = (a = std::move(b)); XV(&r == &a); XV(held(a) == y); XV(a.is_open() == (y != 0)); XV(y == 0 || xv_hits(100 + (y ? y : 50)) == 0); XV(!b.is_open() || (held(b) == x && x != 0)); } XV(x == 0 || xv_hits(100 + (x ? x : 50)) == 1); XV(a.is_open() == (held(a) != 0)); } ' + END(2), U('s', 't'))
    sc('l_asgs', 'move assignment to itself', '{ L a; any(a, s); const u64 x = held(a); L& q = a; a = std::move(q); XV(held(a) == x || !a.is_open()); } ' + END(1), U('s'))
    sc('l_asgr', 'an assigned-from object can be opened again', '{ L a, b; any(a, s); any(b, t); a = std::move(b); any(b, 1); const u64 y = held(a); XV(!b.is_open() || (held(b) == xv_hits(1) && held(b) != y)); } ' + END(3), U('s', 't'))
    sc('l_mvr', 'a moved-from object can be opened again', '{ L a; any(a, s); const u64 y = held(a); L c(std::move(a)); any(a, 1); XV(!a.is_open() || (held(a) == xv_hits(1) && held(a) != y)); XV(held(c) == y); } ' + END(2), U('s'))
    sc('l_sym', 'lookup of a name of any length', N + '{ L l; any(l, s); const u64 o = held(l); const L& k = l; SV v = nm(n, 1); const u64 h = xv_hits(2); void* r = k.proc_address<void*>(v); XV(xv_hits(2) == h + (o ? 1 : 0)); XV(o ? (looked == libs + o && (r == nullptr || r == sym + o)) : r == nullptr); auto f = k.proc_address<int (*)(int)>(v); XV(f == nullptr || (void*)f == sym + o); XV((std::is_same_v<decltype(f), int (*)(int)>)); XV(l.is_open() == (o != 0)); } ' + END(1), U('n', 's'))
    sc('l_type', 'a library object is not copyable', 'XV((!std::is_copy_constructible_v<L>)); XV((!std::is_copy_assignable_v<L>)); XV(std::is_nothrow_move_constructible_v<L>); XV(std::is_nothrow_move_assignable_v<L>);')
    return S
H29 = '''#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
using SV = std::string_view;
// the calls that reach the C environment; ghost counters: 1 set, 2 removed, 3 read
static const char *wn, *wv; static u64 wn_n, wv_n; static char found[4];
extern "C" inline int xs_setenv(const char* n, const char* v, int over) noexcept { xv_hit(1); xv_same(n, wn, wn_n); xv_same(v, wv, wv_n); XV(over != 0); return 0; }
extern "C" inline int xs_unsetenv(const char* n) noexcept { xv_hit(2); xv_same(n, wn, wn_n); return 0; }
extern "C" inline char* xs_getenv(const char* n) noexcept { xv_hit(3); xv_same(n, wn, wn_n); return xv_throws() ? nullptr : found; }
#define setenv xs_setenv
#define unsetenv xs_unsetenv
#define secure_getenv xs_getenv
#define getenv xs_getenv
namespace std { using ::xs_getenv; }
#include <xme/hal/platform.hpp>
#undef setenv
#undef unsetenv
#undef secure_getenv
#undef getenv
'''
def env():
    S = []
    def sc(n, w, b, p=()): S.append(Sc(n, w, list(p), b, throwing=True))
    U = lambda *n: [('u64', x, (0, 40)) for x in n]
    N = 'xv_assume(n <= (u64(1) << 40) && m <= (u64(1) << 40)); wn = (const char*)xv_bytes(n, 1); wn_n = n; wv = (const char*)xv_bytes(m, 2); wv_n = m; '
    SET = 'xme::hal::set_environment_variable(SV(wn, n), SV(wv, m)); XV(xv_hits(3) == 0); XV(xv_hits(1) == (m > 0)); XV(xv_hits(2) == (m == 0));'
    sc('e_unset', 'setting a variable of any name to the empty value', N + 'xv_assume(m == 0); ' + SET, U('n', 'm'))
    for k, (h, c) in enumerate([('of more than 15 bytes', 'n > 15')] + [('of %d to %d bytes' % (i, i + 1), 'n >= %d && n <= %d' % (i, i + 1)) for i in range(0, 16, 2)]):
        sc('e_set%d' % k, 'setting a variable with a name ' + h + ' to any value', N + 'xv_assume(m > 0 && %s); ' % c + SET, U('n', 'm'))
    sc('e_get', 'reading a variable', N + 'char* r = xme::hal::get_environment_variable(SV(wn, n)); XV(xv_hits(3) == 1); XV(xv_hits(1) == 0); XV(xv_hits(2) == 0); XV(r == nullptr || r == found);', U('n', 'm'))
    return S
