// native runtime of the hooks: detects every lifetime, allocation and contract error of a concrete run
#include "xv.hpp"
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <cstring>
#include <map>
#include <string>
#include <vector>
static std::map<const char*, u64> live;
struct Blk { u64 n, size; bool freed; };
static std::map<const char*, Blk> blocks;
static std::map<u64, u64> hits;
static std::string err; static int nerr; static u64 seed; static long throw_at, alloc_throw_at, events, alloc_events; static bool reject; static u64 nd; static u64 mvd;
static std::vector<void*> own;
static std::map<const char*, u64> ext; static std::map<const u64*, u64> extw;
struct Around { char* q; u64 z; char* p; u64 n; }; static std::vector<Around> around;
static std::map<u64, std::vector<u64>> over;
static jmp_buf jb; static bool jset;
static void fail(const std::string& s) { if(!nerr++) err = s; }
static u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdUL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53UL; return x ^ x >> 33; }
extern "C" {
void rt_reset(u64 s, long t, long a) { live.clear(); for(auto& b : blocks) std::free((void*)b.first); blocks.clear(); hits.clear(); err.clear(); nerr = 0; seed = s; throw_at = t; alloc_throw_at = a; events = alloc_events = 0; reject = false; nd = 0; mvd = 0; for(auto p : own) std::free(p); own.clear(); ext.clear(); extw.clear(); around.clear(); over.clear(); }
void rt_faults(long t, long a) { throw_at = t; alloc_throw_at = a; events = alloc_events = 0; }
long rt_events() { return events; }
long rt_alloc_events() { return alloc_events; }
int rt_result(char* out, u64 n) { std::snprintf(out, n, "%s", err.c_str()); return reject ? -1 : nerr; }
void rt_end(int leaks) {
    for(auto& e : ext) { auto it = live.find(e.first); if(it == live.end() || it->second != e.second) fail("an element of a read-only input was changed"); else live.erase(it); }
    for(auto& e : extw) if(*e.first != e.second) fail("a word of a read-only input was changed");
    for(auto& a : around) for(u64 i = 0; i < a.z; ++i) if((a.q + i < a.p || a.q + i >= a.p + a.n) && a.q[i] != 0x5a) { fail("write outside the range"); break; }
    if(!leaks) return;
    if(!live.empty()) fail("elements are not destroyed: " + std::to_string(live.size()));
    for(auto& b : blocks) for(int i = 0; i < 128; ++i) if((unsigned char)b.first[b.second.n * b.second.size + i] != 0xab) { fail("write beyond the allocation"); break; }
    for(auto& b : blocks) if(!b.second.freed) { fail("an allocation is not returned"); break; }
}
void rt_fail(const char* s) { fail(s); }
// a run whose precondition fails is abandoned
int rt_call(void (*f)(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64), u64 a, u64 b, u64 c, u64 d, u64 e, u64 g, u64 h, u64 i, u64 j, u64 k, u64 l, u64 m) {
    if(setjmp(jb)) { jset = false; return -1; }
    jset = true; f(a, b, c, d, e, g, h, i, j, k, l, m); jset = false; return 0;
}
void xv_assume(bool b) noexcept { if(!b) { reject = true; if(jset) longjmp(jb, 1); } }
void xv_check(bool b, const char* l) noexcept { if(!b && !reject) fail(l); }
u64 xv_in(u64 tag, u64 k) noexcept { auto it = over.find(tag); if(it != over.end() && k < it->second.size()) return it->second[k]; u64 h = mix(seed * 1000003 + tag * 7919 + k);
    static const u64 vals[] = {0, 1, 2, 3, 255, 256, 257, 300, 0x10001, 0x80000000u, 1UL << 32, ~0UL};
    return seed % 5 == 4 ? vals[h % 12] : h % (seed % 3 == 0 ? 3 : seed % 3 == 1 ? 251 : 1000000007UL); }
u64 xv_nondet() noexcept { ++nd; u64 r = mix(seed * 77777 + nd); return seed & 1 ? r % 4 : r; }
void xv_hit(u64 id) noexcept { ++hits[id]; }
u64 xv_hits(u64 id) noexcept { return hits[id]; }
bool xv_throws() noexcept { return ++events == throw_at; }
bool xv_throws_alloc() noexcept { return ++alloc_events == alloc_throw_at; }
static bool inblock(const char* p) {
    auto it = blocks.upper_bound(p);
    if(it == blocks.begin()) return true;
    --it;
    if(p < it->first + it->second.n * it->second.size + 64 && p >= it->first) {
        if(it->second.freed) { fail("access to released storage"); return false; }
        if(p >= it->first + it->second.n * it->second.size) { fail("access beyond the allocation"); return false; }
    }
    return true;
}
static void ctor(void* d, u64 v) { const char* p = (const char*)d; if(!d) { fail("construct at null"); return; } if(!inblock(p)) return; if(live.count(p)) fail("element constructed over a live element"); live[p] = v; }
static u64 rd(const void* s) { const char* p = (const char*)s; if(!inblock(p)) return 0; auto it = live.find(p); if(it == live.end()) { fail("read of an element that is not alive"); return 0; } return it->second; }
static void asg(void* d, u64 v) { const char* p = (const char*)d; if(!inblock(p)) return; auto it = live.find(p); if(it == live.end()) { fail("assignment to an element that is not alive"); live[p] = v; } else it->second = v; }
static u64 moved() { return 0xdead000000000000UL + ++mvd; }
void el_vc(void* d, u64 v) noexcept { ctor(d, v); }
void el_cc(void* d, const void* s) noexcept { ctor(d, rd(s)); }
void el_mc(void* d, void* s) noexcept { u64 v = rd(s); asg(s, moved()); ctor(d, v); }
void el_ca(void* d, const void* s) noexcept { asg(d, rd(s)); }
void el_ma(void* d, void* s) noexcept { u64 v = rd(s); asg(s, moved()); asg(d, d == s ? moved() : v); }
void el_d(void* d) noexcept { const char* p = (const char*)d; if(!inblock(p)) return; if(!live.erase(p)) fail("destruction of an element that is not alive"); }
u64 el_v(const void* s) noexcept { return rd(s); }
bool el_live(const void* s) noexcept { return live.count((const char*)s); }
bool el_eq(const void* a, const void* b) noexcept { return rd(a) == rd(b); }
void xv_pow2(u64 c) noexcept { xv_assume(c && !(c & (c - 1)) && c <= 4096); }
void xv_alike(const void*, const void*, u64) noexcept {}
bool xv_thread(void*, u64, u64, u64, u64, u64, u64, u64) noexcept { return false; }
u64 xv_pubs() noexcept { return 0; }
u64 xv_pub(u64) noexcept { return 0; }
u64 xv_seen() noexcept { return 0; }
u64 xv_pick(u64 x, u64 n) noexcept { xv_assume(x < n); return x; }
u64 xv_rank(u64 v) noexcept { return seed & 2 ? v % 5 : v; }
void* al_alloc(u64 n, u64 size) {
    if(n > 1000000) {      // too big to run: abandoned, an error only when no sequence is that long
        if(n > (1UL << 42)) fail("unreasonable allocation size"); else reject = true;
        if(jset) longjmp(jb, 1);
        n = 1;
    }
    char* p = (char*)std::malloc(n * size + 128); std::memset(p, 0xab, n * size + 128); blocks[p] = {n, size, false}; return p;
}
void al_free(void* q, u64 n, u64 size) noexcept {
    auto it = blocks.find((char*)q);
    if(it == blocks.end()) { fail("release of storage that was never allocated"); return; }
    if(it->second.freed) { fail("storage released twice"); return; }
    if(it->second.n != n || it->second.size != size) fail("storage released with a different size");
    for(auto l = live.lower_bound(it->first); l != live.end() && l->first < it->first + it->second.n * it->second.size;) { fail("storage released while an element in it is alive"); l = live.erase(l); }
    it->second.freed = true;
}
void* al_node(u64 size) { if(blocks.size() > 20000) { reject = true; if(jset) longjmp(jb, 1); } return al_alloc(1, size); }
void xv_genlist(void*, u64, u64, u64) noexcept {}
void xv_gen(void*, u64, u64, u64, u64) noexcept {}
void xv_inv(const void* d, u64 n, u64 cap, u64 size) noexcept {
    if(reject) return;
    if(n > cap) fail("size exceeds capacity");
    if(!d) { if(cap) fail("null storage with capacity"); return; }
    auto it = blocks.find((const char*)d);
    if(it == blocks.end() || it->second.freed) { fail("data() is not an allocation"); return; }
    if(it->second.n != cap || it->second.size != size) fail("capacity differs from the allocation");
    for(u64 i = 0; i < it->second.n; ++i) if(bool(live.count((const char*)d + i * size)) != (i < n)) { fail("live elements are not exactly [0, size)"); return; }
}
void* xv_elems(u64 n, u64 tag, u64 size) noexcept { if(n > 100000) { reject = true; if(jset) longjmp(jb, 1); n = 0; } char* p = (char*)std::malloc(n * size + 8); for(u64 i = 0; i < n; ++i) ext[p + i * size] = live[p + i * size] = xv_in(tag, i); own.push_back(p); return p; }
void* xv_heapelems(u64 n, u64 tag, u64 size, u64 min) noexcept {
    if(n > 100000) { reject = true; if(jset) longjmp(jb, 1); n = 0; }
    std::vector<u64> v; for(u64 i = 0; i < n; ++i) v.push_back(xv_in(tag, i));
    std::make_heap(v.begin(), v.end(), [&](u64 a, u64 b) { return min ? xv_rank(b) < xv_rank(a) : xv_rank(a) < xv_rank(b); });
    over[tag] = v; return xv_elems(n, tag, size); }
void xv_heap(const void*, u64, u64, u64) noexcept {}
void xv_watch(const void*, u64, u64, u64) noexcept {}
void xv_unwatch() noexcept {}
u64 xv_watched(const void* d, u64 n, u64 q) noexcept { u64 r = 0; (void)n; const char* p = (const char*)d; for(auto& l : live) if(l.second == q && !ext.count(l.first)) ++r; (void)p; return r; }
u64 xv_count(u64 tag, u64 n, u64 q) noexcept { u64 r = 0; for(u64 i = 0; i < n && i < 100000; ++i) r += xv_in(tag, i) == q; return r; }
void xv_top(const void*, u64, u64, u64) noexcept {}
void* xv_words(u64 n, u64 tag, u64) noexcept { if(n > 100000) { reject = true; if(jset) longjmp(jb, 1); n = 0; } u64* p = (u64*)std::malloc(n * 8 + 8); for(u64 i = 0; i < n; ++i) { p[i] = xv_in(tag, i); extw[p + i] = p[i]; } own.push_back(p); return p; }
void xv_genw(void* d, u64 n, u64 cap, u64 tag, u64) noexcept { for(u64 i = 0; i < n; ++i) if(((u64*)d)[i] != xv_in(tag, i)) fail("contents"); (void)cap; }
void xv_invw(const void* d, u64 n, u64 cap, u64 size) noexcept {
    if(reject) return;
    if(n > cap) fail("size exceeds capacity");
    if(!d) { if(cap) fail("null storage with capacity"); return; }
    auto it = blocks.find((const char*)d);
    if(it == blocks.end() || it->second.freed) { fail("data() is not an allocation"); return; }
    if(it->second.n != cap || it->second.size != size) fail("capacity differs from the allocation");
}
void* xv_data(u64 n, u64 tag, u64 w, u64 wr) noexcept {
    if(n > 100000) { reject = true; if(jset) longjmp(jb, 1); n = 0; }
    char* q = (char*)std::aligned_alloc(64, (n * w + 256 + 63) / 64 * 64); own.push_back(q); u64 z = (n * w + 256 + 63) / 64 * 64;
    for(u64 i = 0; i < z; ++i) q[i] = (char)(wr ? 0x5a : xv_in(tag, 0));        // what lies around the data
    char* p = q + 64 + (mix(seed) % (64 / w)) * w;
    for(u64 i = 0; i < n; ++i) { u64 v = xv_in(tag, i); std::memcpy(p + i * w, &v, w); }
    if(wr) around.push_back({q, z, p, n * w});
    return p; }
void xv_same(const char* p, const char* q, u64 n) noexcept { if(!p) { fail("null string"); return; } for(u64 i = 0; i < n; ++i) if(p[i] != q[i]) { fail("the string given differs from the argument"); return; } if(p[n]) fail("the string given does not end where the argument ends"); }
void* xv_bytes(u64 n, u64 tag) noexcept { char* p = (char*)std::malloc(n + 1); for(u64 i = 0; i < n; ++i) p[i] = (char)xv_in(tag, i); p[n] = 'Z'; own.push_back(p); return p; }
}
