// Hooks between the drivers and the verifier. Symbolic run: each hook is a contract in xvc/hooks.py.
// Native replay: xv_rt.cpp implements the same hooks on a table of live elements and allocations.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
#include <compare>
using u64 = unsigned long;
using u32 = unsigned int;
using i64 = long;
extern "C" {
void xv_assume(bool) noexcept;
void xv_check(bool, const char*) noexcept;
u64 xv_in(u64 tag, u64 k) noexcept;          // arbitrary initial contents of sequence `tag`
u64 xv_nondet() noexcept;                    // arbitrary value
void xv_hit(u64 id) noexcept;                // ghost counter
u64 xv_hits(u64 id) noexcept;
bool xv_throws() noexcept;                   // does this element operation fail?
bool xv_throws_alloc() noexcept;
void el_vc(void*, u64) noexcept;             // construct from a value
void el_cc(void*, const void*) noexcept;     // copy construct
void el_mc(void*, void*) noexcept;           // move construct
void el_ca(void*, const void*) noexcept;     // copy assign
void el_ma(void*, void*) noexcept;           // move assign
void el_d(void*) noexcept;                   // destroy
u64 el_v(const void*) noexcept;              // value of a live element
bool el_live(const void*) noexcept;          // ghost query
bool el_eq(const void*, const void*) noexcept;
void xv_pow2(u64) noexcept;                   // precondition: a power of two
void xv_alike(const void*, const void*, u64) noexcept;   // the two objects are in the same state
bool xv_thread(void* q, u64 role, u64 pushed, u64 popped, u64 known, u64 cap, u64 size, u64 tag) noexcept;   // from here on another thread uses q, too
u64 xv_pubs() noexcept;                      // index stores of this thread so far
u64 xv_pub(u64 i) noexcept;                  // value of the i-th published element
u64 xv_seen() noexcept;                      // the other side's counter, as last observed
u64 xv_pick(u64 x, u64 n) noexcept;          // x, one case for each value below n
u64 xv_rank(u64) noexcept;                   // arbitrary strict weak order on values: a < b iff rank a < rank b
void* al_alloc(u64 n, u64 size);
void* al_node(u64 size);                     // storage of one node
void xv_genlist(void* head, u64 n, u64 tag, u64 nodesize) noexcept;   // cut point: the pointer at head is a list of n nodes
void al_free(void*, u64 n, u64 size) noexcept;
void* xv_heapelems(u64 n, u64 tag, u64 size, u64 min) noexcept;      // as xv_elems; the values happen to be in heap order
void xv_heap(const void* data, u64 n, u64 tag, u64 min) noexcept;    // precondition: in(tag, 0) .. in(tag, n-1) are in heap order
void xv_watch(const void* data, u64 n, u64 tag, u64 q) noexcept;     // from here on count the live elements with value q
void xv_unwatch() noexcept;
u64 xv_watched(const void* data, u64 n, u64 q) noexcept;             // how many there are now
u64 xv_count(u64 tag, u64 n, u64 q) noexcept;                        // how many of in(tag, 0) .. in(tag, n-1) are q
void xv_top(const void* data, u64 n, u64 min, u64 k) noexcept;       // lemma: heap order for all elements implies that none is ordered above the first
void xv_gen(void* data, u64 size, u64 cap, u64 tag, u64 esize) noexcept;   // cut point: arbitrary valid sequence state
void xv_inv(const void* data, u64 size, u64 cap, u64 esize) noexcept;      // representation invariant holds
void* xv_elems(u64 n, u64 tag, u64 size) noexcept;   // read-only array of n live elements with values xv_in(tag, .)
void* xv_words(u64 n, u64 tag, u64 size) noexcept;   // read-only array of n 8-byte words with contents xv_in(tag, .)
void xv_genw(void* data, u64 size, u64 cap, u64 tag, u64 esize) noexcept;  // cut point for words
void xv_invw(const void* data, u64 size, u64 cap, u64 esize) noexcept;
void* xv_data(u64 n, u64 tag, u64 width, u64 writable) noexcept;   // array of n integers of that width, contents xv_in(tag, .), any alignment valid for them
void xv_same(const char* p, const char* q, u64 n) noexcept;   // the C string p is exactly the n bytes at q
void* xv_bytes(u64 n, u64 tag) noexcept;     // read-only array of n bytes with contents xv_in(tag, .)
}
struct Boom {};
#define XV(c) xv_check((c), #c)
// for an arbitrary index k below n (a native run visits all of them)
#ifdef XV_NATIVE
#define XV_ALL(k, n) for(auto k = decltype(n + 0){}; k < (n); ++k)
#else
#define XV_ALL(k, n) if(k < (n))
#endif

// an element with observable lifetime. Flags: 1 copies may throw, 2 moves may throw, 4 not copyable
template<int F, unsigned Size = 8>
struct Elem {
    unsigned char raw[Size] __attribute__((aligned(8)));
    static constexpr bool tc = F & 1, tm = F & 2;
    Elem() noexcept(!tc) { if(tc && xv_throws()) { xv_hit(99); throw Boom{}; } el_vc(this, 0); }
    Elem(u64 v) noexcept(!tc) { if(tc && xv_throws()) { xv_hit(99); throw Boom{}; } el_vc(this, v); }
    Elem(const Elem& o) noexcept(!tc) requires(!(F & 4)) { if(tc && xv_throws()) { xv_hit(99); throw Boom{}; } el_cc(this, &o); }
    Elem(Elem&& o) noexcept(!tm) { if(tm && xv_throws()) { xv_hit(99); throw Boom{}; } el_mc(this, &o); }
    Elem& operator=(const Elem& o) noexcept(!tc) requires(!(F & 4)) { if(tc && xv_throws()) { xv_hit(99); throw Boom{}; } el_ca(this, &o); return *this; }
    Elem& operator=(Elem&& o) noexcept(!tm) { if(tm && xv_throws()) { xv_hit(99); throw Boom{}; } el_ma(this, &o); return *this; }
    ~Elem() { el_d(this); }
    u64 v() const noexcept { return el_v(this); }
    bool operator==(const Elem& o) const noexcept { return el_eq(this, &o); }
    std::strong_ordering operator<=>(const Elem& o) const noexcept { return xv_rank(v()) <=> xv_rank(o.v()); }
};
// a trivially copyable element
struct Word {
    u64 x;
    Word() = default;
    Word(u64 v) noexcept : x(v) {}
    u64 v() const noexcept { return x; }
    bool operator==(const Word&) const = default;
};
using E = Elem<0>;
using ET = Elem<3>;
template<class T, bool Thr = false>
struct Al {
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    Al() noexcept = default;
    template<class U> Al(const Al<U, Thr>&) noexcept {}
    template<class U> struct rebind { using other = Al<U, Thr>; };
    T* allocate(std::size_t n) { if(Thr && xv_throws_alloc()) { xv_hit(99); throw std::bad_alloc{}; } return static_cast<T*>(al_alloc(n, sizeof(T))); }
    void deallocate(T* p, std::size_t n) noexcept { al_free(p, n, sizeof(T)); }
    bool operator==(const Al&) const noexcept { return true; }
};

// an allocator for nodes
template<class T, bool Thr = false>
struct AlN {
    using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    AlN() noexcept = default;
    template<class U> AlN(const AlN<U, Thr>&) noexcept {}
    template<class U> struct rebind { using other = AlN<U, Thr>; };
    T* allocate(std::size_t n) { if(Thr && xv_throws_alloc()) { xv_hit(99); throw std::bad_alloc{}; } return static_cast<T*>(n == 1 ? al_node(sizeof(T)) : al_alloc(n, sizeof(T))); }
    void deallocate(T* p, std::size_t n) noexcept { al_free(p, n, sizeof(T)); }
    bool operator==(const AlN&) const noexcept { return true; }
};
