// C20, bounded: one producer and one consumer thread under the thread sanitizer (data races by the C++ memory model) with content checks
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <thread>
#include <xme/container/spsc_queue.hpp>
static void bad(const char* s) { std::printf("%s\n", s); std::fflush(stdout); std::_Exit(3); }
static std::atomic<long> alive{0};
struct P {      // every field is written by the constructor and by the destructor
    long a, b; long* self;
    P() : P(0) {}
    P(long v) : a(v), b(~v), self(&a) { if(!(v & 15)) std::this_thread::yield(); alive.fetch_add(1, std::memory_order_relaxed); }
    P(const P&) = delete; P(P&& o) noexcept : P(o.a) { o.b = 0; }
    ~P() { if(self != &a) bad("an element is destroyed that is not alive"); if(!(a & 15)) std::this_thread::yield(); a = b = -7; self = nullptr; alive.fetch_sub(1, std::memory_order_relaxed); }
    long get() const { if(self != &a || b != ~a) bad("an element is read that is not completely constructed"); return a; }
};
template<class Q, class T, class... A> void run(long N, int mode, A... a) {
    {
        Q q(a...);
        std::thread prod([&] {
            for(long i = 0; i < N;) {
                if(mode & 1) { auto w = q.write_available(); while(w-- && i < N) { if(!q.push(i)) bad("push fails although space was announced"); ++i; } if(!(i & 63)) std::this_thread::yield(); }
                else if(q.emplace(i)) ++i; else std::this_thread::yield();
            }
        });
        std::thread cons([&] {
            for(long i = 0; i < N;) {
                auto n = q.read_available();
                if(!n) std::this_thread::yield();
                while(n-- && i < N) {
                    if((mode & 2) && i % 3 != 1) q.pop();
                    else { int c = 0; q.consume([&](auto&& x) { ++c; long v; if constexpr(std::is_same_v<T, long>) v = x; else v = x.get(); if(v != i) bad("elements are lost, duplicated or reordered"); }); if(c != 1) bad("consume does not call its function once"); }
                    ++i;
                }
            }
        });
        prod.join(); cons.join();
        if(q.read_available() != 0) bad("elements are left over");
    }
    if(alive.load() != 0) bad("elements are not destroyed exactly once");
}
int main() {
    for(int mode = 0; mode < 4; ++mode) {
        run<xme::SPSCQueue<P>, P>(30000, mode, 2); run<xme::SPSCQueue<P>, P>(60000, mode, 8); run<xme::SPSCQueue<long>, long>(60000, mode, 4);
        run<xme::SPSCQueue<P, xme::Capacity<4>>, P>(30000, mode); run<xme::SPSCQueue<long, xme::Capacity<8>>, long>(30000, mode);
    }
    return 0;
}
