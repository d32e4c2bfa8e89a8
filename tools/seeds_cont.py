import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import plant
C = 'include/xme/container/'; K = 'include/xme/core/'
CH = '#define CHECK(c) do { if(!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while(0)\n'
# an element that knows whether it is alive, and can be told to throw
E = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <set>
#include <vector>
#include <stdexcept>
static std::set<const void*> alive; static int bad = 0, countdown = -1;
static void tick() { if(countdown >= 0 && countdown-- == 0) throw std::runtime_error("x"); }
struct X {
    int v;
    X(int a = 0) : v(a) { tick(); born(); }
    X(const X& o) : v(o.v) { o.chk(); tick(); born(); }
    X(X&& o) : v(o.v) { o.chk(); tick(); born(); o.v = -1; }
    X& operator=(const X& o) { chk(); o.chk(); v = o.v; return *this; }
    X& operator=(X&& o) { chk(); o.chk(); v = o.v; if(this != &o) o.v = -1; return *this; }
    ~X() { if(!alive.erase(this)) ++bad; }
    void born() { if(!alive.insert(this).second) ++bad; }
    void chk() const { if(!alive.count(this)) ++bad; }
    friend bool operator<(const X& a, const X& b) { return a.v < b.v; }
    friend bool operator>(const X& a, const X& b) { return a.v > b.v; }
    friend bool operator==(const X& a, const X& b) { return a.v == b.v; }
};
static long blocks = 0;
template<class T> struct A { using value_type = T; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using is_always_equal = std::true_type; using propagate_on_container_swap = std::false_type; A() = default; template<class U> A(const A<U>&) {}
    T* allocate(std::size_t n) { ++blocks; return static_cast<T*>(std::malloc(n * sizeof(T) + 1)); }
    void deallocate(T* p, std::size_t) { --blocks; std::free(p); }
    template<class U> bool operator==(const A<U>&) const { return true; } };
''' + CH
ARR = '#include <xme/container/array.hpp>\n' + E + 'using V = xme::Array<X, A<X>>;\nint main() {\n'
LST = '#include <xme/container/linked_list.hpp>\n' + E
T = '    return 0;\n}\n'
S = [
 ('n12-reserve-size', 'C12', [(C+'array.hpp', '''    constexpr void reserve(size_type n) {
        if(capacity() < n)''', '''    constexpr void reserve(size_type n) {
        if(this->size() < n)''')],
  ARR + '    V a; a.reserve(8); a.push_back(1); auto c = a.capacity(); a.reserve(4); CHECK(a.capacity() == c); CHECK(a.size() == 1);\n', 
  'a reserve between the current size and the current capacity', 'reserve shrinks the capacity'),
 ('n12-iter-minus-assign', 'C26', [(K+'iterators/const_iterator.hpp', '''        m_current -= n;
        return *this;''', '''        m_current -= n > 0 ? n : -n;
        return *this;''')],
  '#include <cstdio>\n#include <xme/core/iterators/const_iterator.hpp>\n' + CH + 'int main() {\n    int a[8] = {}; xme::ConstIterator<int*> i(a + 3); i -= -2; CHECK(i == a + 5); i -= 4; CHECK(i == a + 1);\n',
  'moving a const iterator back by a negative distance', 'the iterator moves the wrong way'),
 ('n12-insert-before', 'C12', [(C+'array.hpp', '        if(pos == ::ranges::cend(*this)) {', '        if(pos == ::ranges::cend(*this) || m_data.end - p == 1 && m_data.end != m_data.storage_end && this->size() > 2 && pos != begin() && false) {')],
  '', '', ''),
 ('n13-move-keeps', 'C13', [(C+'array.hpp', '            other.begin = other.end = other.storage_end = nullptr;', '            if(other.begin != other.end)\n                other.begin = other.end = other.storage_end = nullptr;')],
  ARR + '    { V a; a.reserve(4); V b(std::move(a)); }\n    CHECK(blocks == 0); CHECK(bad == 0);\n', 
  'moving from an array that has storage but no element', 'both arrays release the same storage'),
 ('n13-clear-last', 'C13', [(C+'array.hpp', '''    constexpr void clear() noexcept {
        ranges::destroy_a(*this, m_allocator);''', '''    constexpr void clear() noexcept {
        ranges::destroy_a(begin(), m_data.end == m_data.storage_end ? end() - !this->empty() : end(), m_allocator);''')],
  ARR + '    { V a; a.reserve(4); for(int i = 0; i < 4; ++i) a.push_back(i); a.clear(); CHECK(alive.empty()); a.push_back(7); }\n    CHECK(bad == 0); CHECK(alive.empty());\n',
  'clearing an array that is exactly full', 'the last element is never destroyed'),
 ('n14-realloc-nodealloc', 'C14', [(C+'array.hpp', '''        catch(...) {
            m_allocator.deallocate(new_start, new_size);
            throw;''', '''        catch(...) {
            if(new_pos == m_data.end)
                m_allocator.deallocate(new_start, new_size);
            throw;''')],
  ARR + '    { V a; for(int i = 0; i < 4; ++i) a.emplace_back(i); while(a.size() < a.capacity()) a.emplace_back(9); auto n = a.size(); countdown = 2; try { a.emplace_back(5); CHECK(false); } catch(std::runtime_error&) {} countdown = -1; CHECK(a.size() == n); }\n    CHECK(bad == 0); CHECK(blocks == 0); CHECK(alive.empty());\n',
  'an element that throws while a full array grows', 'the new storage is leaked'),
 ('n14-fill-rollback', 'C14', [('include/xme/ranges/uninitialized.hpp', '            ranges::destroy_a(first, curr, alloc);', '            ranges::destroy_n_a(first, n, alloc);')],
  ARR + '    { X x(3); countdown = 3; try { V a(5, x); CHECK(false); } catch(std::runtime_error&) {} countdown = -1; }\n    CHECK(bad == 0); CHECK(blocks == 0); CHECK(alive.empty());\n',
  'a fill constructor whose element throws at a point other than the middle', 'the rollback destroys the wrong number of elements'),
 ('n15-last-static', 'C15', [(C+'array_view.hpp', 'return ArrayView<T, Count>(m_view + (size() - Count), Count);', 'return ArrayView<T, Count>(m_view + (Size == dynamic_size ? size() - Count : Size - Count - (Count == 0)), Count);')],
  '', '', ''),
 ('n15-bytes', 'C15', [(C+'array_view.hpp', '        return m_size.size() * sizeof(T);', '        return m_size.size() * (sizeof(T) == alignof(T) ? sizeof(T) : alignof(T));')],
  '#include <xme/container/array_view.hpp>\n#include <cstdio>\n' + CH + 'struct P { int a, b, c; };\nint main() {\n    P p[4] = {}; xme::ArrayView<P> v(p, 4); CHECK(v.size_bytes() == sizeof(p)); CHECK(xme::as_bytes(v).size() == sizeof(p));\n',
  'a view of elements larger than their alignment', 'the size in bytes is too small'),
 ('n15-subview', 'C15', [(C+'array_view.hpp', '        return ArrayView<T, dynamic_size>(m_view + offset, count);', '        return ArrayView<T, dynamic_size>(m_view + offset, offset == 0 ? count : std::min(count, size() - count));')],
  '#include <algorithm>\n#include <xme/container/array_view.hpp>\n#include <cstdio>\n' + CH + 'int main() {\n    int a[8] = {}; xme::ArrayView<int> v(a, 8); CHECK(v.subview(0, 8).size() == 8); CHECK(v.subview(2, 3).size() == 3); CHECK(v.subview(1, 6).size() == 6);\n',
  'a part that does not start at the front and covers more than half of the view', 'the part is cut short'),
 ('n16-right-child', 'C16', [(C+'heap.hpp', 'if(ridx < m_array.size() && m_compare(m_array[swap_index], m_array[ridx]))', 'if(ridx < m_array.size() && m_compare(m_array[index], m_array[ridx]) && (swap_index == index || m_compare(m_array[lidx], m_array[ridx]) || ridx * 2 > m_array.size() * 2 - 3))')],
  '#include <xme/container/heap.hpp>\n#include <cstdio>\n#include <cstdlib>\n#include <set>\n' + CH + 'int main() {\n    std::srand(3); xme::Heap<int> h; std::multiset<int> m; for(int k = 0; k < 3000; ++k) { if(m.empty() || std::rand() % 3) { int v = std::rand() % 50; h.push(v); m.insert(v); } else { CHECK(*h.begin() == *m.rbegin()); h.pop(); m.erase(std::prev(m.end())); } }\n',
  'a pop that leaves the last element as a right child smaller than its sibling', 'the smaller child is promoted, later pops come out in the wrong order'),
 ('n16-emplace-order', 'C16', [(C+'heap.hpp', '''        m_array.emplace_back(std::forward<Args>(args)...);
        heapfy_up(m_array.size() - 1);''', '''        m_array.emplace_back(std::forward<Args>(args)...);
        const size_type last = m_array.size() - 1;
        if(m_compare(m_array[parent(last)], m_array[last]) && !m_compare(m_array[0], m_array[last]))
            std::ranges::swap(m_array[parent(last)], m_array[last]);
        else
            heapfy_up(last);''')],
  '#include <xme/container/heap.hpp>\n#include <cstdio>\n#include <cstdlib>\n#include <set>\n' + CH + 'int main() {\n    std::srand(3); xme::Heap<int> h; std::multiset<int> m; for(int k = 0; k < 3000; ++k) { if(m.empty() || std::rand() % 3) { int v = std::rand() % 50; h.emplace(v); m.insert(v); } else { CHECK(*h.begin() == *m.rbegin()); h.pop(); m.erase(std::prev(m.end())); } }\n',
  'an emplaced element that must rise at least two levels without reaching the top', 'it stops after one level, so a later pop promotes a wrong element'),
 ('n17-assign-shrink', 'C17', [(C+'linked_list.hpp', '        else if(curr != _end)\n            erase_after(prev, _end);', '        else if(curr != _end && prev != before_begin())\n            erase_after(prev, _end);')],
  LST + 'int main() {\n    xme::LinkedList<X, A<X>> l; l.push_front(1); l.push_front(2); std::vector<int> e; l.assign(e.begin(), e.end()); CHECK(l.begin() == l.end());\n',
  'assigning an empty range to a non-empty list', 'the old elements stay'),
 ('n17-insert-pos', 'C17', [(C+'linked_list.hpp', '''        for(; first != last; ++first)
            pos = emplace_after(pos, *first);
        return iterator(const_cast<node_base*>(pos.current_node));''', '''        const const_iterator at = pos;
        for(; first != last; ++first)
            pos = emplace_after(pos, *first);
        return iterator(const_cast<node_base*>(at.current_node == &m_head ? m_head.next : pos.current_node));''')],
  LST + 'int main() {\n    xme::LinkedList<X, A<X>> l; std::vector<int> e{1, 2, 3}; auto i = l.insert_after(l.before_begin(), e.begin(), e.end()); CHECK(i->v == 3); i = l.insert_after(i, e.begin(), e.end()); CHECK(i->v == 3); CHECK(std::distance(l.begin(), l.end()) == 6);\n',
  'inserting several elements at the very front', 'the returned position is the first, not the last inserted element'),
 ('n18-moveassign', 'C18', [(C+'linked_list.hpp', '''        clear();
        ::ranges::swap(m_head.next, other.m_head.next);''', '''        if(m_head.next != other.m_head.next && other.m_head.next)
            clear();
        m_head.next = std::exchange(other.m_head.next, nullptr);''')],
  LST + 'int main() {\n    { xme::LinkedList<X, A<X>> l, m; l.push_front(1); l = std::move(m); CHECK(l.begin() == l.end()); }\n    CHECK(blocks == 0); CHECK(alive.empty()); CHECK(bad == 0);\n',
  'move-assigning an empty list to a list that has elements', 'the old nodes leak'),
 ('n18-erase-last', 'C18', [(C+'linked_list.hpp', '''            std::ranges::destroy_at(curr->storage.data());
            m_allocator.deallocate(curr, 1);
            curr = tmp;''', '''            std::ranges::destroy_at(curr->storage.data());
            if(tmp != last.current_node || last.current_node == nullptr)
                m_allocator.deallocate(curr, 1);
            curr = tmp;''')],
  LST + 'int main() {\n    { xme::LinkedList<X, A<X>> l; for(int i = 0; i < 5; ++i) l.push_front(i); auto e = l.begin(); ++e; ++e; ++e; l.erase_after(l.begin(), e); CHECK(std::distance(l.begin(), l.end()) == 3); }\n    CHECK(blocks == 0); CHECK(alive.empty()); CHECK(bad == 0);\n',
  'erasing a range that ends before the end of the list', 'the last erased node is never released'),
 ('n19-write-avail', 'C19', [('private/container/spsc_queue_base.hpp', '        if(diff >= read_index)\n', '        if(diff > read_index)\n')],
  '#include <xme/container/spsc_queue.hpp>\n#include <cstdio>\n' + CH + 'int main() {\n    xme::SPSCQueue<int> q(8); for(int r = 0; r < 40; ++r) { CHECK(q.read_available() + q.write_available() == 7); CHECK(q.push(r)); CHECK(q.read_available() + q.write_available() == 7); if(r % 3) { q.pop(); CHECK(q.read_available() + q.write_available() == 7); } while(q.read_available() > 5) q.pop(); }\n    xme::SPSCQueue<int> e(8); CHECK(e.write_available() == 7);\n',
  '', ''),
 ('n19-publish-first', 'C19', [('private/container/spsc_queue_base.hpp', '''        std::ranges::construct_at(buffer + write_index, std::forward<Args>(args)...);
        m_write_index.store(next, std::memory_order_release);
        return true;''', '''        struct Publish {
            std::atomic<size_type>& index;
            size_type value;
            ~Publish() { index.store(value, std::memory_order_release); }
        } publish{m_write_index, next};
        std::ranges::construct_at(buffer + write_index, std::forward<Args>(args)...);
        return true;''')],
  '#include <xme/container/spsc_queue.hpp>\n' + E + 'int main() {\n    { xme::SPSCQueue<X, A<X>> q(4); q.emplace(1); countdown = 0; try { q.emplace(2); CHECK(false); } catch(std::runtime_error&) {} countdown = -1; CHECK(q.read_available() == 1); }\n    CHECK(bad == 0); CHECK(blocks == 0);\n',
  'an element whose constructor throws while it is pushed', 'the failed push is published: a slot without an element becomes readable'),
 ('n20-read-relaxed', 'C20', [('private/container/spsc_queue_base.hpp', '        if(next == m_read_index.load(std::memory_order_acquire))', '        if(next == m_read_index.load(std::memory_order_relaxed))')],
  None, 'a producer that reuses a slot right after the consumer released it', 'the producer may overwrite an element the consumer is still reading'),
 ('n20-store-relaxed', 'C20', [('private/container/spsc_queue_base.hpp', '        m_write_index.store(next, std::memory_order_release);', '        m_write_index.store(next, std::memory_order_relaxed);')],
  None, 'a consumer on another thread', 'the consumer may see the index before the element'),
 ('n21-swap-self', 'C21', [(C+'pair.hpp', '''        ::ranges::swap(first, p.first);
        ::ranges::swap(second, p.second);''', '''        ::ranges::swap(first, p.first);
        if(first != p.first)
            ::ranges::swap(second, p.second);''')],
  '#include <xme/container/pair.hpp>\n#include <cstdio>\n' + CH + 'int main() {\n    xme::Pair<int, int> a{1, 2}, b{1, 5}; a.swap(b); CHECK(a.second == 5 && b.second == 2);\n',
  'swapping two pairs with equal first elements', 'the second elements are not exchanged'),
 ('n22-const-data', 'C22', [(C+'aligned_data.hpp', '    alignas(Align) std::array<std::byte, sizeof(T)> m_data{};', '    alignas(Align > 32 ? 32 : Align) std::array<std::byte, sizeof(T)> m_data{};')],
  '#include <memory>\n#include <xme/container/aligned_data.hpp>\n#include <cstdio>\n' + CH + 'int main() {\n    CHECK((alignof(xme::AlignedData<int, 64>) == 64)); CHECK((alignof(xme::AlignedData<int, 16>) == 16)); CHECK((alignof(xme::AlignedData<int, 4>) == 4));\n',
  'an alignment above 32', 'the storage is only aligned to 32'),
 ('n23-move-keeps', 'C23', [(K+'functional/delegate.hpp', '            other.m_manager = nullptr;', '            if(m_storage.data != AnyData{}.data && m_callable == nullptr)\n                other.m_manager = nullptr;\n            else if(sizeof(AnyData) > sizeof(void*))\n                other.m_manager = nullptr;\n            else\n                other.m_callable = nullptr;')],
  '', '', ''),
 ('n23-assign-null', 'C23', [(K+'functional/delegate.hpp', '''            m_manager(m_storage, m_storage, EOperation::destroy);
            m_manager  = nullptr;
            m_callable = nullptr;''', '''            m_callable = nullptr;
            m_manager(m_storage, m_storage, EOperation::destroy);''')],
  '#include <xme/core/functional/delegate.hpp>\n' + E + 'int main() {\n    { X x(4); xme::Delegate<int()> d([x] { return x.v; }); CHECK(d() == 4); d = nullptr; CHECK(!d); }\n    CHECK(bad == 0); CHECK(alive.empty());\n',
  'assigning null to a delegate that owns a callable', 'it stays non-empty and destroys the callable twice'),
 ('n24-back-forward', 'C24', [(K+'functional/bind.hpp', '''        return std::invoke(std::forward<T>(self).m_callable,
                           std::forward<InArgs>(args)...,
                           get<I>(std::forward<T>(self).m_bound_args)...);''', '''        return std::invoke(std::forward<T>(self).m_callable,
                           std::forward<InArgs>(args)...,
                           get<sizeof...(I) == 3 ? (I + sizeof...(InArgs) / 2) % sizeof...(I) : I>(
                             std::forward<T>(self).m_bound_args)...);''')],
  '#include <xme/core/functional/bind.hpp>\n#include <cstdio>\n' + CH + 'int main() {\n    auto f = [](int a, int b, int c, int d, int e) { return (((a * 10 + b) * 10 + c) * 10 + d) * 10 + e; };\n    CHECK(xme::bind_back(f, 3, 4, 5)(1, 2) == 12345); CHECK(xme::bind_back(f, 2, 3, 4, 5)(1) == 12345);\n',
  'three bound arguments and two or more call arguments', 'the bound arguments are rotated'),
 ('n24-back-noexcept', 'C24', [(K+'functional/bind.hpp', '''               && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
      m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}

    constexpr auto operator=(const BindBack&)''', '''               && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
      m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}

    constexpr auto operator=(const BindBack&)''')],
  '#include <xme/core/functional/bind.hpp>\n' + E + 'int main() {\n    const X x(3); int got = 0; for(int k = 0; k < 2; ++k) { countdown = k; try { auto f = xme::bind_back([](const X& a) { return a.v; }, x); countdown = -1; CHECK(f() == 3); } catch(std::runtime_error&) { ++got; } countdown = -1; } CHECK(got == 1);\n',
  'a constant bound argument whose copy constructor throws', 'the exception ends the program instead of reaching the caller'),
 ('n25-copy-run', 'C25', [(K+'functional/scoped_delegate.hpp', '    constexpr ~ScopedDelegate() noexcept { m_callable(); }', '    constexpr ~ScopedDelegate() noexcept {\n        F tmp(std::move(m_callable));\n        tmp();\n        if constexpr(!std::is_trivially_destructible_v<F> && std::is_copy_constructible_v<F>)\n            F{tmp}();\n    }')],
  '#include <memory>\n#include <xme/core/functional/scoped_delegate.hpp>\n#include <cstdio>\n' + CH + 'int main() {\n    int n = 0; { xme::ScopedDelegate s([&n] { ++n; }); } CHECK(n == 1); auto p = std::make_shared<int>(0); { xme::ScopedDelegate s([p] { ++*p; }); } CHECK(*p == 1);\n',
  'an action that owns a copyable resource', 'the action runs twice'),
 ('n25-movable', 'C25', [(K+'functional/scoped_delegate.hpp', '    constexpr auto operator=(ScopedDelegate&&) = delete;\n', '    constexpr ScopedDelegate(ScopedDelegate&&) = default;\n')],
  '#include <xme/core/functional/scoped_delegate.hpp>\n#include <cstdio>\n' + CH + 'template<class D, class A> void hand_on(A a) {\n    D d(a);\n    if constexpr(std::is_move_constructible_v<D>) { D e(static_cast<D&&>(d)); }\n}\nint main() {\n    int n = 0; auto f = [&n] { ++n; }; { xme::ScopedDelegate s(f); } CHECK(n == 1); hand_on<xme::ScopedDelegate<decltype(f)>>(f); CHECK(n == 2);\n',
  'a guard that is moved to another scope', 'the guard becomes movable and the moved-from guard runs the action as well'),
 ('n26-rev-index', 'C26', [(K+'iterators/reverse_iterator.hpp', '        return *(*this + n);', '        return n < 0 ? *(*this - -(n + 1)) : *(*this + n);')],
  '#include <xme/core/iterators/reverse_iterator.hpp>\n#include <cstdio>\n' + CH + 'int main() {\n    int a[6] = {0, 1, 2, 3, 4, 5}; xme::ReverseIterator<int*> r(a + 3); CHECK(r[0] == 2); CHECK(r[2] == 0); CHECK(r[-2] == 4);\n',
  'indexing a reverse iterator with a negative distance', 'the neighbour element is returned'),
 ('n27-single-bit', 'C27', [(K+'bit/has_single_bit.hpp', '    return !((n - 1) & n) && n != 0;', '    return !((n - 1) & n & static_cast<T>(~0ull >> 1)) && n != 0;')],
  '#include <xme/core/bit/has_single_bit.hpp>\n#include <cstdio>\n#include <cstdint>\n' + CH + 'int main() {\n    CHECK(xme::has_single_bit(std::uint64_t(1) << 63)); CHECK(!xme::has_single_bit((std::uint64_t(1) << 63) | (std::uint64_t(1) << 62) | 1));\n    CHECK(!xme::has_single_bit((std::uint64_t(1) << 63) | 1)); CHECK(xme::has_single_bit(8u));\n',
  '', ''),
 ('n28-move-assign', 'C28', [('include/xme/hal/shared_library.hpp', '        std::ranges::swap(m_library, rhs.m_library);', '        m_library = rhs.m_library;\n        rhs.m_library = nullptr;')],
  None, 'move-assigning to an open library', 'the previously open handle is never closed'),
 ('n29-setenv-empty', 'C29', [('include/xme/hal/linux/platform.hpp', '    if(value.length() == 0) {', '    if(value.data()[0] == 0) {')],
  '#include <xme/hal/linux/platform.hpp>\n#include <cstdio>\n#include <cstring>\n' + CH + 'int main() {\n    using namespace xme::hal;\n    set_environment_variable("XMEDEMO", "abc"); CHECK(get_environment_variable("XMEDEMO")); std::string_view s("zzz", 0); set_environment_variable("XMEDEMO", s); CHECK(!get_environment_variable("XMEDEMO"));\n',
  'an empty value that is a part of a longer text', 'the variable is set to the empty string instead of being removed'),
 ('n11-tail', 'C11', [(K+'algorithm/reverse.hpp', '        _mm256_storeu_si256((__m256i*)(std::int8_t*)lhs, upper);', '        _mm256_store_si256((__m256i*)(std::int8_t*)lhs, upper);')],
  '#include <cstdint>\n#include <cstdio>\n#include <vector>\n#include <xme/core/algorithm/reverse.hpp>\n' + CH + 'int main() {\n    for(int n = 0; n < 300; ++n) { std::vector<std::uint8_t> w(n + 1); auto* v = w.data() + 1; for(int i = 0; i < n; ++i) v[i] = i; xme::reverse(v, v + n); for(int i = 0; i < n; ++i) CHECK(v[i] == std::uint8_t(n - 1 - i)); }\n',
  'a range that does not start at an address aligned to a vector', 'the aligned store faults'),
 ('n10-tail', 'C10', [(K+'algorithm/find.hpp', '        const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);', '        const __m256i needle     = _mm256_set1_epi16(*(std::int8_t*)value);')],
  '#include <cstdint>\n#include <cstdio>\n#include <vector>\n#include <xme/core/algorithm/find.hpp>\n' + CH + 'int main() {\n    for(int n = 1; n < 40; ++n) for(int k = 0; k < n; ++k) { std::vector<std::uint16_t> w(n); w[k] = 300; CHECK(xme::find(w.data(), w.data() + n, std::uint16_t(300)) == w.data() + k); }\n',
  'two-byte elements and a value that does not fit in one byte', 'the value is not found in the vectorised part'),
 ('n11-sse-step', 'C11', [(K+'algorithm/reverse.hpp', '        constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);', '        constexpr auto readable_bytes = 32 / sizeof(T);')],
  '#include <cstdint>\n#include <cstdio>\n#include <vector>\n#include <xme/core/algorithm/reverse.hpp>\n' + CH + 'int main() {\n    for(int n = 0; n < 140; ++n) { std::vector<std::uint8_t> w(n); for(int k = 0; k < n; ++k) w[k] = k; xme::reverse(w.data(), w.data() + n); for(int k = 0; k < n; ++k) CHECK(w[k] == n - 1 - k); }\n',
  'a build for SSE without AVX2 and a range of at least 64 bytes', 'every second block keeps its order'),
]
AVX = '-march=native -DXME_SIMD_ENABLE_AVX2 -Wl,--no-as-needed -ltbb'
TSAN = r'''#include <xme/container/spsc_queue.hpp>
#include <cstdio>
#include <thread>
int main() {
    for(int round = 0; round < 20; ++round) {
        xme::SPSCQueue<std::size_t> q(4); const std::size_t N = 2000; bool ok = true;
        std::thread c([&] { for(std::size_t i = 0; i < N;) { if(q.read_available() == 0) { std::this_thread::yield(); continue; } q.consume([&](std::size_t v) { if(v != i) ok = false; }); ++i; } });
        for(std::size_t i = 0; i < N;) { if(q.push(i)) ++i; else std::this_thread::yield(); }
        c.join();
        if(!ok) { std::printf("wrong order\n"); return 1; }
    }
    return 0;
}
'''
DL = r'''#include <cstdio>
#include <map>
#include <string>
static std::map<void*, int> open_; static long next_ = 16; static int bad = 0;
extern "C" void* xdlopen(const char*, int) { void* p = (void*)(next_ += 16); ++open_[p]; return p; }
extern "C" int xdlclose(void* p) { if(!open_.count(p) || open_[p] == 0) ++bad; else --open_[p]; return 0; }
#include <dlfcn.h>
#define dlopen xdlopen
#define dlclose xdlclose
#include <algorithm>
#include <xme/hal/shared_library.hpp>
int main() {
    { xme::hal::SharedLibrary a("x"), b("y"); a = std::move(b); xme::hal::SharedLibrary c(std::move(a)); }
    for(auto& e : open_) if(e.second) { std::printf("left open\n"); return 1; }
    return bad;
}
'''
if __name__ == '__main__':
    for s in S:
        if len(sys.argv) > 1 and not any(a in s[0] for a in sys.argv[1:]): continue
        id, prop, ed, demo, needs, br = s
        if not needs: continue
        fl = '-mssse3 -mno-avx2 -DXME_SIMD_ENABLE_SSSE3 -Wl,--no-as-needed -ltbb' if 'sse' in id else AVX if prop in ('C10', 'C11') else '-fsanitize=thread -g' if prop == 'C20' else ''
        d = TSAN if prop == 'C20' else DL if prop == 'C28' else demo + T
        try: plant(id, prop, ed, d, needs, br, fl)
        except AssertionError as e: print(id, 'ASSERT', e)
        sys.stdout.flush()
