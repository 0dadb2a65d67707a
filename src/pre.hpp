// Precondition machine: brings containers into random states and then makes calls that
// violate exactly one documented precondition. Every such call has to fail an assertion
// (__assert_fail is replaced by a jump back here while one is expected).
#pragma once
#include "ob.hpp"
#include <initializer_list>
#include <limits>

#include <sfl/compact_vector.hpp>
#include <sfl/devector.hpp>
#include <sfl/segmented_devector.hpp>
#include <sfl/segmented_vector.hpp>
#include <sfl/small_flat_map.hpp>
#include <sfl/small_flat_multimap.hpp>
#include <sfl/small_flat_multiset.hpp>
#include <sfl/small_flat_set.hpp>
#include <sfl/small_unordered_flat_map.hpp>
#include <sfl/small_unordered_flat_multimap.hpp>
#include <sfl/small_unordered_flat_multiset.hpp>
#include <sfl/small_unordered_flat_set.hpp>
#include <sfl/small_vector.hpp>
#include <sfl/static_flat_map.hpp>
#include <sfl/static_flat_multimap.hpp>
#include <sfl/static_flat_multiset.hpp>
#include <sfl/static_flat_set.hpp>
#include <sfl/static_unordered_flat_map.hpp>
#include <sfl/static_unordered_flat_multimap.hpp>
#include <sfl/static_unordered_flat_multiset.hpp>
#include <sfl/static_unordered_flat_set.hpp>
#include <sfl/static_vector.hpp>
#include <sfl/vector.hpp>

#include <csetjmp>

namespace pre
{
using namespace pbt;
using namespace ob;

template <class C> struct Info;
#define PRE_INFO_SEQ(pattern, args, FAM, NN, AL) template <args> struct Info<pattern> { static constexpr u32 fam = FAM; static constexpr std::size_t N = NN; static constexpr bool map = false; using Al = AL; };
#define COMMA ,
PRE_INFO_SEQ(sfl::vector<T COMMA A>, class T COMMA class A, F_VEC, 0, A)
PRE_INFO_SEQ(sfl::compact_vector<T COMMA A>, class T COMMA class A, F_COMPACT, 0, A)
PRE_INFO_SEQ(sfl::devector<T COMMA A>, class T COMMA class A, F_DEV, 0, A)
PRE_INFO_SEQ(sfl::small_vector<T COMMA M COMMA A>, class T COMMA std::size_t M COMMA class A, F_SMALL, M, A)
PRE_INFO_SEQ(sfl::static_vector<T COMMA M>, class T COMMA std::size_t M, F_STATIC, M, void)
PRE_INFO_SEQ(sfl::segmented_vector<T COMMA M COMMA A>, class T COMMA std::size_t M COMMA class A, F_SEG, M, A)
PRE_INFO_SEQ(sfl::segmented_devector<T COMMA M COMMA A>, class T COMMA std::size_t M COMMA class A, F_SEGDEV, M, A)
#define PRE_INFO_SET(cont, FAM) \
    template <class K, std::size_t NN, class Q, class A> struct Info<sfl::small_##cont<K, NN, Q, A>> { static constexpr u32 fam = FAM | F_SMALL; static constexpr bool map = false; static constexpr std::size_t N = NN; using Al = A; }; \
    template <class K, std::size_t NN, class Q> struct Info<sfl::static_##cont<K, NN, Q>> { static constexpr u32 fam = FAM | F_STATIC; static constexpr bool map = false; static constexpr std::size_t N = NN; using Al = void; };
#define PRE_INFO_MAP(cont, FAM) \
    template <class K, class M, std::size_t NN, class Q, class A> struct Info<sfl::small_##cont<K, M, NN, Q, A>> { static constexpr u32 fam = FAM | F_SMALL; static constexpr bool map = true; static constexpr std::size_t N = NN; using Al = A; }; \
    template <class K, class M, std::size_t NN, class Q> struct Info<sfl::static_##cont<K, M, NN, Q>> { static constexpr u32 fam = FAM | F_STATIC; static constexpr bool map = true; static constexpr std::size_t N = NN; using Al = void; };
PRE_INFO_SET(flat_set, F_OSET)
PRE_INFO_SET(flat_multiset, F_OMULTI)
PRE_INFO_SET(unordered_flat_set, F_USET)
PRE_INFO_SET(unordered_flat_multiset, F_UMULTI)
PRE_INFO_MAP(flat_map, F_OSET)
PRE_INFO_MAP(flat_multimap, F_OMULTI)
PRE_INFO_MAP(unordered_flat_map, F_USET)
PRE_INFO_MAP(unordered_flat_multimap, F_UMULTI)


inline jmp_buf jb;
inline volatile bool armed = false;
} // namespace pre

extern "C" __attribute__((weak, noreturn)) void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) noexcept
{
    if (pre::armed) { pre::armed = false; longjmp(pre::jb, 1); }
    std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, fn, expr);
    std::abort();
}

namespace pre
{
// A single-pass iterator over ints.
struct In
{
    using iterator_category = std::input_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = const int&;
    const int* p;
    const int& operator*() const { return *p; }
    In& operator++() { ++p; return *this; }
    In operator++(int) { In t = *this; ++p; return t; }
    friend bool operator==(const In& a, const In& b) { return a.p == b.p; }
    friend bool operator!=(const In& a, const In& b) { return a.p != b.p; }
};
struct InP
{
    using iterator_category = std::input_iterator_tag; using value_type = std::pair<int, int>; using difference_type = std::ptrdiff_t; using pointer = const value_type*; using reference = const value_type&;
    const value_type* p;
    const value_type& operator*() const { return *p; }
    InP& operator++() { ++p; return *this; }
    InP operator++(int) { InP t = *this; ++p; return t; }
    friend bool operator==(const InP& a, const InP& b) { return a.p == b.p; }
    friend bool operator!=(const InP& a, const InP& b) { return a.p != b.p; }
};

struct Base
{
    Ctx& ctx; const Case& cs;
    Cat cat = PRECOND;
    int violations = 0;
    bool stop = false; // the container may have been left half-way through an operation
    Base(const Case& c, Ctx& x) : ctx(x), cs(c) { ctx.op_cat = &cat; }
    ~Base() { ctx.op_cat = nullptr; armed = false; }

    template <class F> void must_assert(const char* what, std::size_t n, std::size_t cap, F&& f)
    {
        ctx.log("%s with size %zu, capacity %zu\n", what, n, cap);
        ++violations;
        armed = true;
        if (setjmp(jb) == 0)
        {
            try { f(); }
            catch (...) { armed = false; ctx.fail(PRECOND, "%s with size %zu and capacity %zu violates a precondition: it threw an exception instead of failing an assertion", what, n, cap); }
            armed = false;
            ctx.fail(PRECOND, "%s with size %zu and capacity %zu violates a precondition but no assertion failed", what, n, cap);
        }
    }
};
template <class D> void sink(const D& d) { volatile char c = reinterpret_cast<const volatile char&>(d); (void)c; }

// Containers live in storage that is never given back, as an operation interrupted by
// a failed assertion must not be destroyed.
template <class C> struct Raw
{
    alignas(64) unsigned char mem[sizeof(C)];
    C& get() { return *reinterpret_cast<C*>(mem); }
};

template <class C>
struct Seq : Base
{
    using I = Info<C>;
    using T = typename C::value_type;
    using Al = typename I::Al;
    static constexpr u32 fam = I::fam;
    static constexpr std::size_t N = I::N;
    static constexpr bool is_static = fam == F_STATIC;
    static constexpr bool dev = fam == F_DEV || fam == F_SEGDEV;
    static constexpr bool has_reserve = fam == F_VEC || fam == F_SMALL || fam == F_SEG;
    Raw<C>& r; Raw<C>& r2; Raw<C>& r3;
    // the container under test lies before or behind the one whose positions it is given
    static std::size_t side(const Case& c) { return c.rows.empty() ? 0 : c.rows[0].c[2] & 1; }
    Seq(const Case& c, Ctx& x, Raw<C>* raw) : Base(c, x), r(raw[side(c)]), r2(raw[1 - side(c)]), r3(raw[2]) {}

    void mutate(C& c, u32 op, u32 a, u32 b)
    {
        const std::size_t n = c.size();
        const std::size_t room = is_static ? c.capacity() - n : n > 60 ? 0 : 70;
        switch (op % 12)
        {
        case 0: case 1: for (u32 i = 0; i < 1 + a % 9 && i < room; ++i) c.push_back(int(i)); break;
        case 2: if (room) c.insert(c.nth(a % (n + 1)), int(b)); break;
        case 3: { const std::size_t q = std::min<std::size_t>(b % 12, room); c.insert(c.nth(a % (n + 1)), q, 7); break; }
        case 4: if (n) c.erase(c.nth(a % n)); break;
        case 5: { const std::size_t i = a % (n + 1), j = i + b % (n - i + 1); c.erase(c.nth(i), c.nth(j)); break; }
        case 6: if (n) c.pop_back(); break;
        case 7: if (b % 3 == 0) c.clear(); break;
        case 8: if constexpr (dev) { if (a & 1) c.reserve_front(n + b % 20); else c.reserve_back(n + b % 20); } else if constexpr (has_reserve) c.reserve(n + b % 20); break;
        case 9: if constexpr (!is_static && fam != F_COMPACT) { if (b % 2) c.shrink_to_fit(); } break;
        case 10: if constexpr (dev) { if (a & 1) { if (n) c.pop_front(); } else for (u32 i = 0; i < 1 + b % 9 && i < room; ++i) c.push_front(int(i)); } break;
        default: c.resize(is_static ? b % (c.capacity() + 1) : b % 40);
        }
    }
    template <class It> void bad_positions(C& c, const char* where, It pos, u32 a, u32 b)
    {
        const std::size_t n = c.size(), cap = c.capacity();
        (void)where;
        const std::size_t room = is_static ? cap - n : 100;
        switch (a % 9)
        {
        case 0: if (room) { const T t(1); must_assert("insert(bad position, const T&)", n, cap, [&] { c.insert(pos, t); }); } break;
        case 1: if (room) must_assert("insert(bad position, T&&)", n, cap, [&] { c.insert(pos, T(1)); }); break;
        case 2: { const std::size_t q = std::min<std::size_t>(b % 5, room); must_assert("insert(bad position, n, value)", n, cap, [&] { c.insert(pos, q, T(1)); }); break; }
        case 3: { const std::size_t q = std::min<std::size_t>(b % 4, room); const int arr[4] = {1, 2, 3, 4}; must_assert("insert(bad position, first, last)", n, cap, [&] { c.insert(pos, arr, arr + q); }); break; }
        case 4: if (room) { const std::size_t q = std::min<std::size_t>(1 + b % 3, room); const int arr[4] = {1, 2, 3, 4}; stop = true; must_assert("insert(bad position, first, last) with input iterators", n, cap, [&] { c.insert(pos, In{arr}, In{arr + q}); }); break; }
        case 5: if (room >= 2) must_assert("insert(bad position, initializer list)", n, cap, [&] { c.insert(pos, {T(1), T(2)}); }); break;
        case 6: if (room) must_assert("emplace(bad position)", n, cap, [&] { c.emplace(pos, 1); }); break;
        case 7: must_assert("erase(bad position)", n, cap, [&] { c.erase(pos); }); break;
        default: must_assert("index_of(bad position)", n, cap, [&] { (void)c.index_of(pos); }); break;
        }
    }
    void violate(u32 op, u32 a, u32 b)
    {
        C& c = r.get();
        const C& cc = c;
        const std::size_t n = c.size(), cap = c.capacity();
        static const std::size_t over[] = {0, 0, 1, 2, 3, 7, 100, std::size_t(1) << 40, ~std::size_t(0) >> 1};
        const std::size_t ov = over[a % 9];
        switch (op % 16)
        {
        case 0: if (n == 0) must_assert("front() of an empty container", n, cap, [&] { if (a & 1) sink(c.front()); else sink(cc.front()); }); break;
        case 1: if (n == 0) must_assert("back() of an empty container", n, cap, [&] { if (a & 1) sink(c.back()); else sink(cc.back()); }); break;
        case 2: if (n == 0) must_assert("pop_back() of an empty container", n, cap, [&] { c.pop_back(); }); break;
        case 3: if constexpr (dev) { if (n == 0) must_assert("pop_front() of an empty container", n, cap, [&] { c.pop_front(); }); } break;
        case 4: must_assert("operator[] beyond the end", n, cap, [&] { if (b & 1) (void)&c[n + ov]; else (void)&cc[n + ov]; }); break;
        case 5: must_assert("nth() beyond the end", n, cap, [&] { if (b & 1) (void)c.nth(n + 1 + ov); else (void)cc.nth(n + 1 + ov); }); break;
        case 6: must_assert("erase(end())", n, cap, [&] { c.erase(cc.end()); }); break;
        case 7: if (n) { const std::size_t i = a % (n + 1), j = b % (n + 1); if (i != j) must_assert("erase(first, last) with first behind last", n, cap, [&] { c.erase(cc.nth(std::max(i, j)), cc.nth(std::min(i, j))); }); } break;
        case 8:
        {
            // a position in another container
            C& o = r2.get();
            if (o.size() < 2) return;
            const C& co = o;
            bad_positions(c, "another container", co.nth(1 + b % (o.size() - 1)), a, b / 7);
            break;
        }
        case 9:
        {
            // one bound of the range is in another container, or both
            C& o = r2.get();
            if (o.size() < 2) return;
            const C& co = o;
            const auto p = co.nth(1 + b % (o.size() - 1));
            if (a % 3 == 0) must_assert("erase(first, last) of another container", n, cap, [&] { c.erase(p, co.end()); });
            else if (a % 3 == 1) must_assert("erase(first, last) with last in another container", n, cap, [&] { c.erase(cc.begin(), p); });
            else must_assert("erase(first, last) with first in another container", n, cap, [&] { c.erase(p, cc.end()); });
            break;
        }
        case 10: case 11:
            if constexpr (!is_static)
            {
                using Tr = std::allocator_traits<Al>;
                if constexpr (!Tr::propagate_on_container_swap::value)
                {
                    C& o = r3.get();
                    must_assert("swap with unequal allocators that do not propagate", n, cap, [&] { if (a & 1) c.swap(o); else { using std::swap; swap(c, o); } });
                }
                break;
            }
            // fall through
        default:
            if constexpr (is_static)
            {
                if (a % 16 == 3) { if ((b & 1) && cap > n) bad_positions(c, "behind the end", cc.end() + 1, a / 16, b / 2); else bad_positions(c, "before the beginning", cc.begin() - 1, a / 16, b / 2); }
                else full(op, a, b);
            }
            else if constexpr (fam == F_SEG || fam == F_SEGDEV)
            {
                std::size_t spare;
                if constexpr (fam == F_SEG) spare = c.available(); else spare = c.available_back();
                if constexpr (fam == F_SEGDEV)
                    if ((b & 64) && c.available_front() > 0) { auto p = cc.begin(); --p; bad_positions(c, "before the beginning", p, a, b / 128); break; }
                if (spare > 0) { auto p = cc.end(); ++p; bad_positions(c, "behind the end", p, a, b); }
            }
            else
            {
                // just outside of the container, but inside of its storage
                if (cap > n && fam != F_DEV && !(b & 64)) bad_positions(c, "behind the end", cc.end() + 1, a, b);
                else if (cap > 0 && fam != F_DEV) bad_positions(c, "before the beginning", cc.begin() - 1, a, b / 128);
                else if constexpr (fam == F_DEV)
                {
                    if (c.available_back() > 0 && (b & 1)) bad_positions(c, "behind the end", cc.end() + 1, a, b / 2);
                    else if (c.available_front() > 0) bad_positions(c, "before the beginning", cc.begin() - 1, a, b / 2);
                }
            }
        }
    }
    void full(u32 op, u32 a, u32 b)
    {
        if constexpr (is_static)
        {
            C& c = r.get();
            const C& cc = c;
            const std::size_t n = c.size(), cap = c.capacity();
            const std::size_t more = cap - n + 1 + a % 5, q = cap + 1 + a % 5;
            static int arr[256];
            struct Fill { Fill() { for (int i = 0; i < 256; ++i) arr[i] = i; } };
            static Fill fill;
            if (c.full() != (n == cap)) ctx.fail(PRECOND, "full() is wrong with %zu of %zu elements", n, cap);
            const auto pos = cc.nth(b % (n + 1));
            static Raw<C> tmp;
            auto fresh = [&] { ctx.log("(into a new container)\n"); };
            switch ((op / 16 + b / 3) % 20)
            {
            case 0: if (n == cap) { const T t(1); must_assert("push_back(const T&) on a full container", n, cap, [&] { c.push_back(t); }); } break;
            case 1: if (n == cap) must_assert("push_back(T&&) on a full container", n, cap, [&] { c.push_back(T(1)); }); break;
            case 2: if (n == cap) must_assert("emplace_back() on a full container", n, cap, [&] { c.emplace_back(1); }); break;
            case 3: if (n == cap) { const T t(1); must_assert("insert(pos, const T&) on a full container", n, cap, [&] { c.insert(pos, t); }); } break;
            case 4: if (n == cap) must_assert("insert(pos, T&&) on a full container", n, cap, [&] { c.insert(pos, T(1)); }); break;
            case 5: if (n == cap) must_assert("emplace(pos) on a full container", n, cap, [&] { c.emplace(pos, 1); }); break;
            case 6: must_assert("insert(pos, n, value) beyond the capacity", n, cap, [&] { c.insert(pos, more, T(1)); }); break;
            case 7: stop = true; must_assert("insert(pos, first, last) beyond the capacity", n, cap, [&] { c.insert(pos, arr, arr + more); }); break;
            case 8: stop = true; must_assert("insert(pos, first, last) with input iterators beyond the capacity", n, cap, [&] { c.insert(pos, In{arr}, In{arr + more}); }); break;
            case 9: if (cap - n < 3) { stop = true; must_assert("insert(pos, initializer list) beyond the capacity", n, cap, [&] { c.insert(pos, {T(1), T(2), T(3)}); }); } break;
            case 10: must_assert("resize(n) beyond the capacity", n, cap, [&] { if (a & 4) c.resize(q, sfl::default_init_t()); else c.resize(q); }); break;
            case 11: must_assert("resize(n, value) beyond the capacity", n, cap, [&] { c.resize(q, T(1)); }); break;
            case 12: must_assert("assign(n, value) beyond the capacity", n, cap, [&] { c.assign(q, T(1)); }); break;
            case 13: stop = true; must_assert("assign(first, last) beyond the capacity", n, cap, [&] { c.assign(arr, arr + q); }); break;
            case 14: stop = true; must_assert("assign(first, last) with input iterators beyond the capacity", n, cap, [&] { c.assign(In{arr}, In{arr + q}); }); break;
            case 15: fresh(); must_assert("constructor (n)", n, cap, [&] { if (a & 4) ::new (static_cast<void*>(tmp.mem)) C(q, sfl::default_init_t()); else ::new (static_cast<void*>(tmp.mem)) C(q); }); break;
            case 16: fresh(); must_assert("constructor (n, value)", n, cap, [&] { ::new (static_cast<void*>(tmp.mem)) C(q, T(1)); }); break;
            case 17: fresh(); must_assert("constructor (first, last)", n, cap, [&] { ::new (static_cast<void*>(tmp.mem)) C(arr, arr + q); }); break;
            case 18: fresh(); must_assert("constructor (first, last) with input iterators", n, cap, [&] { ::new (static_cast<void*>(tmp.mem)) C(In{arr}, In{arr + q}); }); break;
            default:
                if (cap < 5)
                {
                    stop = true;
                    if (a % 3 == 0) must_assert("assign(initializer list) beyond the capacity", n, cap, [&] { c.assign({T(1), T(2), T(3), T(4), T(5)}); });
                    else if (a % 3 == 1) must_assert("assignment of an initializer list beyond the capacity", n, cap, [&] { c = {T(1), T(2), T(3), T(4), T(5)}; });
                    else must_assert("constructor (initializer list) beyond the capacity", n, cap, [&] { ::new (static_cast<void*>(tmp.mem)) C({T(1), T(2), T(3), T(4), T(5)}); });
                }
            }
        }
    }
    void run()
    {
        g.reset();
        if constexpr (is_static) { ::new (static_cast<void*>(r.mem)) C(); ::new (static_cast<void*>(r2.mem)) C(); }
        else
        {
            ::new (static_cast<void*>(r.mem)) C(Al(1)); ::new (static_cast<void*>(r2.mem)) C(Al(1)); ::new (static_cast<void*>(r3.mem)) C(Al(2));
            for (int i = 0; i < int(cs.rows.empty() ? 0 : cs.rows[0].c[1] % 7); ++i) r3.get().push_back(i);
        }
        for (int i = 0; i < int(cs.rows.empty() ? 0 : 2 + cs.rows[0].c[0] % 7) && (!is_static || r2.get().size() < r2.get().capacity()); ++i) r2.get().push_back(i);
        for (std::size_t i = 1; i < cs.rows.size() && !stop; ++i)
        {
            ctx.cur_row = int(i);
            const Row& w = cs.rows[i];
            ctx.mix(w.c[0] % 4096); ctx.mix(r.get().size());
            if (w.c[1] % 5 < 2) mutate(r.get(), w.c[0], w.c[2], w.c[3]);
            else violate(w.c[0], w.c[2], w.c[3]);
        }
        PBT_LABEL(ctx, "cases");
        if (violations >= 3) ctx.nontrivial = true;
    }
};

template <class C>
struct Assoc : Base
{
    using I = Info<C>;
    using T = typename C::value_type;
    using Al = typename I::Al;
    static constexpr u32 fam = I::fam;
    static constexpr std::size_t N = I::N;
    static constexpr bool map = I::map;
    static constexpr bool is_static = (fam & F_STATIC) != 0;
    static constexpr bool multi = (fam & (F_OMULTI | F_UMULTI)) != 0;
    static constexpr bool umap = map && !multi;
    Raw<C>& r; Raw<C>& r2; Raw<C>& r3;
    static std::size_t side(const Case& c) { return c.rows.empty() ? 0 : c.rows[0].c[2] & 1; }
    Assoc(const Case& c, Ctx& x, Raw<C>* raw) : Base(c, x), r(raw[side(c)]), r2(raw[1 - side(c)]), r3(raw[2]) {}
    static T mk(int k) { if constexpr (map) return T(k, k); else return T(k); }
    using Input = typename std::conditional<map, InP, In>::type;

    void mutate(C& c, u32 op, u32 a, u32 b)
    {
        const std::size_t n = c.size();
        const std::size_t room = is_static ? c.capacity() - n : n > 60 ? 0 : 70;
        switch (op % 9)
        {
        case 0: case 1: case 2: for (u32 i = 0; i < 1 + a % 9 && i < room; ++i) c.insert(mk(int((a + i * b) % 64))); break;
        case 3: if (room) c.emplace(mk(int(b % 64))); break;
        case 4: if (n) c.erase(c.nth(a % n)); break;
        case 5: { const std::size_t i = a % (n + 1), j = i + b % (n - i + 1); c.erase(c.nth(i), c.nth(j)); break; }
        case 6: if (b % 3 == 0) c.clear(); break;
        case 7: if constexpr (!is_static) c.reserve(n + b % 20); break;
        default: if constexpr (!is_static) { if (b % 2) c.shrink_to_fit(); }
        }
    }
    template <class It> void bad_positions(C& c, It pos, u32 a, int key)
    {
        const std::size_t n = c.size(), cap = c.capacity();
        const bool room = !is_static || n < cap;
        switch (a % 12)
        {
        case 0: must_assert("erase(bad position)", n, cap, [&] { c.erase(pos); }); break;
        case 1: must_assert("index_of(bad position)", n, cap, [&] { (void)c.index_of(pos); }); break;
        case 2: case 3: if (room) { const T t(mk(key)); must_assert("insert(bad hint, const value_type&)", n, cap, [&] { c.insert(pos, t); }); } break;
        case 4: if (room) must_assert("insert(bad hint, value_type&&)", n, cap, [&] { c.insert(pos, mk(key)); }); break;
        case 5: if (room) must_assert("emplace_hint(bad hint)", n, cap, [&] { c.emplace_hint(pos, mk(key)); }); break;
        default:
            if (!room) return;
            if constexpr (umap)
            {
                const int k = key;
                if (a / 12 % 3 == 0) { must_assert("insert(bad hint, P&&)", n, cap, [&] { c.insert(pos, std::pair<short, short>(short(key), short(1))); }); return; }
                switch (a % 12)
                {
                case 6: must_assert("insert_or_assign(bad hint, const key&)", n, cap, [&] { c.insert_or_assign(pos, k, 1); }); break;
                case 7: must_assert("insert_or_assign(bad hint, key&&)", n, cap, [&] { c.insert_or_assign(pos, int(k), 1); }); break;
                case 8: must_assert("try_emplace(bad hint, const key&)", n, cap, [&] { c.try_emplace(pos, k, 1); }); break;
                case 9: must_assert("try_emplace(bad hint, key&&)", n, cap, [&] { c.try_emplace(pos, int(k), 1); }); break;
                case 10: must_assert("insert_or_assign(bad hint, other type)", n, cap, [&] { c.insert_or_assign(pos, short(k), 1); }); break;
                default: must_assert("try_emplace(bad hint, other type)", n, cap, [&] { c.try_emplace(pos, short(k), 1); });
                }
            }
            else if constexpr (map)
            {
                if (a & 1) must_assert("insert(bad hint, P&&)", n, cap, [&] { c.insert(pos, std::pair<short, short>(short(key), short(1))); });
            }
            else if constexpr (!multi)
            {
                if (a & 1) must_assert("insert(bad hint, other type)", n, cap, [&] { c.insert(pos, short(key)); });
            }
        }
    }
    void violate(u32 op, u32 a, u32 b)
    {
        C& c = r.get();
        const C& cc = c;
        const std::size_t n = c.size(), cap = c.capacity();
        static const std::size_t over[] = {0, 0, 1, 2, 3, 7, 100, std::size_t(1) << 40, ~std::size_t(0) >> 1};
        const std::size_t ov = over[a % 9];
        const int key = int(b % 70);
        switch (op % 12)
        {
        case 0: must_assert("nth() beyond the end", n, cap, [&] { if (b & 1) (void)c.nth(n + 1 + ov); else (void)cc.nth(n + 1 + ov); }); break;
        case 1: must_assert("erase(end())", n, cap, [&] { if (a & 1) c.erase(cc.end()); else c.erase(c.end()); }); break;
        case 2: if (n) { const std::size_t i = a % (n + 1), j = b % (n + 1); if (i != j) must_assert("erase(first, last) with first behind last", n, cap, [&] { c.erase(cc.nth(std::max(i, j)), cc.nth(std::min(i, j))); }); } break;
        case 3: case 4: case 5:
        {
            C& o = r2.get();
            if (o.size() < 2) return;
            const C& co = o;
            bad_positions(c, co.nth(1 + b % (o.size() - 1)), a, key);
            break;
        }
        case 6:
        {
            C& o = r2.get();
            if (o.size() < 2) return;
            const C& co = o;
            const auto p = co.nth(1 + b % (o.size() - 1));
            if (a % 3 == 0) must_assert("erase(first, last) of another container", n, cap, [&] { c.erase(p, co.end()); });
            else if (a % 3 == 1) must_assert("erase(first, last) with last in another container", n, cap, [&] { c.erase(cc.begin(), p); });
            else must_assert("erase(first, last) with first in another container", n, cap, [&] { c.erase(p, cc.end()); });
            break;
        }
        case 7: case 8: if (cap > n && !(b & 64)) bad_positions(c, cc.end() + 1, a, key); else if (cap > 0) bad_positions(c, cc.begin() - 1, a, key); break;
        default:
            if constexpr (!is_static)
            {
                C& o = r3.get();
                must_assert("swap with unequal allocators that do not propagate", n, cap, [&] { if (a & 1) c.swap(o); else { using std::swap; swap(c, o); } });
            }
            else full(a, b);
        }
    }
    void full(u32 a, u32 b)
    {
        if constexpr (is_static)
        {
            C& c = r.get();
            const C& cc = c;
            const std::size_t n = c.size(), cap = c.capacity();
            if (c.full() != (n == cap)) ctx.fail(PRECOND, "full() is wrong with %zu of %zu elements", n, cap);
            const int key = 1000 + int(b % 5) - (b & 1024 ? 3000 : 0); // not contained
            static T arr[128]; static bool init = false;
            if (!init) { for (int i = 0; i < 128; ++i) arr[i] = mk(2000 + (i * 37) % 128); init = true; }
            const std::size_t more = cap - n + 1 + a % 5, q = cap + 1 + a % 5;
            const auto hint = cc.nth(b % (n + 1));
            static Raw<C> tmp;
            switch (b / 16 % 21)
            {
            case 0: if (n == cap) { const T t(mk(key)); must_assert("insert(const value_type&) on a full container", n, cap, [&] { c.insert(t); }); } break;
            case 1: if (n == cap) must_assert("insert(value_type&&) on a full container", n, cap, [&] { c.insert(mk(key)); }); break;
            case 2: if (n == cap) must_assert("emplace() on a full container", n, cap, [&] { c.emplace(mk(key)); }); break;
            case 3: if (n == cap) { const T t(mk(key)); must_assert("insert(hint, const value_type&) on a full container", n, cap, [&] { c.insert(hint, t); }); } break;
            case 4: if (n == cap) must_assert("insert(hint, value_type&&) on a full container", n, cap, [&] { c.insert(hint, mk(key)); }); break;
            case 5: if (n == cap) must_assert("emplace_hint() on a full container", n, cap, [&] { c.emplace_hint(hint, mk(key)); }); break;
            case 6: stop = true; must_assert("insert(first, last) beyond the capacity", n, cap, [&] { c.insert(arr, arr + more); }); break;
            case 7: stop = true; must_assert("insert(first, last) with input iterators beyond the capacity", n, cap, [&] { c.insert(Input{arr}, Input{arr + more}); }); break;
            case 8: if (cap - n < 3) { stop = true; must_assert("insert(initializer list) beyond the capacity", n, cap, [&] { c.insert({mk(2000), mk(2001), mk(2002)}); }); } break;
            case 9: must_assert("constructor (first, last) beyond the capacity", n, cap, [&] { ::new (static_cast<void*>(tmp.mem)) C(arr, arr + q); }); break;
            case 10: must_assert("constructor (first, last) with input iterators beyond the capacity", n, cap, [&] { ::new (static_cast<void*>(tmp.mem)) C(Input{arr}, Input{arr + q}); }); break;
            case 11:
                if (cap < 5)
                {
                    stop = true;
                    if (a & 1) must_assert("assignment of an initializer list beyond the capacity", n, cap, [&] { c = {mk(1), mk(2), mk(3), mk(4), mk(5)}; });
                    else must_assert("constructor (initializer list) beyond the capacity", n, cap, [&] { ::new (static_cast<void*>(tmp.mem)) C({mk(1), mk(2), mk(3), mk(4), mk(5)}); });
                }
                break;
            default:
                if (n != cap) return;
                if constexpr (umap)
                {
                    const int k = key;
                    switch (b / 16 % 21)
                    {
                    case 12: must_assert("operator[](const key&) on a full container", n, cap, [&] { (void)c[k]; }); break;
                    case 13: must_assert("operator[](key&&) on a full container", n, cap, [&] { (void)c[int(k)]; }); break;
                    case 14: must_assert("insert_or_assign() on a full container", n, cap, [&] { if (a & 1) c.insert_or_assign(k, 1); else c.insert_or_assign(int(k), 1); }); break;
                    case 15: must_assert("try_emplace() on a full container", n, cap, [&] { if (a & 1) c.try_emplace(k, 1); else c.try_emplace(int(k), 1); }); break;
                    case 16: must_assert("insert_or_assign(hint) on a full container", n, cap, [&] { if (a & 4) c.insert_or_assign(hint, short(k), 1); else if (a & 1) c.insert_or_assign(hint, k, 1); else c.insert_or_assign(hint, int(k), 1); }); break;
                    case 17: must_assert("try_emplace(hint) on a full container", n, cap, [&] { if (a & 4) c.try_emplace(hint, short(k), 1); else if (a & 1) c.try_emplace(hint, k, 1); else c.try_emplace(hint, int(k), 1); }); break;
                    case 18: must_assert("try_emplace(other type) on a full container", n, cap, [&] { if (a & 1) c.try_emplace(short(k), 1); else c.insert_or_assign(short(k), 1); }); break;
                    case 19: must_assert("insert(P&&) on a full container", n, cap, [&] { if (a & 1) c.insert(std::pair<short, short>(short(k), short(1))); else c.insert(hint, std::pair<short, short>(short(k), short(1))); }); break;
                    default: must_assert("operator[](other type) on a full container", n, cap, [&] { (void)c[short(k)]; });
                    }
                }
                else if constexpr (map)
                {
                    if (a & 1) must_assert("insert(P&&) on a full container", n, cap, [&] { c.insert(std::pair<short, short>(short(key), short(1))); });
                    else must_assert("insert(hint, P&&) on a full container", n, cap, [&] { c.insert(hint, std::pair<short, short>(short(key), short(1))); });
                }
                else if constexpr (!multi)
                {
                    if (a & 1) must_assert("insert(other type) on a full container", n, cap, [&] { c.insert(short(key)); });
                    else must_assert("insert(hint, other type) on a full container", n, cap, [&] { c.insert(hint, short(key)); });
                }
            }
        }
    }
    void run()
    {
        g.reset();
        if constexpr (is_static) { ::new (static_cast<void*>(r.mem)) C(); ::new (static_cast<void*>(r2.mem)) C(); }
        else
        {
            ::new (static_cast<void*>(r.mem)) C(Al(1)); ::new (static_cast<void*>(r2.mem)) C(Al(1)); ::new (static_cast<void*>(r3.mem)) C(Al(2));
            for (int i = 0; i < int(cs.rows.empty() ? 0 : cs.rows[0].c[1] % 7); ++i) r3.get().insert(mk(i));
        }
        for (int i = 0; i < int(cs.rows.empty() ? 0 : 2 + cs.rows[0].c[0] % 7) && (!is_static || r2.get().size() < r2.get().capacity()); ++i) r2.get().insert(mk(i));
        for (std::size_t i = 1; i < cs.rows.size() && !stop; ++i)
        {
            ctx.cur_row = int(i);
            const Row& w = cs.rows[i];
            ctx.mix(w.c[0] % 4096); ctx.mix(r.get().size());
            if (w.c[1] % 5 < 2) mutate(r.get(), w.c[0], w.c[2], w.c[3]);
            else violate(w.c[0], w.c[2], w.c[3]);
        }
        PBT_LABEL(ctx, "cases");
        if (violations >= 3) ctx.nontrivial = true;
    }
};

template <class M, class C> void go(const Case& c, Ctx& x)
{
    static Raw<C> raw[3];
    M m(c, x, raw);
    m.run();
}
template <class C> void run_seq(const Case& c, Ctx& x) { go<Seq<C>, C>(c, x); }
template <class C> void run_assoc(const Case& c, Ctx& x) { go<Assoc<C>, C>(c, x); }

#define PRE_CAT2(a, b) a##b
#define PRE_CAT(a, b) PRE_CAT2(a, b)
#define PRE_SEQ(name, ...) static ::pbt::Register PRE_CAT(reg_, __COUNTER__)(name, ::pre::Info<__VA_ARGS__>::fam, 0, &::pre::run_seq<__VA_ARGS__>)
#define PRE_ASSOC(name, ...) static ::pbt::Register PRE_CAT(reg_, __COUNTER__)(name, ::pre::Info<__VA_ARGS__>::fam, 0, &::pre::run_assoc<__VA_ARGS__>)

} // namespace pre
