// Operation-count machine: drives one large container through documented operations
// and compares what each operation cost with its documented complexity.
//
// The cost of an operation is what it did to its surroundings: element operations,
// comparisons, predicate calls, allocations and allocated memory, and, for plain
// element types, the number of control-flow edges it executed (the unit is compiled
// with -fsanitize-coverage=trace-pc-guard). The bounds are c * units + d where units
// is the documented measure and c and d are several times what the library needs.
#pragma once
#include "ob.hpp"
#include <initializer_list>
#include <limits>

#include <sfl/compact_vector.hpp>
#include <sfl/devector.hpp>
#include <sfl/segmented_devector.hpp>
#include <sfl/segmented_vector.hpp>
#include <sfl/small_flat_map.hpp>
#include <sfl/small_flat_multimap.hpp>
#include <sfl/small_flat_multiset.hpp>
#include <sfl/small_flat_set.hpp>
#include <sfl/small_unordered_flat_map.hpp>
#include <sfl/small_unordered_flat_multimap.hpp>
#include <sfl/small_unordered_flat_multiset.hpp>
#include <sfl/small_unordered_flat_set.hpp>
#include <sfl/small_vector.hpp>
#include <sfl/static_flat_map.hpp>
#include <sfl/static_flat_multimap.hpp>
#include <sfl/static_flat_multiset.hpp>
#include <sfl/static_flat_set.hpp>
#include <sfl/static_unordered_flat_map.hpp>
#include <sfl/static_unordered_flat_multimap.hpp>
#include <sfl/static_unordered_flat_multiset.hpp>
#include <sfl/static_unordered_flat_set.hpp>
#include <sfl/static_vector.hpp>
#include <sfl/vector.hpp>

extern unsigned long long g_news;
extern unsigned long long g_edges;

namespace cplx
{
using namespace pbt;
using namespace ob;

template <class C> struct Info;
#define CPLX_INFO_SEQ(pattern, args, FAM, NN, AL) template <args> struct Info<pattern> { static constexpr u32 fam = FAM; static constexpr std::size_t N = NN; static constexpr bool map = false; using Al = AL; };
#define COMMA ,
CPLX_INFO_SEQ(sfl::vector<T COMMA A>, class T COMMA class A, F_VEC, 0, A)
CPLX_INFO_SEQ(sfl::compact_vector<T COMMA A>, class T COMMA class A, F_COMPACT, 0, A)
CPLX_INFO_SEQ(sfl::devector<T COMMA A>, class T COMMA class A, F_DEV, 0, A)
CPLX_INFO_SEQ(sfl::small_vector<T COMMA M COMMA A>, class T COMMA std::size_t M COMMA class A, F_SMALL, M, A)
CPLX_INFO_SEQ(sfl::static_vector<T COMMA M>, class T COMMA std::size_t M, F_STATIC, M, void)
CPLX_INFO_SEQ(sfl::segmented_vector<T COMMA M COMMA A>, class T COMMA std::size_t M COMMA class A, F_SEG, M, A)
CPLX_INFO_SEQ(sfl::segmented_devector<T COMMA M COMMA A>, class T COMMA std::size_t M COMMA class A, F_SEGDEV, M, A)
#define CPLX_INFO_SET(cont, FAM) \
    template <class K, std::size_t NN, class Q, class A> struct Info<sfl::small_##cont<K, NN, Q, A>> { static constexpr u32 fam = FAM | F_SMALL; static constexpr bool map = false; static constexpr std::size_t N = NN; using Al = A; }; \
    template <class K, std::size_t NN, class Q> struct Info<sfl::static_##cont<K, NN, Q>> { static constexpr u32 fam = FAM | F_STATIC; static constexpr bool map = false; static constexpr std::size_t N = NN; using Al = void; };
#define CPLX_INFO_MAP(cont, FAM) \
    template <class K, class M, std::size_t NN, class Q, class A> struct Info<sfl::small_##cont<K, M, NN, Q, A>> { static constexpr u32 fam = FAM | F_SMALL; static constexpr bool map = true; static constexpr std::size_t N = NN; using Al = A; }; \
    template <class K, class M, std::size_t NN, class Q> struct Info<sfl::static_##cont<K, M, NN, Q>> { static constexpr u32 fam = FAM | F_STATIC; static constexpr bool map = true; static constexpr std::size_t N = NN; using Al = void; };
CPLX_INFO_SET(flat_set, F_OSET)
CPLX_INFO_SET(flat_multiset, F_OMULTI)
CPLX_INFO_SET(unordered_flat_set, F_USET)
CPLX_INFO_SET(unordered_flat_multiset, F_UMULTI)
CPLX_INFO_MAP(flat_map, F_OSET)
CPLX_INFO_MAP(flat_multimap, F_OMULTI)
CPLX_INFO_MAP(unordered_flat_map, F_USET)
CPLX_INFO_MAP(unordered_flat_multimap, F_UMULTI)

struct Cost { u64 e, c, p, a, b, s; };
inline Cost now() { return Cost{g.elem_ops(), g.n[P_CMP], g.n[P_PRED], g.alloc + g_news, g.alloc_bytes, g_edges}; }
inline Cost operator-(const Cost& x, const Cost& y) { return Cost{x.e - y.e, x.c - y.c, x.p - y.p, x.a - y.a, x.b - y.b, x.s - y.s}; }

inline u32 lg(std::size_t n) { u32 r = 0; while (n > (std::size_t(1) << r)) ++r; return r; }

constexpr u64 NOLIMIT = ~0ull;
// Bounds: element operations EC * units + ED, edges SC * units + SD.
constexpr u64 EC = 12, ED = 40, SC = 250, SD = 3000;

void stat(const char* what, u64 units, const Cost& d);

// A single-pass iterator over an array of ints.
struct In
{
    using iterator_category = std::input_iterator_tag; using value_type = Src; using difference_type = std::ptrdiff_t; using pointer = const Src*; using reference = const Src&;
    const Src* p;
    const Src& operator*() const { return *p; }
    In& operator++() { ++p; return *this; }
    In operator++(int) { In t = *this; ++p; return t; }
    friend bool operator==(const In& a, const In& b) { return a.p == b.p; }
    friend bool operator!=(const In& a, const In& b) { return a.p != b.p; }
};

struct Base
{
    Ctx& ctx;
    const Case& cs;
    Cat cat = CPLX;
    bool plain = false;  // edges are enforced
    std::size_t esize = 1;
    int big = 0;
    u64 table = 0;       // segments owned by the container before the operation: growing may relocate their table
    Base(const Case& c, Ctx& x) : ctx(x), cs(c) { ctx.op_cat = &cat; }
    ~Base() { ctx.op_cat = nullptr; }

    template <class F> static Cost meas(F&& f) { const Cost a = now(); f(); return now() - a; }

    // units: documented measure of element work; cmp: comparisons allowed.
    void check(const char* what, const Cost& d, u64 units, u64 cmp, std::size_t n, u64 ec = EC)
    {
        stat(what, units, d);
        if (d.e > ec * units + ED) ctx.fail(CPLX, "%s on %zu elements performed %llu element operations; the documented complexity allows work of order %llu", what, n, (unsigned long long)d.e, (unsigned long long)units);
        if (cmp != NOLIMIT && d.c > cmp) ctx.fail(CPLX, "%s on %zu elements performed %llu comparisons; the documented complexity allows %llu", what, n, (unsigned long long)d.c, (unsigned long long)cmp);
        if (plain && d.s > SC * units + SD + (cmp != NOLIMIT ? SC * cmp : 0)) ctx.fail(CPLX, "%s on %zu elements executed %llu steps; the documented complexity allows work of order %llu", what, n, (unsigned long long)d.s, (unsigned long long)units);
    }
    void memory(const char* what, const Cost& d, u64 elements, std::size_t n)
    {
        if (d.b > 16 * elements * esize + 64 * table + 4096) ctx.fail(CPLX, "%s on %zu elements allocated %llu bytes in total; the documented complexity allows memory for order %llu elements", what, n, (unsigned long long)d.b, (unsigned long long)elements);
    }
    void free_of_cost(const char* what, const Cost& d, std::size_t n)
    {
        stat(what, 0, d);
        if (d.e || d.c) ctx.fail(CPLX, "%s of %zu elements is documented as constant but performed %llu element operations and %llu comparisons", what, n, (unsigned long long)d.e, (unsigned long long)d.c);
        if (plain && d.s > 2000) ctx.fail(CPLX, "%s of %zu elements is documented as constant but executed %llu steps", what, n, (unsigned long long)d.s);
    }
};

template <class C>
struct Seq : Base
{
    using I = Info<C>;
    using T = typename C::value_type;
    using Al = typename I::Al;
    static constexpr u32 fam = I::fam;
    static constexpr std::size_t N = I::N;
    static constexpr bool is_static = fam == F_STATIC;
    static constexpr bool seg = fam == F_SEG || fam == F_SEGDEV;
    static constexpr bool dev = fam == F_DEV || fam == F_SEGDEV;
    static constexpr bool compact = fam == F_COMPACT;
    static constexpr bool has_reserve = fam == F_VEC || fam == F_SMALL || fam == F_SEG;
    static constexpr bool contig_heap = fam == F_VEC || fam == F_SMALL || fam == F_DEV || fam == F_COMPACT;

    Box<C> box, box2;
    int nv = 1;
    std::size_t limit;

    Seq(const Case& c, Ctx& x) : Base(c, x) { plain = !El<T>::tracked; esize = sizeof(T); limit = is_static ? N : 3000; }

    C& c() { return box.get(); }
    static std::size_t pick(u32 r, std::size_t n) // an index in [0, n]
    {
        switch (r % 5)
        {
        case 0: return 0;
        case 1: return n;
        case 2: return std::min<std::size_t>(n, (r / 5) % 8);
        case 3: return n - std::min<std::size_t>(n, (r / 5) % 8);
        default: return (r / 5) % (n + 1);
        }
    }
    static std::size_t amount(u32 r)
    {
        switch (r % 4) { case 0: return 1 + (r / 4) % 4; case 1: return 1 + (r / 4) % 40; case 2: return 1 + (r / 4) % 300; default: return 1 + (r / 4) % 1500; }
    }
    std::size_t room() { const std::size_t n = c().size(); return n >= limit ? 0 : limit - n; }
    bool heap(C& x)
    {
        if constexpr (is_static) return false;
        else if constexpr (fam == F_SMALL) return x.capacity() > N;
        else return true;
    }
    u64 realloc_units(const Cost& d, std::size_t n) { return !d.a ? 0 : contig_heap ? n : table; }
    // A devector without space at the end nearer to pos may shift or relocate its elements.
    u64 no_space(std::size_t pos, std::size_t n, std::size_t k)
    {
        if constexpr (fam == F_DEV)
        {
            const bool f = c().available_front() < k, b = c().available_back() < k;
            if (pos * 2 == n ? f || b : pos * 2 < n ? f : b) return n;
        }
        (void)pos; (void)k; (void)n;
        return 0;
    }
    // How many element moves an insertion or a growth at pos may take.
    u64 dist(std::size_t pos, std::size_t n) { return dev ? std::min(pos, n - pos) : n - pos; }

    void fill(C& x, std::size_t n) { for (std::size_t i = 0; i < n; ++i) x.emplace_back(nv++); }

    void amortized(const char* what, const Cost& d, std::size_t k, std::size_t n)
    {
        if constexpr (compact) { check(what, d, k * (n + k), 0, n); return; }
        check(what, d, 2 * k + n / 2 + table, 0, n);
        memory(what, d, k + n, n);
        u64 al = NOLIMIT;
        if (contig_heap) al = 3 * lg(n + k + 2) + 8;                      // geometric growth
        else if (seg) al = k / N + 2 * lg(n + k + 2) + 8;
        if (is_static) al = 0;
        if (d.a > al) ctx.fail(CPLX, "%s %zu times on %zu elements allocated %llu times", what, k, n, (unsigned long long)d.a);
    }

    void push(bool front, std::size_t k, u32 r)
    {
        C& x = c();
        const std::size_t n = x.size();
        k = std::min(k, room());
        if constexpr (compact) k = std::min<std::size_t>(k, 30);
        if (!k) return;
        const char* what = front ? "push_front" : "push_back";
        std::size_t avail;
        if constexpr (dev) avail = front ? x.available_front() : x.available_back(); else avail = x.available();
        const T t(nv++);
        const Cost d = meas([&] {
            for (std::size_t i = 0; i < k; ++i)
            {
                if constexpr (dev) { if (front) { switch ((r + i) % 3) { case 0: x.push_front(t); break; case 1: x.push_front(T(int(i))); break; default: x.emplace_front(int(i)); } continue; } }
                switch ((r + i) % 3) { case 0: x.push_back(t); break; case 1: x.push_back(T(int(i))); break; default: x.emplace_back(int(i)); }
            }
        });
        ctx.log("%s x %zu on %zu (available %zu): %llu element operations, %llu allocations, %llu steps\n", what, k, n, avail, (unsigned long long)d.e, (unsigned long long)d.a, (unsigned long long)d.s);
        if (avail >= k)
        {
            check(what, d, k, 0, n, 4);
            if (d.a) ctx.fail(CPLX, "%s x %zu with %zu available on %zu elements allocated memory", what, k, avail, n);
            PBT_LABEL(ctx, "pushes within capacity");
        }
        else { amortized(what, d, k, n); PBT_LABEL(ctx, "pushes with growth"); }
    }
    void pop(bool front, std::size_t k)
    {
        C& x = c();
        const std::size_t n = x.size();
        k = std::min(k, n);
        if constexpr (compact) k = std::min<std::size_t>(k, 30);
        if (!k) return;
        const Cost d = meas([&] { for (std::size_t i = 0; i < k; ++i) { if constexpr (dev) { if (front) { x.pop_front(); continue; } } x.pop_back(); } });
        if constexpr (compact) { check("pop_back", d, k * n, 0, n); return; }
        check(front ? "pop_front" : "pop_back", d, k, 0, n, 2);
        if (d.a) ctx.fail(CPLX, "pop on %zu elements allocated memory", n);
    }
    void queue(u32 mode, std::size_t k)
    {
        C& x = c();
        const std::size_t n = x.size();
        if (compact || !room()) return;
        const Cost d = meas([&] {
            for (std::size_t i = 0; i < k; ++i)
            {
                if constexpr (dev)
                {
                    if (mode == 1) { x.emplace_back(int(i)); x.pop_front(); continue; }
                    if (mode == 2) { x.emplace_front(int(i)); x.pop_back(); continue; }
                    if (mode == 3) { x.emplace_front(int(i)); x.pop_front(); continue; }
                }
                x.emplace_back(int(i)); x.pop_back();
            }
        });
        amortized(dev ? (mode == 1 ? "push_back, pop_front" : mode == 2 ? "push_front, pop_back" : mode == 3 ? "push_front, pop_front" : "push_back, pop_back") : "push_back, pop_back", d, 2 * k, n);
        if constexpr (!seg) memory("a queue or stack of constant size", d, n + 16, n);
        PBT_LABEL(ctx, "queue patterns");
    }
    void insert1(u32 r, u32 how)
    {
        C& x = c();
        const std::size_t n = x.size();
        if (!room()) return;
        const std::size_t pos = pick(r, n);
        const T t(nv++);
        T m(nv++);
        const auto it = static_cast<const C&>(x).nth(pos);
        const u64 ns = no_space(pos, n, 1);
        const Cost d = meas([&] { switch (how % 3) { case 0: x.insert(it, t); break; case 1: x.insert(it, std::move(m)); break; default: x.emplace(it, 7); } });
        ctx.log("insert at %zu of %zu: %llu element operations, %llu allocations, %llu steps\n", pos, n, (unsigned long long)d.e, (unsigned long long)d.a, (unsigned long long)d.s);
        check("insert of one element", d, (compact ? n : dist(pos, n)) + ns + realloc_units(d, n), 0, n, 6);
        memory("insert of one element", d, 2 * n + 8 * N + 16, n);
        if (std::min(pos, n - pos) < n / 4) PBT_LABEL(ctx, "insertion near an end"); else PBT_LABEL(ctx, "insertion in the middle");
    }
    void insertn(u32 r, std::size_t k, u32 how)
    {
        C& x = c();
        const std::size_t n = x.size();
        k = std::min(k, room());
        const std::size_t pos = pick(r, n);
        const auto it = static_cast<const C&>(x).nth(pos);
        const T t(nv++);
        std::vector<Src> src;
        for (std::size_t i = 0; i < k; ++i) src.push_back(Src{nv++});
        const char* what = "";
        u64 u = k + (compact ? n : dist(pos, n)) + no_space(pos, n, k);
        Cost d;
        switch (how % 3)
        {
        case 0: what = "insert of n copies"; d = meas([&] { x.insert(it, k, t); }); break;
        case 1: { what = "insert of a range"; const Src* a = src.data(); const Src* b = a + k; d = meas([&] { x.insert(it, a, b); }); } break;
        default: if constexpr (!compact) { what = "insert of a single-pass range"; In a{src.data()}, b{src.data() + k}; d = meas([&] { x.insert(it, a, b); }); u = k * (dist(pos, n) + k) + 4 * (n + k); } else return; // known finding: one insertion per element
        }
        ctx.log("%s: %zu at %zu of %zu: %llu element operations, %llu allocations, %llu steps\n", what, k, pos, n, (unsigned long long)d.e, (unsigned long long)d.a, (unsigned long long)d.s);
        if (how % 3 == 2 && d.e > 8 * (k + n) + ED) PBT_LABEL(ctx, "known finding: insert of a single-pass range is not linear");
        check(what, d, u + realloc_units(d, n), 0, n, how % 3 == 2 ? EC : 8);
        memory(what, d, 2 * n + k + 8 * N + 16, n);
    }
    void erase(u32 r, std::size_t k)
    {
        C& x = c();
        const std::size_t n = x.size();
        if (!n) return;
        std::size_t pos = pick(r, n - 1);
        k = std::min(k, n - pos);
        const C& cc = x;
        const auto a = cc.nth(pos), b = cc.nth(pos + k);
        Cost d;
        if (k == 1) { d = meas([&] { x.erase(a); }); check("erase of one element", d, n, 0, n, 4); }
        else { d = meas([&] { x.erase(a, b); }); check("erase of a range", d, n, 0, n, 4); }
        ctx.log("erase %zu at %zu of %zu: %llu element operations\n", k, pos, n, (unsigned long long)d.e);
        if (d.a && !compact) ctx.fail(CPLX, "erase on %zu elements allocated memory", n);
    }
    void resize(std::size_t q, bool grow, u32 how)
    {
        C& x = c();
        const std::size_t n = x.size();
        std::size_t m = grow ? n + std::min(q, room()) : n - std::min(q, n);
        const T t(nv++);
        u64 ns = 0;
        if (fam == F_DEV && m > n) ns = std::max(no_space(0, n, m - n), no_space(n, n, m - n));
        const Cost d = meas([&] {
            if constexpr (dev)
            {
                switch (how % 6)
                {
                case 2: x.resize_front(m); return;
                case 3: x.resize_front(m, t); return;
                case 4: x.resize_back(m); return;
                case 5: x.resize_back(m, t); return;
                default: break;
                }
            }
            if (how & 1) x.resize(m, t); else x.resize(m);
        });
        ctx.log("resize %zu -> %zu: %llu element operations\n", n, m, (unsigned long long)d.e);
        check("resize", d, (m > n ? m - n : n - m) + ns + (m > n ? realloc_units(d, n) : 0) + (compact ? n : 0), 0, n, 4);
    }
    void swaps(std::size_t m)
    {
        C& x = c();
        box2.prepare();
        ::new (static_cast<void*>(box2.mem)) C(); box2.alive = true;
        C& y = box2.get();
        fill(y, std::min(m, limit));
        const std::size_t n = x.size();
        m = y.size();
        const Cost d = meas([&] { x.swap(y); });
        if constexpr (fam == F_STATIC || fam == F_SMALL)
        {
            if (heap(x) && heap(y)) free_of_cost("swap", d, n + m);
            else check("swap", d, std::max(std::min<std::size_t>(n, N), std::min<std::size_t>(m, N)) + 1, 0, n + m);
        }
        else { free_of_cost("swap", d, n + m); if (d.a) ctx.fail(CPLX, "swap allocated memory"); }
        x.swap(y);
        if (x.size() != y.size())
        {
            const Cost q = meas([&] { (void)(x == y); });
            stat("== of different sizes", 0, q);
            if (q.c) ctx.fail(CPLX, "== of containers of %zu and %zu elements performed %llu comparisons", x.size(), y.size(), (unsigned long long)q.c);
            free_of_cost("== of different sizes", q, n);
            const Cost q2 = meas([&] { (void)(x != y); });
            free_of_cost("!= of different sizes", q2, n);
        }
        { const Cost q = meas([&] { (void)(x < y); }); check("operator<", q, std::min(x.size(), y.size()), 2 * std::min(x.size(), y.size()) + 4, n); }
        box2.kill();
    }
    void copymove(u32 how, std::size_t m)
    {
        C& x = c();
        const std::size_t n = x.size();
        if (how % 6 < 2)
        {
            box2.prepare();
            const Cost d = meas([&] { if (how % 6 == 0) ::new (static_cast<void*>(box2.mem)) C(x); else ::new (static_cast<void*>(box2.mem)) C(std::move(x)); });
            box2.alive = true;
            C& y = box2.get();
            if (how % 6 == 0) { check("copy construction", d, n, 0, n, 3); memory("copy construction", d, n + N, n); const Cost q = meas([&] { (void)(x == y); }); check("==", q, n, n + 2, n); if (n > 0) check("operator< on equal contents", meas([&] { (void)(x < y); }), n, 2 * n + 2, n); }
            else
            {
                if (heap(y) && !is_static) { free_of_cost("move construction", d, n); }
                else check("move construction", d, std::min<std::size_t>(n, N) + 1, 0, n, 4);
                const Cost q = meas([&] { x = std::move(y); });
                if (heap(x) && !is_static) check("move assignment to an empty container", q, 1, 0, n, 0);
            }
            box2.kill();
        }
        else
        {
            box2.prepare();
            ::new (static_cast<void*>(box2.mem)) C(); box2.alive = true;
            C& y = box2.get();
            fill(y, std::min(m, limit));
            m = y.size();
            if (how % 6 == 2) check("copy assignment", meas([&] { x = y; }), n + m + table, 0, n, 4);
            else if (how % 6 == 3)
            {
                const bool h = heap(y);
                const Cost d = meas([&] { x = std::move(y); });
                if (h && !is_static) { if (d.e > n + 8) ctx.fail(CPLX, "move assignment of %zu elements onto %zu performed %llu element operations", m, n, (unsigned long long)d.e); check("move assignment", d, n + table, 0, n + m, 1); }
                else check("move assignment", d, n + m + table, 0, n, 4);
            }
            else if (how % 6 == 4) { const T t(3); check("assign of n copies", meas([&] { x.assign(m, t); }), n + m + table, 0, n, 4); }
            else
            {
                std::vector<Src> src(m, Src{5});
                const Src* a = src.data(); const Src* b = a + m;
                check("assign of a range", meas([&] { x.assign(a, b); }), n + m + table, 0, n, 4);
            }
            box2.kill();
        }
    }
    void storage(u32 how, std::size_t q)
    {
        C& x = c();
        const std::size_t n = x.size();
        if constexpr (has_reserve) { if (how % 2 == 0) { const std::size_t w = std::min(limit, n + q); const Cost d = meas([&] { x.reserve(w); }); check("reserve", d, seg ? w / N + 1 + table : n, 0, n, 4); memory("reserve", d, n + w + 8 * N, n); return; } }
        if constexpr (dev) { if (how % 4 < 2) { const std::size_t w = std::min<std::size_t>(q, 2000); const Cost d = meas([&] { if (how % 4) x.reserve_front(w); else x.reserve_back(w); }); check("reserve_front or reserve_back", d, n + (seg ? w / N + 1 + table : 0), 0, n, 4); return; } }
        if constexpr (has_reserve || dev) { const std::size_t cap = x.capacity(); const Cost d = meas([&] { x.shrink_to_fit(); }); check("shrink_to_fit", d, n + (seg ? cap / N + 1 : 0), 0, n, 4); }
    }
    void access(u32 r)
    {
        C& x = c();
        const C& cc = x;
        const std::size_t n = x.size();
        if (!n) return;
        const std::size_t i = r % n, j = (r / 7) % n;
        std::size_t k = 0;
        free_of_cost("nth", meas([&] { (void)x.nth(i); (void)cc.nth(j); }), n);
        const auto it = cc.nth(i), jt = cc.nth(j);
        free_of_cost("index_of", meas([&] { k = cc.index_of(it); }), n);
        free_of_cost("operator[]", meas([&] { (void)&x[i]; (void)&cc[j]; }), n);
        free_of_cost("at", meas([&] { (void)&x.at(i); }), n);
        free_of_cost("front and back", meas([&] { (void)&x.front(); (void)&cc.back(); }), n);
        free_of_cost("size, empty, capacity and max_size", meas([&] { k += cc.size() + cc.empty() + cc.capacity() + cc.max_size(); }), n);
        if constexpr (dev) free_of_cost("available_front and available_back", meas([&] { k += cc.available_front() + cc.available_back(); }), n);
        else free_of_cost("available", meas([&] { k += cc.available(); }), n);
        free_of_cost("begin, end, rbegin and rend", meas([&] { (void)cc.begin(); (void)x.end(); (void)cc.rbegin(); (void)x.rend(); }), n);
        free_of_cost("iterator arithmetic", meas([&] { auto w = it; w += std::ptrdiff_t(j) - std::ptrdiff_t(i); w -= std::ptrdiff_t(j); (void)(w + std::ptrdiff_t(i)); k += std::size_t(it - jt); (void)(it < jt); (void)(it == jt); (void)&it[std::ptrdiff_t(j) - std::ptrdiff_t(i)]; }), n);
        const Cost w = meas([&] { long q = 0; for (auto a = cc.begin(), e = cc.end(); a != e; ++a) ++q; k += std::size_t(q); });
        stat("iteration", n, w);
        if (plain && w.s > 200 * n + SD) ctx.fail(CPLX, "iteration over %zu elements executed %llu steps", n, (unsigned long long)w.s);
        ctx.mix(k);
        PBT_LABEL(ctx, "constant-time accessors on a large container");
    }
    void remove(u32 r)
    {
        C& x = c();
        const std::size_t n = x.size();
        u64 calls = 0, i = 0;
        const u32 m = 1 + r / 8 % 5;
        std::size_t k = 0;
        if (r & 1) { const T t(3); const Cost d = meas([&] { k = erase_val(x, t); }); check("erase(c, value)", d, n, n + 4, n, 4); return; }
        const Cost d = meas([&] { k = erase_if(x, [&](const T&) { ++calls; return i++ % m == 0; }); });
        check("erase_if", d, n, 0, n, 4);
        if (calls != n) ctx.fail(CPLX, "erase_if on %zu elements called the predicate %llu times", n, (unsigned long long)calls);
        ctx.log("erase_if on %zu removed %zu: %llu element operations\n", n, k, (unsigned long long)d.e);
    }
    template <class X> static std::size_t erase_val(X& x, const T& t) { using sfl::erase; return erase(x, t); }

    void run()
    {
        g.reset();
        g.work_limit = 400000000ull;
        const Row r0 = cs.rows.empty() ? Row{} : cs.rows[0];
        box.prepare();
        ::new (static_cast<void*>(box.mem)) C(); box.alive = true;
        static const std::size_t inits[] = {0, 0, 5, 40, 300, 1000, 2000, 1500};
        const std::size_t n0 = std::min(inits[r0.c[0] % 8], limit) ;
        if (compact) c().resize(n0); else fill(c(), n0);
        ctx.log("start with %zu elements\n", n0);
        ctx.mix(n0);
        int nops = 0;
        for (std::size_t i = 1; i < cs.rows.size() && nops < 24; ++i)
        {
            ctx.cur_row = int(i);
            const Row& w = cs.rows[i];
            const u32 op = w.c[0] % 24;
            const std::size_t n = c().size();
            if (n >= 200) ++big;
            if constexpr (seg) table = c().capacity() / N;
            ctx.mix(u64(op) * 4099 + w.c[2] % 4099);
            ++nops;
            switch (op)
            {
            case 0: case 1: push(false, amount(w.c[1]), w.c[2]); break;
            case 2: case 3: push(dev, amount(w.c[1]), w.c[2]); break;
            case 4: pop(w.c[2] & 1, amount(w.c[1]) / 2 + 1); break;
            case 5: case 6: queue(w.c[2] % 4, std::min<std::size_t>(4 * n + 40, 6000)); break;
            case 7: case 8: case 9: insert1(w.c[1], w.c[2]); break;
            case 10: case 11: case 12: insertn(w.c[1], amount(w.c[2]), w.c[3]); break;
            case 13: erase(w.c[1], 1); break;
            case 14: erase(w.c[1], amount(w.c[2])); break;
            case 15: case 16: resize(amount(w.c[1]), w.c[2] % 3 != 0, w.c[3]); break;
            case 17: swaps(amount(w.c[1])); break;
            case 18: case 19: copymove(w.c[1], amount(w.c[2])); break;
            case 20: storage(w.c[1], amount(w.c[2])); break;
            case 21: case 22: access(w.c[1]); break;
            default: if (w.c[3] % 4 == 0) { const Cost d = meas([&] { c().clear(); }); check("clear", d, n, 0, n, 1); if (d.a) ctx.fail(CPLX, "clear allocated memory"); } else remove(w.c[1]);
            }
        }
        { const std::size_t n = c().size(), cap = c().capacity(); const Cost d = meas([&] { box.kill(); }); check("destruction", d, n + (seg ? cap / N : 0), 0, n, 1); }
        g.end_case();
        PBT_LABEL(ctx, "cases");
        if (big >= 3) ctx.nontrivial = true;
    }
};

template <class C>
struct Assoc : Base
{
    using I = Info<C>;
    using K = typename C::key_type;
    using V = typename C::value_type;
    static constexpr u32 fam = I::fam & F_ASSOC;
    static constexpr bool ordered = fam == F_OSET || fam == F_OMULTI;
    static constexpr bool multi = fam == F_OMULTI || fam == F_UMULTI;
    static constexpr bool is_static = (I::fam & F_STATIC) != 0;
    static constexpr bool map = I::map;
    static constexpr std::size_t N = I::N;

    Box<C> box, box2;
    std::size_t limit;
    int nv = 1;

    Assoc(const Case& c, Ctx& x) : Base(c, x) { plain = !El<K>::tracked; esize = sizeof(V); limit = is_static ? N : (ordered ? 2000 : 700); }
    C& c() { return box.get(); }
    static V mkv(int k) { if constexpr (map) return V(K(k), K(k)); else return V(k); }
    static std::size_t amount(u32 r) { switch (r % 4) { case 0: return 1 + (r / 4) % 4; case 1: return 1 + (r / 4) % 40; case 2: return 1 + (r / 4) % 200; default: return 1 + (r / 4) % 700; } }
    bool heap(C& x) { if constexpr (is_static) return false; else return x.capacity() > N; }
    u64 cmps(std::size_t n) { return ordered ? 2 * lg(n + 1) + 6 : 2 * n + 4; }

    void fill(C& x, std::size_t n, int step) { int v = 0; while (x.size() < n) { x.emplace_hint(x.cend(), mkv(v)); v += step; } }

    void insert1(int k, u32 how)
    {
        C& x = c();
        const std::size_t n = x.size();
        if (n >= limit) return;
        V v = mkv(k);
        std::size_t cap = x.capacity();
        const char* what = "insert";
        Cost d;
        switch (how % 5)
        {
        case 0: d = meas([&] { x.insert(static_cast<const V&>(v)); }); break;
        case 1: d = meas([&] { x.insert(std::move(v)); }); break;
        case 2: what = "emplace"; d = meas([&] { x.emplace(std::move(v)); }); break;
        case 3:
        {
            // The best hint for an ordered container: right before the position of insertion.
            what = "insert with hint";
            auto h = x.cend();
            if constexpr (ordered) { const K key(k); h = x.upper_bound(key); }
            d = meas([&] { x.insert(h, std::move(v)); });
        } break;
        default:
            if constexpr (map && !multi) { what = "operator[]"; const K key(k); d = meas([&] { (void)x[key]; }); }
            else d = meas([&] { x.insert(static_cast<const V&>(v)); });
        }
        const u64 grow = x.capacity() != cap ? n : 0;
        ctx.log("%s of %d into %zu: %llu element operations, %llu comparisons, %llu steps\n", what, k, n, (unsigned long long)d.e, (unsigned long long)d.c, (unsigned long long)d.s);
        // sorted storage: one shift; unordered storage: appended
        check(what, d, (ordered ? n : 1) + grow, ordered ? 2 * cmps(n) : (multi ? 0 : cmps(n)), n, map ? 12 : 6);
        memory(what, d, 2 * n + 4 * N + 16, n);
        PBT_LABEL(ctx, "insertions");
    }
    void grow(std::size_t k, int step)
    {
        C& x = c();
        const std::size_t n = x.size();
        if (n >= limit) return;
        k = std::min(k, limit - n);
        // ascending keys above every key: appended
        const Cost d = meas([&] { for (std::size_t i = 0; i < k; ++i) { x.emplace_hint(x.cend(), mkv(1000000 + nv)); nv += step; } });
        ctx.log("append of %zu to %zu: %llu element operations, %llu allocations\n", k, n, (unsigned long long)d.e, (unsigned long long)d.a);
        check("appending", d, 4 * k + n, ordered ? k * 2 * cmps(n + k) : k * cmps(n + k), n);
        memory("appending", d, k + n + N, n);
        if (d.a > 3 * lg(n + k + 2) + 8) ctx.fail(CPLX, "appending %zu to %zu elements allocated %llu times", k, n, (unsigned long long)d.a);
    }
    void lookup(int k, u32 how)
    {
        C& x = c();
        const C& cc = x;
        const std::size_t n = x.size();
        const K key(k);
        std::size_t z = 0;
        switch (how % 6)
        {
        case 0: look("find", meas([&] { (void)(cc.find(key) == cc.end()); }), n, cmps(n)); break;
        case 1: look("contains", meas([&] { z += cc.contains(key); }), n, cmps(n)); break;
        case 2: { const Cost d = meas([&] { z = cc.count(key); }); look("count", d, n, ordered ? 2 * cmps(n) + 2 * z : cmps(n), z); } break;
        case 3: if constexpr (ordered) look("lower_bound", meas([&] { (void)cc.lower_bound(key); }), n, cmps(n)); break;
        case 4: if constexpr (ordered) look("upper_bound", meas([&] { (void)cc.upper_bound(key); }), n, cmps(n)); break;
        default: if constexpr (ordered) look("equal_range", meas([&] { (void)cc.equal_range(key); }), n, 2 * cmps(n)); else look("find", meas([&] { (void)(x.find(Het{k}) == x.end()); }), n, cmps(n)); break;
        }
    }
    void look(const char* what, const Cost& d, std::size_t n, u64 cmp, std::size_t extra = 0)
    {
        stat(what, 0, d);
        if (d.e) ctx.fail(CPLX, "%s performed %llu element operations", what, (unsigned long long)d.e);
        if (d.a) ctx.fail(CPLX, "%s allocated memory", what);
        check(what, d, extra, cmp, n);
        PBT_LABEL(ctx, "lookups");
    }
    void erase(u32 r, std::size_t k)
    {
        C& x = c();
        const std::size_t n = x.size();
        if (!n) return;
        const std::size_t pos = r % n;
        k = std::min(k, n - pos);
        const C& cc = x;
        const auto a = cc.nth(pos), b = cc.nth(pos + k);
        Cost d;
        if (k == 1) { d = meas([&] { x.erase(a); }); check("erase of one element", d, ordered ? n : 1, 0, n, map ? 8 : 4); }
        else { d = meas([&] { x.erase(a, b); }); check("erase of a range", d, ordered ? n : k, 0, n, map ? 12 : 6); }
        ctx.log("erase %zu at %zu of %zu: %llu element operations\n", k, pos, n, (unsigned long long)d.e);
        if (d.a) ctx.fail(CPLX, "erase allocated memory");
    }
    void erase_key(int k)
    {
        C& x = c();
        const std::size_t n = x.size();
        const K key(k);
        std::size_t z = 0;
        const Cost d = meas([&] { z = x.erase(key); });
        check("erase(key)", d, ordered ? n : (multi ? n : 1), ordered ? 2 * cmps(n) + 2 * z : cmps(n), n, map ? 12 : 6);
    }
    void remove(u32 r)
    {
        C& x = c();
        const std::size_t n = x.size();
        u64 calls = 0, i = 0;
        const u32 m = 1 + r / 8 % 5;
        std::size_t k = 0;
        const Cost d = meas([&] { k = erase_if(x, [&](const V&) { ++calls; return i++ % m == 0; }); });
        if (d.e > (map ? 8u : 4u) * n + ED) PBT_LABEL(ctx, "known finding: erase_if is not linear");
        // Ordered containers: known finding (one shift per removed element).
        check("erase_if", d, ordered ? u64(n) * k + n : n, 0, n, map ? 8 : 4);
        if (calls != n) ctx.fail(CPLX, "erase_if on %zu elements called the predicate %llu times", n, (unsigned long long)calls);
        ctx.log("erase_if on %zu removed %zu: %llu element operations\n", n, k, (unsigned long long)d.e);
    }
    void copies(u32 how, std::size_t m)
    {
        C& x = c();
        const std::size_t n = x.size();
        const u64 q = map ? 2 : 1;
        box2.prepare();
        switch (how % 6)
        {
        case 0:
        {
            const Cost d = meas([&] { ::new (static_cast<void*>(box2.mem)) C(x); });
            box2.alive = true;
            check("copy construction", d, n, 0, n, 3 * q);
            if (ordered) { const Cost e = meas([&] { (void)(x == box2.get()); }); check("==", e, n, q * n + 2, n); }
        } break;
        case 1:
        {
            const Cost d = meas([&] { ::new (static_cast<void*>(box2.mem)) C(std::move(x)); });
            box2.alive = true;
            if (heap(box2.get())) free_of_cost("move construction", d, n);
            else check("move construction", d, std::min<std::size_t>(n, N) + 1, 0, n, 4 * q);
            const Cost e = meas([&] { x = std::move(box2.get()); });
            if (heap(x)) check("move assignment to an empty container", e, 1, 0, n, 0);
        } break;
        case 2:
        {
            // ordered range
            std::vector<V> src;
            for (std::size_t i = 0; i < std::min(m, limit); ++i) src.push_back(mkv(int(i)));
            const V* a = src.data(); const V* b = a + src.size();
            const std::size_t z = src.size();
            const Cost d = meas([&] { ::new (static_cast<void*>(box2.mem)) C(a, b); });
            box2.alive = true;
            check("construction from a sorted range", d, z, ordered ? z * 2 * cmps(z) : z * cmps(z), z, 10 * q);
        } break;
        default:
        {
            ::new (static_cast<void*>(box2.mem)) C(); box2.alive = true;
            C& y = box2.get();
            fill(y, std::min(m, limit), 2);
            m = y.size();
            if (how % 6 == 3) check("copy assignment", meas([&] { x = y; }), n + m, 0, n, 4 * q);
            else if (how % 6 == 4)
            {
                const bool h = heap(y);
                const Cost d = meas([&] { x = std::move(y); });
                if (h) check("move assignment", d, n, 0, n + m, q); else check("move assignment", d, n + m, 0, n + m, 4 * q);
            }
            else
            {
                const Cost d = meas([&] { x.swap(y); });
                if (heap(x) && heap(y)) free_of_cost("swap", d, n + m);
                else check("swap", d, std::max(std::min<std::size_t>(n, N), std::min<std::size_t>(m, N)) + 1, 0, n + m, 8 * q);
                x.swap(y);
                if (n != m) { free_of_cost("== of different sizes", meas([&] { (void)(x == y); }), n); free_of_cost("!= of different sizes", meas([&] { (void)(x != y); }), n); }
            }
        }
        }
        box2.kill();
    }
    void storage(u32 how, std::size_t q)
    {
        if constexpr (!is_static)
        {
            C& x = c();
            const std::size_t n = x.size();
            if (how & 1) { const Cost d = meas([&] { x.reserve(n + q); }); check("reserve", d, n, 0, n, map ? 8 : 4); memory("reserve", d, n + q + N, n); }
            else check("shrink_to_fit", meas([&] { x.shrink_to_fit(); }), n, 0, n, map ? 8 : 4);
        }
    }
    void access(u32 r)
    {
        C& x = c();
        const C& cc = x;
        const std::size_t n = x.size();
        if (!n) return;
        const std::size_t i = r % n, j = (r / 7) % n;
        std::size_t k = 0;
        const auto it = cc.nth(i), jt = cc.nth(j);
        free_of_cost("nth and index_of", meas([&] { (void)x.nth(i); k = cc.index_of(jt); }), n);
        free_of_cost("size, empty, capacity, available and max_size", meas([&] { k += cc.size() + cc.empty() + cc.capacity() + cc.max_size() + cc.available(); }), n);
        free_of_cost("begin and end", meas([&] { (void)cc.begin(); (void)x.end(); }), n);
        free_of_cost("iterator arithmetic", meas([&] { k += std::size_t(it - jt); (void)(it < jt); (void)(it + (std::ptrdiff_t(j) - std::ptrdiff_t(i))); }), n);
        ctx.mix(k);
    }

    void run()
    {
        g.reset();
        g.work_limit = 400000000ull;
        const Row r0 = cs.rows.empty() ? Row{} : cs.rows[0];
        box.prepare();
        ::new (static_cast<void*>(box.mem)) C(); box.alive = true;
        static const std::size_t inits[] = {0, 0, 5, 40, 200, 400, 600, 1500};
        const std::size_t n0 = std::min(inits[r0.c[0] % 8], limit);
        const int step = multi && r0.c[1] % 3 == 0 ? 0 : 2;
        fill(c(), n0, step);
        ctx.log("start with %zu elements\n", n0);
        ctx.mix(n0);
        int nops = 0;
        for (std::size_t i = 1; i < cs.rows.size() && nops < 24; ++i)
        {
            ctx.cur_row = int(i);
            const Row& w = cs.rows[i];
            const u32 op = w.c[0] % 22;
            const std::size_t n = c().size();
            if (n >= 100) ++big;
            ctx.mix(u64(op) * 4099 + w.c[2] % 4099);
            ++nops;
            const int key = w.c[3] % 4 == 0 ? int(w.c[2] % 7) - 3 : w.c[3] % 4 == 1 ? int(2 * n) + int(w.c[2] % 7) - 3 : int(w.c[2] % (2 * n + 1));
            switch (op)
            {
            case 0: case 1: case 2: case 3: insert1(key, w.c[1]); break;
            case 4: grow(amount(w.c[1]), int(w.c[2] % 2)); break;
            case 5: case 6: case 7: case 8: case 9: case 10: lookup(key, w.c[1]); break;
            case 11: erase(w.c[1], 1); break;
            case 12: erase(w.c[1], amount(w.c[2])); break;
            case 13: case 14: erase_key(key); break;
            case 15: remove(w.c[1]); break;
            case 16: case 17: case 18: copies(w.c[1], amount(w.c[2])); break;
            case 19: storage(w.c[1], amount(w.c[2])); break;
            case 20: access(w.c[1]); break;
            default: if (w.c[3] % 4 == 0) { const Cost d = meas([&] { c().clear(); }); check("clear", d, n, 0, n, map ? 2 : 1); }
            }
        }
        { const std::size_t n = c().size(); const Cost d = meas([&] { box.kill(); }); check("destruction", d, n, 0, n, map ? 2 : 1); }
        g.end_case();
        PBT_LABEL(ctx, "cases");
        if (big >= 3) ctx.nontrivial = true;
    }
};

template <class C> void run_seq(const Case& c, Ctx& x) { static Seq<C>* m = nullptr; if (m) m->~Seq<C>(); else m = static_cast<Seq<C>*>(std::aligned_alloc(64, (sizeof(Seq<C>) + 63) / 64 * 64)); ::new (static_cast<void*>(m)) Seq<C>(c, x); m->run(); }
template <class C> void run_assoc(const Case& c, Ctx& x) { static Assoc<C>* m = nullptr; if (m) m->~Assoc<C>(); else m = static_cast<Assoc<C>*>(std::aligned_alloc(64, (sizeof(Assoc<C>) + 63) / 64 * 64)); ::new (static_cast<void*>(m)) Assoc<C>(c, x); m->run(); }

#define CPLX_CAT2(a, b) a##b
#define CPLX_CAT(a, b) CPLX_CAT2(a, b)
#define CPLX_SEQ(name, ...) static ::pbt::Register CPLX_CAT(reg_, __COUNTER__)(name, ::cplx::Info<__VA_ARGS__>::fam, 0, &::cplx::run_seq<__VA_ARGS__>)
#define CPLX_ASSOC(name, ...) static ::pbt::Register CPLX_CAT(reg_, __COUNTER__)(name, ::cplx::Info<__VA_ARGS__>::fam, 0, &::cplx::run_assoc<__VA_ARGS__>)

} // namespace cplx
