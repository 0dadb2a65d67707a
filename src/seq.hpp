// Model-based machine for the sequence containers. Every case drives up to three
// containers and their models through one operation history; after every
// operation the oracles compare contents, lifetimes, capacity, allocator and
// reference facts with what the model predicts.
#pragma once
#include "ob.hpp"
#include <algorithm>
#include <initializer_list>
#include <stdexcept>
#include <string>

#include <sfl/vector.hpp>
#include <sfl/small_vector.hpp>
#include <sfl/static_vector.hpp>
#include <sfl/compact_vector.hpp>
#include <sfl/devector.hpp>
#include <sfl/segmented_vector.hpp>
#include <sfl/segmented_devector.hpp>

extern unsigned long long g_news; // calls of global operator new

namespace seq
{
using namespace pbt;
using namespace ob;

template <class C> struct Info;
template <class T, class A> struct Info<sfl::vector<T, A>> { static constexpr u32 fam = F_VEC; static constexpr std::size_t N = 0; using Al = A; };
template <class T, std::size_t NN, class A> struct Info<sfl::small_vector<T, NN, A>> { static constexpr u32 fam = F_SMALL; static constexpr std::size_t N = NN; using Al = A; };
template <class T, std::size_t NN> struct Info<sfl::static_vector<T, NN>> { static constexpr u32 fam = F_STATIC; static constexpr std::size_t N = NN; using Al = void; };
template <class T, class A> struct Info<sfl::compact_vector<T, A>> { static constexpr u32 fam = F_COMPACT; static constexpr std::size_t N = 0; using Al = A; };
template <class T, class A> struct Info<sfl::devector<T, A>> { static constexpr u32 fam = F_DEV; static constexpr std::size_t N = 0; using Al = A; };
template <class T, std::size_t NN, class A> struct Info<sfl::segmented_vector<T, NN, A>> { static constexpr u32 fam = F_SEG; static constexpr std::size_t N = NN; using Al = A; };
template <class T, std::size_t NN, class A> struct Info<sfl::segmented_devector<T, NN, A>> { static constexpr u32 fam = F_SEGDEV; static constexpr std::size_t N = NN; using Al = A; };

enum Op
{
    PUSH_BACK, PUSH_BACK_RV, EMPLACE_BACK, POP_BACK, INSERT, INSERT_RV, EMPLACE, INSERT_N, INSERT_RANGE, INSERT_IL,
    ERASE1, ERASE_RANGE, RESIZE, RESIZE_V, CLEAR, RESERVE, SHRINK, ASSIGN_N, ASSIGN_RANGE, ASSIGN_IL,
    COPY_ASSIGN, MOVE_ASSIGN, SWAP, COPY_CTOR, MOVE_CTOR, CTOR, ERASE_VAL, ERASE_IF, WRITE, AT, LENGTH, COMPARE, ITERS,
    ALIAS_PUSH, ALIAS_INSERT, ALIAS_EMPLACE, ALIAS_INSERT_N, ALIAS_RESIZE, SELF_ASSIGN, DEFAULT_INIT,
    PUSH_FRONT, PUSH_FRONT_RV, EMPLACE_FRONT, POP_FRONT, RESERVE_FRONT, RESERVE_BACK, RESIZE_FRONT, RESIZE_FRONT_V, RESIZE_BACK, RESIZE_BACK_V,
    ALIAS_PUSH_FRONT, ALIAS_RESIZE_FB, BULK, LAYOUT, OP_COUNT
};

enum Group { GR_GROW, GR_SHRINK, GR_RANGE, GR_CAP, GR_COPY, GR_ALIAS, GR_ERR, GR_ITER, GR_CMP, GR_ERASE, GR_FRONT, GR_MISC };

struct OpInfo { Op op; int w; Group g; };
static const OpInfo op_table[] = {
    {PUSH_BACK, 4, GR_GROW}, {PUSH_BACK_RV, 4, GR_GROW}, {EMPLACE_BACK, 4, GR_GROW}, {POP_BACK, 3, GR_SHRINK},
    {INSERT, 4, GR_GROW}, {INSERT_RV, 4, GR_GROW}, {EMPLACE, 4, GR_GROW}, {INSERT_N, 5, GR_RANGE}, {INSERT_RANGE, 6, GR_RANGE}, {INSERT_IL, 2, GR_RANGE},
    {ERASE1, 4, GR_ERASE}, {ERASE_RANGE, 4, GR_ERASE}, {RESIZE, 3, GR_MISC}, {RESIZE_V, 3, GR_MISC}, {CLEAR, 1, GR_SHRINK}, {RESERVE, 3, GR_CAP}, {SHRINK, 3, GR_CAP},
    {ASSIGN_N, 3, GR_RANGE}, {ASSIGN_RANGE, 4, GR_RANGE}, {ASSIGN_IL, 2, GR_RANGE}, {COPY_ASSIGN, 3, GR_COPY}, {MOVE_ASSIGN, 3, GR_COPY}, {SWAP, 3, GR_COPY},
    {COPY_CTOR, 3, GR_COPY}, {MOVE_CTOR, 3, GR_COPY}, {CTOR, 4, GR_RANGE}, {ERASE_VAL, 2, GR_ERASE}, {ERASE_IF, 2, GR_ERASE}, {WRITE, 2, GR_MISC},
    {AT, 2, GR_ERR}, {LENGTH, 2, GR_ERR}, {COMPARE, 2, GR_CMP}, {ITERS, 2, GR_ITER},
    {ALIAS_PUSH, 2, GR_ALIAS}, {ALIAS_INSERT, 2, GR_ALIAS}, {ALIAS_EMPLACE, 2, GR_ALIAS}, {ALIAS_INSERT_N, 2, GR_ALIAS}, {ALIAS_RESIZE, 2, GR_ALIAS},
    {SELF_ASSIGN, 1, GR_COPY}, {DEFAULT_INIT, 1, GR_MISC},
    {PUSH_FRONT, 5, GR_FRONT}, {PUSH_FRONT_RV, 5, GR_FRONT}, {EMPLACE_FRONT, 5, GR_FRONT}, {POP_FRONT, 5, GR_FRONT}, {RESERVE_FRONT, 3, GR_CAP}, {RESERVE_BACK, 3, GR_CAP},
    {RESIZE_FRONT, 3, GR_FRONT}, {RESIZE_FRONT_V, 3, GR_FRONT}, {RESIZE_BACK, 3, GR_MISC}, {RESIZE_BACK_V, 3, GR_MISC}, {ALIAS_PUSH_FRONT, 2, GR_ALIAS}, {ALIAS_RESIZE_FB, 2, GR_ALIAS},
    {BULK, 2, GR_GROW}, {LAYOUT, 3, GR_MISC},
};

enum Profile { PR_GENERAL, PR_CAP, PR_ALIAS, PR_RANGE, PR_COPY, PR_ERR, PR_ITER, PR_CMP, PR_ERASE, PR_INSERT = 12, PR_COPYL };

inline bool boosted(int profile, Group g)
{
    switch (profile)
    {
    case PR_CAP: return g == GR_CAP || g == GR_SHRINK;
    case PR_ALIAS: return g == GR_ALIAS;
    case PR_RANGE: return g == GR_RANGE;
    case PR_COPY: return g == GR_COPY;
    case PR_ERR: return g == GR_ERR;
    case PR_ITER: return g == GR_ITER;
    case PR_CMP: return g == GR_CMP;
    case PR_ERASE: return g == GR_ERASE;
    case PR_COPYL: return g == GR_COPY;
    case PR_INSERT: return g == GR_GROW || g == GR_RANGE || g == GR_FRONT;
    }
    return false;
}

inline u32 group_cat(Op op)
{
    for (auto& o : op_table)
        if (o.op == op)
            switch (o.g)
            {
            case GR_RANGE: return RANGE;
            case GR_CAP: return CAP;
            case GR_COPY: return COPY;
            case GR_ALIAS: return ALIAS;
            case GR_ERR: return ERRS;
            case GR_ITER: return ITER;
            case GR_CMP: return CMP;
            case GR_ERASE: return ERASE;
            default: return 0;
            }
    return 0;
}
inline const std::vector<Op>& ops_for(int profile)
{
    static std::vector<Op> v;
    static int built = -1;
    if (built != profile)
    {
        v.clear();
        for (auto& o : op_table)
            for (int i = 0; i < o.w * (boosted(profile, o.g) ? 5 : profile >= PR_INSERT ? 0 : 1); ++i) v.push_back(o.op);
        built = profile;
    }
    return v;
}

enum Res { R_OK, R_FAULT, R_LEN };

template <class C>
struct Machine
{
    using I = Info<C>;
    using T = typename C::value_type;
    using Al = typename I::Al;
    static constexpr u32 fam = I::fam;
    static constexpr std::size_t N = I::N;
    static constexpr bool is_static = fam == F_STATIC;
    static constexpr bool has_alloc = !is_static;
    static constexpr bool seg = fam == F_SEG || fam == F_SEGDEV;
    static constexpr bool dev = fam == F_DEV || fam == F_SEGDEV;
    static constexpr bool contig = !seg;
    static constexpr bool peek = std::is_constructible<T, Peek<T>>::value;
    static constexpr bool cp = El<T>::copyable;
    static constexpr bool nt = El<T>::nt_move;
    static constexpr bool tal = IsTal<Al>::value;
    static constexpr u32 props = IsTal<Al>::props;
    static constexpr bool tracked = El<T>::tracked > 0;
    static constexpr bool has_reserve = fam == F_VEC || fam == F_SMALL || fam == F_SEG;
    static constexpr bool has_shrink = has_reserve || dev;
    using V = std::vector<int>;
    static constexpr int S = 3;

    struct Slot { Box<C> box; V m; int aid = 0; C& c() { return box.get(); } };

    Ctx& ctx;
    const Case& cs;
    Slot s[S];
    const std::vector<Op>& ops;
    u32 size_limit = 16;
    bool unique_vals = true;
    int next_val = 1;
    std::size_t maxsz = 0;       // limit set on the allocator, 0: none
    Cat cat = CONTENT;           // category of wrong contents for the current operation
    int applied = 0;
    bool realloc_seen = false, removed_seen = false, mid_seen = false, multi_seen = false;
    u64 elem0 = 0, news_delta = 0;

    Machine(const Case& c, Ctx& x) : ctx(x), cs(c), ops(ops_for(x.profile)) { ctx.op_cat = &cat; }
    ~Machine() { ctx.op_cat = nullptr; ctx.op_group = 0; }

    // ---- small helpers --------------------------------------------------------
    int newval(u32 r) { return unique_vals ? next_val++ : 1 + int(r % 4); }
    V newvals(u32 n, u32 r) { V v; for (u32 i = 0; i < n; ++i) v.push_back(newval(r + i * 7)); return v; }
    static T mk(int v) { return T(v); }
    std::size_t room(const V& m) const
    {
        std::size_t lim = is_static ? N : size_limit;
        return m.size() >= lim ? 0 : lim - m.size();
    }
    std::size_t limit() const { return is_static ? N : size_limit; }
    static std::size_t elems(const Slot& x) { return x.m.size(); }
    auto nth(C& c, std::size_t i) { return c.nth(i); }
    auto cnth(C& c, std::size_t i) { return static_cast<const C&>(c).nth(i); }
    std::size_t idx(C& c, typename C::const_iterator it) { return c.index_of(it); }
    static int eff(int id) { return (props & ALWAYS_EQ) ? 0 : id; }
    bool same_alloc(const Slot& a, const Slot& b) const { return !tal || eff(a.aid) == eff(b.aid); }
    bool heap(Slot& x)
    {
        if constexpr (is_static) return false;
        else if constexpr (fam == F_SMALL) return x.c().capacity() > N;
        else return true;
    }

    template <class F> Res attempt(F&& f)
    {
        elem0 = g.elem_ops();
        const bool arm = ctx.cur_row == ctx.fault_row;
        if (arm) { ctx.fault_seen = true; g.fired = false; g.left = ctx.fault_k; g.armed = true; }
        Res r = R_OK;
        const u64 news0 = g_news;
        news_delta = 0;
        try { f(); g.armed = false; news_delta = g_news - news0; }
        catch (const Fault&) { g.armed = false; r = R_FAULT; ctx.fault_fired = true; }
        catch (const std::length_error&) { g.armed = false; r = R_LEN; }
        catch (const std::exception& e) { g.armed = false; ctx.fail(cat, "unexpected exception: %s", e.what()); }
        if (r == R_OK && g.fired) ctx.fail(LIFE, "an exception thrown by an operation of the element type was swallowed");
        return r;
    }

    // ---- oracles -----------------------------------------------------------------
    void check_contents(Slot& x, Cat k, const char* what)
    {
        C& c = x.c();
        const C& cc = c;
        const std::size_t n = x.m.size();
        if (cc.size() != n) ctx.fail(k, "%s: size() is %zu, the model has %zu", what, std::size_t(cc.size()), n);
        if (cc.empty() != (n == 0)) ctx.fail(k, "%s: empty() is wrong", what);
        std::size_t i = 0;
        auto e = cc.end();
        for (auto it = cc.begin(); it != e; ++it, ++i)
        {
            if (i >= n) ctx.fail(k, "%s: iteration runs past size()", what);
            const int v = val(*it);
            if (v != x.m[i]) ctx.fail(k, "%s: element %zu is %d, the model has %d", what, i, v, x.m[i]);
        }
        if (i != n) ctx.fail(k, "%s: iteration yields %zu of %zu elements", what, i, n);
    }
    void check_access(Slot& x, u32 r)
    {
        C& c = x.c();
        const C& cc = c;
        const std::size_t n = x.m.size();
        if (n == 0) return;
        const std::size_t i = r % n;
        if (val(cc[i]) != x.m[i] || val(c[i]) != x.m[i]) ctx.fail(CONTENT, "operator[](%zu) is wrong", i);
        if (&cc[i] != &*(cc.begin() + std::ptrdiff_t(i)) || &c[i] != &*c.nth(i)) ctx.fail(CONTENT, "operator[](%zu), nth and begin()+%zu disagree", i, i);
        if (val(c.at(i)) != x.m[i]) ctx.fail(ERRS, "at(%zu) is wrong", i);
        if (val(c.front()) != x.m.front() || val(cc.back()) != x.m.back() || &c.back() != &c[n - 1] || &cc.front() != &cc[0]) ctx.fail(CONTENT, "front() or back() is wrong");
        if (c.index_of(c.nth(i)) != i) ctx.fail(CONTENT, "index_of(nth(%zu)) is not %zu", i, i);
        if constexpr (contig)
        {
            if (c.data() + i != &c[i] || cc.data() + i != &cc[i]) ctx.fail(CONTENT, "data() + %zu is not element %zu", i, i);
        }
    }
    void check_capacity(Slot& x)
    {
        C& c = x.c();
        const std::size_t n = x.m.size();
        const std::size_t cap = c.capacity();
        if (cap < n) ctx.fail(CAP, "capacity() %zu is below size() %zu", cap, n);
        if constexpr (!dev) { if (c.available() != cap - n) ctx.fail(CAP, "available() is %zu with capacity %zu and size %zu", std::size_t(c.available()), cap, n); }
        else
        {
            if (c.available_front() + c.available_back() + n != cap) ctx.fail(CAP, "available_front() %zu + size() %zu + available_back() %zu is not capacity() %zu", std::size_t(c.available_front()), n, std::size_t(c.available_back()), cap);
        }
        if (most(c) < n) ctx.fail(CAP, "max_size() is below size()");
        if constexpr (!is_static) ob::check_max_size(ctx, c, fam == F_SMALL ? N : 0);
        if constexpr (fam == F_COMPACT) { if (cap != n) ctx.fail(CAP, "compact_vector has capacity %zu with size %zu", cap, n); }
        if constexpr (fam == F_STATIC)
        {
            if (cap != N || c.max_size() != N) ctx.fail(CAP, "static capacity is not N");
            if (c.full() != (n == N)) ctx.fail(CAP, "full() is wrong");
            if (n && (!x.box.inside(&c[0]) || !x.box.inside(&c[n - 1]))) ctx.fail(CAP, "element of a static container outside the object");
        }
        if constexpr (fam == F_SMALL)
        {
            if (cap < N) ctx.fail(CAP, "small_vector capacity %zu is below N", cap);
            if (n)
            {
                const bool in = x.box.inside(&c[0]);
                if (cap > N && in) ctx.fail(CAP, "capacity %zu > N but elements are in the internal storage", cap);
                if (cap <= N && !in) ctx.fail(CAP, "capacity %zu <= N but elements are not in the internal storage", cap);
            }
        }
        if constexpr (seg) { if (C::segment_capacity != N) ctx.fail(CAP, "segment_capacity is not N"); }
    }
    void check_alloc(Slot& x)
    {
        if constexpr (tal)
        {
            const auto a = x.c().get_allocator();
            if (eff(a.id) != eff(x.aid)) ctx.fail(ALLOC, "get_allocator() is allocator %d, expected %d", a.id, x.aid);
            if constexpr (tracked)
                for (auto it = x.c().begin(); it != x.c().end(); ++it)
                {
                    Entry* e = g.reg.find(regaddr(*it));
                    if (e && !g.relax_cons && e->cons != eff(x.aid)) ctx.fail(ALLOC, "an element was not constructed through the container's allocator (%d, expected %d)", e->cons, eff(x.aid));
                }
        }
        else (void)x;
    }
    void check_live()
    {
        if constexpr (tracked)
        {
            std::size_t n = 0;
            for (auto& x : s) if (x.box.alive) n += x.m.size();
            if (g.reg.live != n * El<T>::tracked) ctx.fail(LIFE, "%u element objects are alive, the containers hold %zu", g.reg.live, n);
        }
    }
    void verify(int k, u32 r)
    {
        for (int i = 0; i < S; ++i)
        {
            Slot& x = s[i];
            if (!x.box.alive) continue;
            x.box.check();
            check_contents(x, i == k ? cat : COPY, i == k ? "container" : "uninvolved container");
        }
        if (k >= 0 && s[k].box.alive)
        {
            check_access(s[k], r);
            check_capacity(s[k]);
            check_alloc(s[k]);
        }
        check_live();
    }
    // After an exception: the container must be valid; its contents become the model.
    void resync(Slot& x)
    {
        C& c = x.c();
        const C& cc = c;
        const std::size_t n = cc.size();
        if (n > 100000) ctx.fail(VALID | (ctx.op_group & STRONG), "size() is %zu after an exception", n);
        if (cc.empty() != (n == 0)) ctx.fail(VALID | (ctx.op_group & STRONG), "empty() is wrong after an exception");
        V m;
        std::size_t i = 0;
        for (auto it = cc.begin(); it != cc.end(); ++it, ++i)
        {
            if (i >= n) ctx.fail(VALID | (ctx.op_group & STRONG), "iteration runs past size() after an exception");
            if constexpr (tracked)
                if (!g.reg.find(regaddr(*it))) ctx.fail(VALID | (ctx.op_group & STRONG), "after an exception element %zu of %zu is not a live object", i, n);
            m.push_back(val(*it));
        }
        if (i != n) ctx.fail(VALID | (ctx.op_group & STRONG), "iteration yields %zu of %zu elements after an exception", i, n);
        if (c.capacity() < n) ctx.fail(VALID | (ctx.op_group & STRONG), "capacity() is below size() after an exception");
        x.m = m;
    }

    struct Pre
    {
        V m; std::size_t cap = 0, avf = 0, avb = 0; const void* data = nullptr; bool internal = false;
        std::vector<std::pair<const void*, u32>> refs; // address, serial
        u64 allocs = 0;
    };
    Pre pre(Slot& x)
    {
        Pre p;
        C& c = x.c();
        p.m = x.m;
        p.cap = c.capacity();
        if constexpr (dev) { p.avf = c.available_front(); p.avb = c.available_back(); }
        else { p.avb = c.available(); }
        if constexpr (contig) p.data = c.data();
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            const void* a = &*it;
            u32 ser = 0;
            if constexpr (tracked) { Entry* e = g.reg.find(regaddr(*it)); ser = e ? e->serial : 0; }
            p.refs.push_back({a, ser});
        }
        if constexpr (fam == F_SMALL) p.internal = p.cap <= N;
        p.allocs = g.alloc;
        return p;
    }
    // Elements [from, from+n) of the old contents must still be the same objects, now at index `now`.
    void same_objects(Slot& x, const Pre& p, std::size_t from, std::size_t n, std::size_t now, const char* what)
    {
        C& c = x.c();
        for (std::size_t i = 0; i < n; ++i)
        {
            auto it = c.nth(now + i);
            const void* a = &*it;
            if (a != p.refs[from + i].first) ctx.fail(REF, "%s: element %zu moved to another address although references to it must stay valid", what, from + i);
            if constexpr (tracked)
            {
                Entry* e = g.reg.find(regaddr(*it));
                if (!e || e->serial != p.refs[from + i].second) ctx.fail(REF, "%s: element %zu was destroyed and rebuilt although references to it must stay valid", what, from + i);
            }
        }
    }
    void no_realloc(Slot& x, const Pre& p, const char* what)
    {
        C& c = x.c();
        if (g.alloc != p.allocs) ctx.fail(REF | CAP, "%s: allocated memory although the capacity sufficed", what);
        if (c.capacity() != p.cap) ctx.fail(REF | CAP, "%s: capacity changed from %zu to %zu although it sufficed", what, p.cap, std::size_t(c.capacity()));
        if constexpr (contig) { if (!dev && static_cast<const void*>(c.data()) != p.data) ctx.fail(REF | CAP, "%s: storage changed although the capacity sufficed", what); }
    }
    // Checks for insertion of n elements at pos that completed.
    void after_insert(Slot& x, const Pre& p, std::size_t pos, std::size_t n, const char* what, bool at_back = false, bool at_front = false)
    {
        C& c = x.c();
        const std::size_t old = p.m.size();
        if (g.alloc != p.allocs) realloc_seen = true;
        if (pos > 0 && pos < old) mid_seen = true;
        if constexpr (fam == F_VEC || fam == F_SMALL || fam == F_STATIC)
        {
            if (old + n <= p.cap) { no_realloc(x, p, what); same_objects(x, p, 0, std::min(pos, old), 0, what); }
        }
        else if constexpr (fam == F_SEG)
        {
            if (n <= p.avb) no_realloc(x, p, what);
            if (at_back) same_objects(x, p, 0, old, 0, what); else same_objects(x, p, 0, std::min(pos, old), 0, what);
        }
        else if constexpr (fam == F_DEV)
        {
            if (at_back && n <= p.avb) { no_realloc(x, p, what); same_objects(x, p, 0, old, 0, what); }
            if (at_front && n <= p.avf) { no_realloc(x, p, what); same_objects(x, p, 0, old, n, what); }
            if (n <= p.avf && n <= p.avb) no_realloc(x, p, what);
        }
        else if constexpr (fam == F_SEGDEV)
        {
            if (at_back) { same_objects(x, p, 0, old, 0, what); if (n <= p.avb) no_realloc(x, p, what); }
            if (at_front) { same_objects(x, p, 0, old, n, what); if (n <= p.avf) no_realloc(x, p, what); }
            if (n <= p.avf && n <= p.avb) no_realloc(x, p, what);
        }
        check_storage(x, p, what);
        (void)c;
    }
    // Small: stays in the object up to N. Static: never allocates.
    void check_storage(Slot& x, const Pre& p, const char* what)
    {
        if constexpr (fam == F_SMALL)
        {
            if (p.internal && x.c().size() <= N)
            {
                if (g.alloc != p.allocs) ctx.fail(CAP, "%s: allocated memory although at most N elements are held", what);
                if (x.c().capacity() > N) ctx.fail(CAP, "%s: left the internal storage although at most N elements are held", what);
            }
            if (p.internal != (x.c().capacity() <= N)) PBT_LABEL(ctx, "internal-heap crossing");
        }
        if (news_delta && !std::is_same<Al, std::allocator<T>>::value) ctx.fail(is_static ? CAP : ALLOC, "%s: called global operator new", what);
    }
    void after_erase(Slot& x, const Pre& p, std::size_t first, std::size_t n, const char* what)
    {
        const std::size_t old = p.m.size();
        if (n) removed_seen = true;
        if constexpr (fam == F_COMPACT) return;
        if (g.alloc != p.allocs) ctx.fail(REF | CAP, "%s: an erasure allocated memory", what);
        if (x.c().capacity() != p.cap) ctx.fail(REF | CAP, "%s: an erasure changed the capacity", what);
        if constexpr (!dev) same_objects(x, p, 0, first, 0, what);
        else
        {
            if (first == 0) same_objects(x, p, n, old - n, 0, what);
            else if (first + n == old) same_objects(x, p, 0, first, 0, what);
        }
    }

    // segments are whole: their room may be used even if that is more than max_size()
    static std::size_t most(const C& c) { return c.max_size() + (seg ? 2 * N : 0); }
    std::size_t max_size_of(Slot& x) { return x.c().max_size(); }

    // Completes an operation on slot k whose result should be `want`.
    // strong: a fault must leave the container as it was.
    void finish(int k, Res r, const V& want, bool strong, const Pre& p, bool grows, std::size_t want_size, u32 rnd)
    {
        Slot& x = s[k];
        if (r == R_LEN)
        {
            // double-ended containers refuse when their front and back capacity together cannot grow any more
            const bool dev_limit = fam == F_DEV ? p.cap * 2 + want_size * 3 + 1 > x.c().max_size() : fam == F_SEGDEV && p.cap + want_size > x.c().max_size();
            if (!(grows && (want_size > x.c().max_size() || dev_limit))) ctx.fail(ERRS, "length_error although the requested size %zu does not exceed max_size() %zu", want_size, std::size_t(x.c().max_size()));
            cat = ERRS;
            ctx.op_group |= STRONG;
            verify(k, rnd);
            PBT_LABEL(ctx, "length_error");
            return;
        }
        if (r == R_FAULT) { fault(k, strong, p); return; }
        if (!is_static && grows && want_size > most(x.c())) ctx.fail(ERRS, "no length_error although the size %zu exceeds max_size() %zu", want_size, std::size_t(x.c().max_size()));
        x.m = want;
        verify(k, rnd);
    }
    void fault(int k, bool strong, const Pre& p)
    {
        Slot& x = s[k];
        PBT_LABEL(ctx, "fault fired");
        ctx.nontrivial = true;
        if (!x.box.alive) { check_live(); return; }
        if (strong)
        {
            ctx.op_group |= STRONG; // whatever is wrong from here on is also an effect of the failed operation
            V keep = x.m;
            resync(x);
            if (x.m != keep) ctx.fail(STRONG, "an operation that failed by exception changed the contents (size %zu, was %zu)", x.m.size(), keep.size());
            if (fam != F_DEV && p.refs.size() == keep.size() && !keep.empty())
            {
                for (std::size_t i = 0; i < keep.size(); ++i)
                    if (static_cast<const void*>(&*x.c().nth(i)) != p.refs[i].first) ctx.fail(STRONG | REF, "an operation that failed by exception moved element %zu to another address", i);
            }
            if constexpr (contig && !dev)
                if (p.refs.size() == keep.size() && !keep.empty() && x.c().capacity() != p.cap) ctx.fail(STRONG | CAP, "an operation that failed by exception changed the capacity from %zu to %zu", p.cap, std::size_t(x.c().capacity()));
            PBT_LABEL(ctx, "fault in strong operation");
        }
        else resync(x);
        cat = COPY;
        for (int i = 0; i < S; ++i) if (s[i].box.alive && i != k) check_contents(s[i], COPY, "uninvolved container");
        check_alloc(x);
        check_live();
    }

    // ---- ranges -----------------------------------------------------------------
    static constexpr int NR = 6;
    template <class F> Res with_range(u32 variant, const V& vals, F&& f)
    {
        Pass ps; ps.n = long(vals.size());
        const long n = ps.n;
        std::vector<Src> src;
        for (int v : vals) src.push_back(Src{v});
        src.push_back(Src{-1});
        switch (variant % NR)
        {
        case 0: { using R = It<std::input_iterator_tag, const Src>; PBT_LABEL(ctx, "input range"); return attempt([&] { f(R(src.data(), 0, &ps), R(src.data(), n, &ps)); }); }
        case 1: { using R = It<std::forward_iterator_tag, const Src>; PBT_LABEL(ctx, "forward range"); return attempt([&] { f(R(src.data(), 0, &ps), R(src.data(), n, &ps)); }); }
        case 2: { using R = It<std::random_access_iterator_tag, const Src>; PBT_LABEL(ctx, "random access range"); return attempt([&] { f(R(src.data(), 0, &ps), R(src.data(), n, &ps)); }); }
        default: break;
        }
        Res r;
        {
            std::vector<T> arr; arr.reserve(vals.size() + 1);
            for (int v : vals) arr.emplace_back(v);
            if (variant % NR == 3 || !cp)
            {
                PBT_LABEL(ctx, "move_iterator range");
                r = attempt([&] { f(std::make_move_iterator(arr.data()), std::make_move_iterator(arr.data() + arr.size())); });
                if (r == R_OK)
                    if constexpr (tracked && !std::is_same<T, CopyOnly>::value)
                        for (auto& t : arr) if (val(t) != MOVED) ctx.fail(RANGE, "an element of a move_iterator range was not moved from");
            }
            else if constexpr (cp)
            {
                if (variant % NR == 4)
                {
                    PBT_LABEL(ctx, "pointer range");
                    r = attempt([&] { f(static_cast<const T*>(arr.data()), static_cast<const T*>(arr.data() + arr.size())); });
                }
                else
                {
                    using R = It<std::bidirectional_iterator_tag, const T>;
                    PBT_LABEL(ctx, "bidirectional range");
                    r = attempt([&] { f(R(arr.data(), 0, &ps), R(arr.data(), n, &ps)); });
                }
                for (std::size_t i = 0; i < arr.size(); ++i) if (val(arr[i]) != vals[i]) ctx.fail(RANGE, "a range operation modified its source range");
            }
        }
        return r;
    }
    template <class F> Res with_il(const V& v, F&& f)
    {
        if constexpr (cp)
        {
            switch (v.size())
            {
            case 0: { std::initializer_list<T> il = {}; return attempt([&] { f(il); }); }
            case 1: { std::initializer_list<T> il = {T(v[0])}; return attempt([&] { f(il); }); }
            case 2: { std::initializer_list<T> il = {T(v[0]), T(v[1])}; return attempt([&] { f(il); }); }
            case 3: { std::initializer_list<T> il = {T(v[0]), T(v[1]), T(v[2])}; return attempt([&] { f(il); }); }
            default: { std::initializer_list<T> il = {T(v[0]), T(v[1]), T(v[2]), T(v[3]), T(v[4])}; return attempt([&] { f(il); }); }
            }
        }
        else { (void)v; (void)f; return R_OK; }
    }
    static std::size_t il_size(u32 r, std::size_t rm) { static const std::size_t z[] = {0, 1, 2, 3, 5}; std::size_t n = z[r % 5]; return n <= rm ? n : 0; }

    template <class... A> void build(int k, int aid, A&&... a)
    {
        Slot& x = s[k];
        if constexpr (tal) ::new (static_cast<void*>(x.box.mem)) C(std::forward<A>(a)..., Al(aid));
        else ::new (static_cast<void*>(x.box.mem)) C(std::forward<A>(a)...);
        x.box.alive = true;
        x.aid = aid;
    }

    // "old contents with fills added at both ends" for resize() of the double-ended containers
    bool resized_ok(Slot& x, const V& old, std::size_t n, int fill)
    {
        resync_silent(x);
        if (x.m.size() != n) return false;
        if (n <= old.size()) return std::equal(x.m.begin(), x.m.end(), old.begin());
        for (std::size_t off = 0; off + old.size() <= n; ++off)
        {
            bool ok = std::equal(old.begin(), old.end(), x.m.begin() + long(off));
            for (std::size_t i = 0; ok && i < n; ++i) if (i < off || i >= off + old.size()) ok = x.m[i] == fill;
            if (ok) return true;
        }
        return false;
    }
    void resync_silent(Slot& x) { x.m.clear(); for (auto it = x.c().begin(); it != x.c().end(); ++it) x.m.push_back(val(*it)); }

    // Appending at an end: no effect when it fails. devector may have to shift its elements first.
    bool end_strong() const { return fam == F_DEV ? nt : nt || cp; }

    // Appending several elements, or resizing, for elements whose transfer cannot lose values.
    bool append_strong(bool with_v) const { return fam == F_COMPACT ? with_v ? nt || cp : cp && !nt : fam == F_DEV || fam == F_SEGDEV ? nt : nt || cp; }

    // Brings a container to a given size with given free capacity at its ends.
    void layout(int k, u32 b, u32 d, u32 e, u32 rnd)
    {
        Slot& x = s[k];
        C& c = x.c();
        const std::size_t lim = is_static ? c.capacity() : std::size_t(size_limit);
        const std::size_t q = b % (lim + 1), back = d % 3 == 0 ? 0 : d % 3 == 1 ? d / 3 % 8 : d / 3 % (2 * lim + 2), front = !dev || e % 3 == 0 ? 0 : e % 3 == 1 ? e / 3 % 8 : e / 3 % (2 * lim + 2);
        ctx.log("layout of container %d (size %zu, front %zu, back %zu)\n", k, q, front, back); ctx.mix((q * 256 + front) * 256 + back);
        const int base = next_val;
        next_val += int(q);
        V w;
        Res r = attempt([&] {
            c.clear();
            if constexpr (has_shrink) c.shrink_to_fit();
            if constexpr (dev) { c.reserve_front(front); c.reserve_back(q + back); }
            else if constexpr (has_reserve) c.reserve(q + back);
            for (std::size_t i = 0; i < q; ++i) { c.emplace_back(base + int(i)); w.push_back(base + int(i)); }
        });
        if (r == R_LEN || r == R_FAULT) { resync(x); verify(k, rnd); if (r == R_FAULT) { PBT_LABEL(ctx, "fault fired"); ctx.nontrivial = true; check_live(); } return; }
        x.m = w;
        verify(k, rnd);
    }

    // ---- one operation ------------------------------------------------------------
    void step(const Row& row)
    {
        const Op op = ops[row.c[0] % ops.size()];
        const int k = ctx.profile == PR_INSERT ? 0 : int(row.c[1] % S); // PR_INSERT: insertions into chosen layouts
        const u32 a = row.c[2], b = row.c[3], d = row.c[4], e = row.c[5], f = row.c[6];
        Slot& x = s[k];
        C& c = x.c();
        const std::size_t n = x.m.size();
        cat = CONTENT;
        ctx.op_group = group_cat(op);
        V want = x.m;
        auto at = [&](std::size_t i) { return want.begin() + long(i); };
        auto tag = [&](const char* nm) { ctx.log("  [%d] %s", k, nm); ctx.mix(u64(op) * 8 + u64(k)); ++applied; };
        auto need_room = [&](std::size_t q) { return room(x.m) >= q; };

        switch (op)
        {
        case PUSH_BACK: case PUSH_BACK_RV: case EMPLACE_BACK:
        {
            if (!need_room(1)) return;
            const int v = newval(d);
            tag("push_back/emplace_back"); ctx.log(" (%d) variant %d\n", v, int(op)); ctx.mix(n);
            want.push_back(v);
            Pre p = pre(x);
            Res r;
            if (op == PUSH_BACK)
            {
                if constexpr (cp) { const T t(v); r = attempt([&] { c.push_back(t); }); if (val(t) != v) ctx.fail(CONTENT, "push_back modified its argument"); }
                else return;
            }
            else if (op == PUSH_BACK_RV) { T t(v); r = attempt([&] { c.push_back(std::move(t)); }); }
            else
            {
                r = attempt([&] {
                    auto& ref = c.emplace_back(v);
                    if (&ref != &c.back()) ctx.fail(CONTENT, "emplace_back does not return a reference to the new element");
                });
            }
            if (r == R_OK) after_insert(x, p, n, 1, "push_back", true);
            finish(k, r, want, end_strong(), p, true, n + 1, a);
            return;
        }
        case PUSH_FRONT: case PUSH_FRONT_RV: case EMPLACE_FRONT:
            if constexpr (dev)
            {
                if (!need_room(1)) return;
                const int v = newval(d);
                tag("push_front/emplace_front"); ctx.log(" (%d)\n", v); ctx.mix(n);
                want.insert(want.begin(), v);
                Pre p = pre(x);
                Res r;
                if (op == PUSH_FRONT)
                {
                    if constexpr (cp) { const T t(v); r = attempt([&] { c.push_front(t); }); if (val(t) != v) ctx.fail(CONTENT, "push_front modified its argument"); }
                    else return;
                }
                else if (op == PUSH_FRONT_RV) { T t(v); r = attempt([&] { c.push_front(std::move(t)); }); }
                else r = attempt([&] {
                    auto& ref = c.emplace_front(v);
                    if (&ref != &c.front()) ctx.fail(CONTENT, "emplace_front does not return a reference to the new element");
                });
                if (r == R_OK) after_insert(x, p, 0, 1, "push_front", false, true);
                finish(k, r, want, end_strong(), p, true, n + 1, a);
            }
            return;
        case POP_BACK:
        {
            if (n == 0) return;
            tag("pop_back\n"); ctx.mix(n);
            want.pop_back();
            Pre p = pre(x);
            Res r = attempt([&] { c.pop_back(); });
            if (r == R_OK) after_erase(x, p, n - 1, 1, "pop_back");
            finish(k, r, want, nt, p, false, 0, a);
            return;
        }
        case POP_FRONT:
            if constexpr (dev)
            {
                if (n == 0) return;
                tag("pop_front\n"); ctx.mix(n);
                want.erase(want.begin());
                Pre p = pre(x);
                Res r = attempt([&] { c.pop_front(); });
                if (r == R_OK) after_erase(x, p, 0, 1, "pop_front");
                finish(k, r, want, true, p, false, 0, a);
            }
            return;
        case INSERT: case INSERT_RV: case EMPLACE:
        {
            if (!need_room(1)) return;
            const std::size_t pos = a % (n + 1);
            const int v = newval(d);
            tag("insert/emplace"); ctx.log(" (pos %zu, %d) variant %d\n", pos, v, int(op)); ctx.mix(n * 64 + pos);
            want.insert(at(pos), v);
            Pre p = pre(x);
            Res r;
            std::size_t ret = pos;
            if (op == INSERT)
            {
                if constexpr (cp) { const T t(v); r = attempt([&] { ret = idx(c, c.insert(cnth(c, pos), t)); }); if (val(t) != v) ctx.fail(CONTENT, "insert modified its argument"); }
                else return;
            }
            else if (op == INSERT_RV) { T t(v); r = attempt([&] { ret = idx(c, c.insert(cnth(c, pos), std::move(t))); }); }
            else r = attempt([&] { ret = idx(c, c.emplace(cnth(c, pos), v)); });
            if (r == R_OK && ret != pos) ctx.fail(CONTENT, "insert/emplace at %zu returned an iterator to %zu", pos, ret);
            if (r == R_OK) after_insert(x, p, pos, 1, "insert", false, false);
            bool strong = pos == n && end_strong();
            if (r == R_FAULT && g.fired_kind == P_ALLOC) strong = true;
            finish(k, r, want, strong, p, true, n + 1, b);
            return;
        }
        case INSERT_N:
            if constexpr (cp)
            {
                const std::size_t pos = a % (n + 1);
                const std::size_t q = std::size_t(b) % (std::min<std::size_t>(room(x.m), 9 + size_limit / 3) + 1);
                const int v = newval(d);
                tag("insert"); ctx.log(" (pos %zu, n %zu, %d)\n", pos, q, v); ctx.mix((n * 64 + pos) * 64 + q);
                want.insert(at(pos), q, v);
                if (q > 1) multi_seen = true;
                Pre p = pre(x);
                std::size_t ret = pos;
                cat = RANGE;
                Res r;
                { const T t(v); r = attempt([&] { ret = idx(c, c.insert(cnth(c, pos), q, t)); }); }
                if (r == R_OK && ret != pos) ctx.fail(RANGE, "insert(pos, n, value) at %zu returned an iterator to %zu", pos, ret);
                if (r == R_OK) after_insert(x, p, pos, q, "insert(n)");
                finish(k, r, want, (r == R_FAULT && g.fired_kind == P_ALLOC && !seg), p, true, n + q, b);
            }
            return;
        case INSERT_RANGE:
        {
            const std::size_t pos = a % (n + 1);
            const std::size_t q = std::size_t(b) % (std::min<std::size_t>(room(x.m), 9 + size_limit / 3) + 1);
            const V vals = newvals(u32(q), d);
            tag("insert range"); ctx.log(" (pos %zu, n %zu, first %d, kind %u)\n", pos, q, q ? vals[0] : 0, e % NR); ctx.mix(((n * 64 + pos) * 64 + q) * 8 + e % NR);
            want.insert(at(pos), vals.begin(), vals.end());
            if (q > 1) multi_seen = true;
            Pre p = pre(x);
            std::size_t ret = pos;
            cat = RANGE;
            Res r = with_range(e, vals, [&](auto i1, auto i2) { ret = idx(c, c.insert(cnth(c, pos), i1, i2)); });
            if (r == R_OK && ret != pos) ctx.fail(RANGE, "insert(pos, first, last) at %zu returned an iterator to %zu", pos, ret);
            if (r == R_OK) after_insert(x, p, pos, q, "insert(range)");
            if (r == R_LEN && e % NR == 0) { resync(x); verify(k, b); return; } // input range: elements may have been inserted before the limit was hit
            finish(k, r, want, false, p, true, n + q, b);
            return;
        }
        case INSERT_IL:
            if constexpr (cp)
            {
                const std::size_t pos = a % (n + 1);
                const std::size_t q = il_size(b, room(x.m));
                const V vals = newvals(u32(q), d);
                tag("insert il"); ctx.log(" (pos %zu, n %zu)\n", pos, q); ctx.mix((n * 64 + pos) * 64 + q);
                want.insert(at(pos), vals.begin(), vals.end());
                Pre p = pre(x);
                std::size_t ret = pos;
                cat = RANGE;
                Res r = with_il(vals, [&](std::initializer_list<T> il) { ret = idx(c, c.insert(cnth(c, pos), il)); });
                if (r == R_OK && ret != pos) ctx.fail(RANGE, "insert(pos, ilist) at %zu returned an iterator to %zu", pos, ret);
                if (r == R_OK) after_insert(x, p, pos, q, "insert(ilist)");
                finish(k, r, want, false, p, true, n + q, b);
            }
            return;
        case ERASE1:
        {
            if (n == 0) return;
            const std::size_t pos = a % n;
            tag("erase"); ctx.log(" (pos %zu)\n", pos); ctx.mix(n * 64 + pos);
            want.erase(at(pos));
            Pre p = pre(x);
            std::size_t ret = pos;
            cat = ERASE;
            Res r = attempt([&] { ret = idx(c, c.erase(cnth(c, pos))); });
            if (r == R_OK && ret != pos) ctx.fail(ERASE, "erase(%zu) returned an iterator to %zu", pos, ret);
            if (r == R_OK) after_erase(x, p, pos, 1, "erase");
            finish(k, r, want, nt && !(fam == F_COMPACT), p, false, 0, b);
            return;
        }
        case ERASE_RANGE:
        {
            const std::size_t p1 = a % (n + 1), q = std::size_t(b) % (n - p1 + 1);
            tag("erase range"); ctx.log(" (pos %zu, n %zu)\n", p1, q); ctx.mix((n * 64 + p1) * 64 + q);
            want.erase(at(p1), at(p1 + q));
            Pre p = pre(x);
            std::size_t ret = p1;
            cat = ERASE;
            Res r = attempt([&] { ret = idx(c, c.erase(cnth(c, p1), cnth(c, p1 + q))); });
            if (r == R_OK && ret != p1) ctx.fail(ERASE, "erase(%zu, %zu) returned an iterator to %zu", p1, p1 + q, ret);
            if (r == R_OK) after_erase(x, p, p1, q, "erase range");
            finish(k, r, want, nt && !(fam == F_COMPACT), p, false, 0, b);
            return;
        }
        case RESIZE: case RESIZE_V: case RESIZE_FRONT: case RESIZE_FRONT_V: case RESIZE_BACK: case RESIZE_BACK_V:
        {
            const bool with_v = op == RESIZE_V || op == RESIZE_FRONT_V || op == RESIZE_BACK_V;
            const bool fr = op == RESIZE_FRONT || op == RESIZE_FRONT_V, bk = op == RESIZE_BACK || op == RESIZE_BACK_V;
            if ((fr || bk) && !dev) return;
            if (with_v && !cp) return;
            const std::size_t q = std::size_t(b) % (limit() + 1);
            const int v = with_v ? newval(d) : 0;
            tag(fr ? "resize_front" : bk ? "resize_back" : "resize"); ctx.log(" (%zu, %d)\n", q, v); ctx.mix((n * 64 + q) * 8 + unsigned(op));
            if (fr)
            {
                if (q <= n) want.erase(want.begin(), want.begin() + long(n - q));
                else want.insert(want.begin(), q - n, v);
            }
            else want.resize(q, v);
            Pre p = pre(x);
            Res r = R_OK;
            if constexpr (cp)
            {
                if (with_v)
                {
                    const T t(v);
                    if constexpr (dev)
                    {
                        if (fr) r = attempt([&] { c.resize_front(q, t); });
                        else if (bk) r = attempt([&] { c.resize_back(q, t); });
                        else r = attempt([&] { c.resize(q, t); });
                    }
                    else r = attempt([&] { c.resize(q, t); });
                }
            }
            if (!with_v)
            {
                if constexpr (dev)
                {
                    if (fr) r = attempt([&] { c.resize_front(q); });
                    else if (bk) r = attempt([&] { c.resize_back(q); });
                    else r = attempt([&] { c.resize(q); });
                }
                else r = attempt([&] { c.resize(q); });
            }
            if (r == R_OK && dev && !fr && !bk)
            {
                const V old = x.m;
                if (q > p.cap && g.alloc != p.allocs) realloc_seen = true;
                if (q > most(c)) ctx.fail(ERRS, "no length_error from resize");
                if (!resized_ok(x, old, q, v)) ctx.fail(CONTENT, "resize(%zu) of %zu elements: the result is not the old elements with new ones added at the ends", q, old.size());
                if (seg) { if (q > n) { /* references stay valid */ } }
                verify(k, a);
                return;
            }
            if (r == R_OK)
            {
                if (q > n)
                {
                    if (fr) after_insert(x, p, 0, q - n, "resize_front", false, true);
                    else after_insert(x, p, n, q - n, "resize", true, false);
                }
                else if (fr) after_erase(x, p, 0, n - q, "resize_front");
                else after_erase(x, p, q, n - q, "resize");
                check_storage(x, p, "resize");
            }
            finish(k, r, want, q <= n ? fam != F_COMPACT || nt || cp : append_strong(with_v) && (!dev || fr || bk), p, q > n, q, a);
            return;
        }
        case DEFAULT_INIT:
            if constexpr (is_static && tracked)
            {
                const std::size_t q = std::size_t(b) % (limit() + 1);
                tag("resize default_init"); ctx.log(" (%zu)\n", q);
                want.resize(q, 0);
                Pre p = pre(x);
                Res r = attempt([&] { c.resize(q, sfl::default_init_t{}); });
                finish(k, r, want, q <= n, p, false, 0, a);
            }
            return;
        case CLEAR:
        {
            tag("clear\n"); ctx.mix(n);
            Pre p = pre(x);
            Res r = attempt([&] { c.clear(); });
            want.clear();
            if (n) removed_seen = true;
            if (r == R_OK && fam != F_COMPACT && c.capacity() != p.cap) ctx.fail(CAP, "clear() changed the capacity from %zu to %zu", p.cap, std::size_t(c.capacity()));
            if (r == R_OK && g.alloc != p.allocs) ctx.fail(CAP, "clear() allocated memory");
            finish(k, r, want, true, p, false, 0, a);
            return;
        }
        case RESERVE:
            if constexpr (has_reserve)
            {
                const std::size_t q = std::size_t(b) % (size_limit * 2 + 2);
                tag("reserve"); ctx.log(" (%zu)\n", q); ctx.mix(n * 64 + q);
                Pre p = pre(x);
                Res r = attempt([&] { c.reserve(q); });
                if (r == R_OK)
                {
                    if (g.alloc != p.allocs) realloc_seen = true;
                    if (c.capacity() < q) ctx.fail(CAP, "capacity() is %zu after reserve(%zu)", std::size_t(c.capacity()), q);
                    if (q <= p.cap) no_realloc(x, p, "reserve");
                    else if (!seg && c.capacity() != q) ctx.fail(CAP, "reserve(%zu) made capacity() %zu", q, std::size_t(c.capacity()));
                    if (seg) same_objects(x, p, 0, n, 0, "reserve");
                }
                if (r == R_FAULT && (nt || cp)) strong_storage(x, p, "reserve");
                finish(k, r, want, nt || cp || seg, p, true, q, a);
            }
            return;
        case RESERVE_FRONT: case RESERVE_BACK:
            if constexpr (dev)
            {
                const std::size_t q = std::size_t(b) % (size_limit * 2 + 2);
                tag(op == RESERVE_FRONT ? "reserve_front" : "reserve_back"); ctx.log(" (%zu)\n", q); ctx.mix(n * 64 + q);
                Pre p = pre(x);
                Res r = attempt([&] { if (op == RESERVE_FRONT) c.reserve_front(q); else c.reserve_back(q); });
                if (r == R_OK)
                {
                    if (g.alloc != p.allocs) realloc_seen = true;
                    const std::size_t av = op == RESERVE_FRONT ? c.available_front() : c.available_back();
                    if (q > n && av < q - n) ctx.fail(CAP, "after reserve_front/back(%zu) with size %zu only %zu elements are available", q, n, av);
                    if (q <= n + (op == RESERVE_FRONT ? p.avf : p.avb)) no_realloc(x, p, "reserve_front/back");
                    if (seg) same_objects(x, p, 0, n, 0, "reserve_front/back");
                }
                if (r == R_FAULT && (nt || cp)) strong_storage(x, p, "reserve_front/back");
                if (r == R_LEN) { verify(k, a); return; } // the limit on front + back capacity is not specified exactly
                finish(k, r, want, nt || cp || seg, p, false, q, a);
            }
            return;
        case SHRINK:
            if constexpr (has_shrink)
            {
                tag("shrink_to_fit\n"); ctx.mix(n);
                Pre p = pre(x);
                Res r = attempt([&] { c.shrink_to_fit(); });
                if (r == R_OK)
                {
                    const std::size_t cap = c.capacity();
                    if (cap > p.cap) ctx.fail(CAP, "shrink_to_fit() increased the capacity from %zu to %zu", p.cap, cap);
                    if ((fam == F_VEC || fam == F_DEV) && cap != n) ctx.fail(CAP, "capacity() is %zu after shrink_to_fit() with size %zu", cap, n);
                    if (fam == F_SMALL && cap != std::max(N, n)) ctx.fail(CAP, "capacity() is %zu after shrink_to_fit() with size %zu and N %zu", cap, n, N);
                    if (fam == F_SEG && cap - n > N) ctx.fail(CAP, "shrink_to_fit() left %zu unused places with segments of %zu", cap - n, N);
                    if (fam == F_SEGDEV && cap - n > 2 * N) ctx.fail(CAP, "shrink_to_fit() left %zu unused places with segments of %zu", cap - n, N);
                    if (p.cap == cap && !seg) no_realloc(x, p, "shrink_to_fit");
                    if (seg) same_objects(x, p, 0, n, 0, "shrink_to_fit");
                    if (p.cap != cap) PBT_LABEL(ctx, "shrink_to_fit that shrank");
                }
                if (r == R_FAULT && (nt || cp) && !seg) strong_storage(x, p, "shrink_to_fit");
                finish(k, r, want, nt || cp || seg, p, false, 0, a);
            }
            return;
        case ASSIGN_N:
            if constexpr (cp)
            {
                const std::size_t q = std::size_t(b) % (limit() + 1);
                const int v = newval(d);
                tag("assign"); ctx.log(" (%zu, %d)\n", q, v); ctx.mix(n * 64 + q);
                want.assign(q, v);
                Pre p = pre(x);
                cat = RANGE;
                Res r;
                { const T t(v); r = attempt([&] { c.assign(q, t); }); }
                after_assign(x, p, q, r);
                finish(k, r, want, false, p, true, q, a);
            }
            return;
        case ASSIGN_RANGE:
        {
            const std::size_t q = std::size_t(b) % (limit() + 1);
            const V vals = newvals(u32(q), d);
            tag("assign range"); ctx.log(" (n %zu, first %d, kind %u)\n", q, q ? vals[0] : 0, e % NR); ctx.mix((n * 64 + q) * 8 + e % NR);
            want = vals;
            Pre p = pre(x);
            cat = RANGE;
            Res r = with_range(e, vals, [&](auto i1, auto i2) { c.assign(i1, i2); });
            after_assign(x, p, q, r);
            if (r == R_LEN && e % NR == 0) { resync(x); verify(k, a); return; }
            finish(k, r, want, false, p, true, q, a);
            return;
        }
        case ASSIGN_IL:
            if constexpr (cp)
            {
                const std::size_t q = il_size(b, limit());
                const V vals = newvals(u32(q), d);
                tag("assign il"); ctx.log(" (n %zu, op= %u)\n", q, e & 1); ctx.mix(n * 64 + q);
                want = vals;
                Pre p = pre(x);
                cat = RANGE;
                Res r = with_il(vals, [&](std::initializer_list<T> il) { if (e & 1) c = il; else c.assign(il); });
                after_assign(x, p, q, r);
                finish(k, r, want, false, p, true, q, a);
            }
            return;
        case COPY_ASSIGN:
            if constexpr (cp)
            {
                const int j = (k + 1 + int(b % (S - 1))) % S;
                Slot& y = s[j];
                tag("= copy of"); ctx.log(" [%d] (%zu <- %zu)\n", j, n, y.m.size()); ctx.mix(n * 64 + y.m.size());
                want = y.m;
                Pre p = pre(x);
                cat = COPY;
                const int aid0 = x.aid;
                Res r = attempt([&] { C& ret = (c = static_cast<const C&>(y.c())); if (&ret != &c) ctx.fail(COPY, "operator= does not return *this"); });
                if (props & POCCA) x.aid = y.aid;
                if (r != R_OK) x.aid = alloc_now(x, aid0, y.aid);
                if (n && y.m.size()) PBT_LABEL(ctx, "copy assignment between non-empty");
                if (tal && !same_alloc_ids(aid0, y.aid)) PBT_LABEL(ctx, "copy assignment with unequal allocators");
                check_contents(y, COPY, "source of copy assignment");
                if (r == R_OK) check_storage(x, p, "copy assignment");
                finish(k, r, want, false, p, true, want.size(), a);
            }
            return;
        case MOVE_ASSIGN:
        {
            const int j = (k + 1 + int(b % (S - 1))) % S;
            Slot& y = s[j];
            tag("= move of"); ctx.log(" [%d] (%zu <- %zu)\n", j, n, y.m.size()); ctx.mix(n * 64 + y.m.size());
            want = y.m;
            Pre p = pre(x), py = pre(y);
            cat = COPY;
            const int aid0 = x.aid;
            const bool eq = same_alloc(x, y);
            const bool steal = (eq || (props & POCMA)) && !is_static && !(fam == F_SMALL && !heap(y)) && !(seg && !eq);
            Res r = attempt([&] { C& ret = (c = std::move(y.c())); if (&ret != &c) ctx.fail(COPY, "operator= does not return *this"); });
            if (props & POCMA) x.aid = y.aid;
            if (r != R_OK) x.aid = alloc_now(x, aid0, y.aid);
            if (tal && !same_alloc_ids(aid0, y.aid)) PBT_LABEL(ctx, "move assignment with unequal allocators");
            if (r == R_OK && steal) taken_over(x, y, py, "move assignment");
            if (r == R_OK && !(fam == F_SMALL && steal)) check_storage(x, p, "move assignment");
            resync(y);
            finish(k, r, want, false, p, true, want.size(), a);
            check_alloc(y); check_capacity(y);
            return;
        }
        case SWAP:
        {
            const int j = (k + 1 + int(b % (S - 1))) % S;
            Slot& y = s[j];
            if (tal && !(props & POCS) && !same_alloc(x, y)) return;
            tag("swap with"); ctx.log(" [%d] (%zu, %zu)\n", j, n, y.m.size()); ctx.mix(n * 64 + y.m.size());
            Pre p = pre(x), py = pre(y);
            cat = COPY;
            const bool hx = heap(x), hy = heap(y);
            Res r = attempt([&] { if (e & 1) { using std::swap; swap(c, y.c()); } else c.swap(y.c()); });
            if (tal && (props & POCS)) { if (r == R_OK) std::swap(x.aid, y.aid); }
            if (tal && !same_alloc(x, y)) PBT_LABEL(ctx, "swap with unequal allocators");
            if (fam == F_SMALL && hx != hy) PBT_LABEL(ctx, "swap internal with heap");
            if (r == R_OK)
            {
                std::swap(x.m, y.m);
                if (hx && hy) { taken_over(x, y, py, "swap"); taken_over(y, x, p, "swap"); }
                check_contents(y, COPY, "second operand of swap");
                check_capacity(y); check_alloc(y);
                verify(k, a);
            }
            else
            {
                if (tal && (props & POCS)) { const int ax = x.aid, ay = y.aid; x.aid = alloc_now(x, ax, ay); y.aid = alloc_now(y, ax, ay); }
                resync(y);
                fault(k, false, p);
            }
            return;
        }
        case COPY_CTOR:
            if constexpr (cp)
            {
                const int j = (k + 1 + int(b % (S - 1))) % S;
                Slot& y = s[j];
                const bool with_a = tal && (e & 1);
                const int na = with_a ? pick_alloc(f) : ((props & SOCCC) ? y.aid + 1000 : y.aid);
                tag("copy-construct from"); ctx.log(" [%d] (%zu)\n", j, y.m.size()); ctx.mix(y.m.size() * 2 + with_a);
                if (tal && !same_alloc_ids(na, y.aid)) PBT_LABEL(ctx, "copy construction with another allocator");
                x.box.kill(); x.m.clear(); x.box.prepare();
                cat = COPY;
                const u64 al0 = g.alloc;
                Res r = attempt([&] {
                    if constexpr (tal) { if (with_a) { ::new (static_cast<void*>(x.box.mem)) C(static_cast<const C&>(y.c()), Al(na)); return; } }
                    ::new (static_cast<void*>(x.box.mem)) C(static_cast<const C&>(y.c()));
                });
                check_contents(y, COPY, "source of copy construction");
                ctor_done(k, r, y.m, na, al0, a);
            }
            return;
        case MOVE_CTOR:
        {
            const int j = (k + 1 + int(b % (S - 1))) % S;
            Slot& y = s[j];
            const bool with_a = tal && (e & 1);
            const int na = with_a ? pick_alloc(f) : y.aid;
            tag("move-construct from"); ctx.log(" [%d] (%zu)\n", j, y.m.size()); ctx.mix(y.m.size() * 2 + with_a);
            if (tal && !same_alloc_ids(na, y.aid)) PBT_LABEL(ctx, "move construction with another allocator");
            x.box.kill(); x.m.clear(); x.box.prepare();
            cat = COPY;
            const V src = y.m;
            Pre py = pre(y);
            const bool steal = (!tal || same_alloc_ids(na, y.aid)) && !is_static && !(fam == F_SMALL && !heap(y));
            const u64 al0 = g.alloc;
            Res r = attempt([&] {
                if constexpr (tal) { if (with_a) { ::new (static_cast<void*>(x.box.mem)) C(std::move(y.c()), Al(na)); return; } }
                ::new (static_cast<void*>(x.box.mem)) C(std::move(y.c()));
            });
            if (r == R_OK) { x.box.alive = true; x.aid = na; if (steal) taken_over(x, y, py, "move construction"); if (seg && steal && y.c().size() != 0) ctx.fail(COPY, "moved-from segmented container is not empty after move construction"); }
            resync(y);
            ctor_done(k, r, src, na, al0, a);
            check_alloc(y); check_capacity(y);
            return;
        }
        case CTOR: construct(k, row); return;
        case ERASE_VAL:
        {
            if (n == 0) return;
            const int v = x.m[a % n];
            tag("erase value"); ctx.log(" (%d)\n", v); ctx.mix(n * 64 + a % n);
            const std::size_t cnt = std::size_t(std::count(want.begin(), want.end(), v));
            want.erase(std::remove(want.begin(), want.end(), v), want.end());
            Pre p = pre(x);
            cat = ERASE;
            std::size_t ret = 0;
            const Src sv{v};
            Res r = attempt([&] { if constexpr (std::is_same<T, int>::value) ret = std::size_t(erase(c, v)); else ret = std::size_t(erase(c, sv)); });
            if (r == R_OK && ret != cnt) ctx.fail(ERASE, "erase(c, value) returned %zu, removed should be %zu", ret, cnt);
            if (cnt) removed_seen = true;
            finish(k, r, want, false, p, false, 0, b);
            return;
        }
        case ERASE_IF:
        {
            const int mod = 2 + int(a % 3), rem = int(b % 3);
            tag("erase_if"); ctx.log(" (v %% %d == %d)\n", mod, rem); ctx.mix(n * 64 + mod * 8 + rem);
            auto pred = [=](const T& t) { point(P_PRED); return val(t) % mod == rem; };
            V w; std::size_t cnt = 0;
            for (int v : x.m) if (v % mod == rem) ++cnt; else w.push_back(v);
            want = w;
            Pre p = pre(x);
            const u64 np = g.n[P_PRED];
            cat = ERASE;
            std::size_t ret = 0;
            Res r = attempt([&] { ret = std::size_t(erase_if(c, pred)); });
            if (r == R_OK && ret != cnt) ctx.fail(ERASE, "erase_if returned %zu, should be %zu", ret, cnt);
            if (r == R_OK && g.n[P_PRED] - np != n) ctx.fail(ERASE, "erase_if applied the predicate %llu times to %zu elements", (unsigned long long)(g.n[P_PRED] - np), n);
            if (cnt) removed_seen = true;
            finish(k, r, want, false, p, false, 0, b);
            return;
        }
        case WRITE:
        {
            if (n == 0) return;
            const std::size_t i = a % n;
            const int v = newval(d);
            tag("write"); ctx.log(" (pos %zu, %d)\n", i, v); ctx.mix(n * 64 + i);
            want[i] = v;
            Pre p = pre(x);
            Res r = attempt([&] {
                switch (e % 4)
                {
                case 0: c[i] = T(v); break;
                case 1: *(c.begin() + std::ptrdiff_t(i)) = T(v); break;
                case 2: c.at(i) = T(v); break;
                default: *(c.rbegin() + std::ptrdiff_t(n - 1 - i)) = T(v); break;
                }
            });
            if (r == R_FAULT) { resync(x); check_live(); return; }
            finish(k, r, want, false, p, false, 0, b);
            return;
        }
        case AT:
        {
            static const std::size_t off[] = {0, 1, 7, 1000, std::size_t(-1) / 2};
            std::size_t i = n + off[a % 5];
            if (a % 7 == 6) i = std::size_t(-1);
            tag("at"); ctx.log(" (%zu)\n", i); ctx.mix(n * 8 + a % 7);
            const C& cc = c;
            cat = ERRS;
            for (int q = 0; q < 2; ++q)
            {
                bool thrown = false;
                try { if (q) (void)val(cc.at(i)); else (void)val(c.at(i)); }
                catch (const std::out_of_range&) { thrown = true; }
                if (!thrown) ctx.fail(ERRS, "at(%zu) on %zu elements did not throw out_of_range", i, n);
            }
            for (std::size_t q = 0; q < n; ++q)
            {
                try { if (val(c.at(q)) != x.m[q] || &cc.at(q) != &cc[q]) ctx.fail(ERRS, "at(%zu) is not element %zu", q, q); }
                catch (const std::out_of_range&) { ctx.fail(ERRS, "at(%zu) on %zu elements threw out_of_range", q, n); }
            }
            PBT_LABEL(ctx, "at out of range");
            verify(k, b);
            return;
        }
        case LENGTH: length_errors(k, row); return;
        case COMPARE:
        {
            const int j = int(b % S);
            Slot& y = s[j];
            if (e % 3 == 0 && j != k && cp) near_copy(k, j, row); // make them nearly equal first
            tag("compare with"); ctx.log(" [%d]\n", j); ctx.mix(x.m.size() * 64 + y.m.size());
            compare(x, y);
            return;
        }
        case ITERS: tag("iterator algebra\n"); ctx.mix(n); iterators(x, row); return;
        case LAYOUT: layout(k, b, d, e, a); return;
        case BULK:
        {
            if (is_static) return;
            const std::size_t q = std::min<std::size_t>(room(x.m), size_limit / 2);
            if (!q) return;
            tag("bulk push"); ctx.log(" (%zu, %u)\n", q, e & 1); ctx.mix(n * 64 + q);
            Pre p = pre(x);
            Res r = R_OK;
            V w = x.m;
            const int base = next_val;
            next_val += int(q);
            r = attempt([&] {
                for (std::size_t i = 0; i < q; ++i)
                {
                    const int v = base + int(i);
                    if constexpr (dev) { if (e & 1) { c.emplace_front(v); w.insert(w.begin(), v); continue; } }
                    c.emplace_back(v); w.push_back(v);
                }
            });
            if (r == R_LEN || r == R_FAULT) x.m = w;
            if (r == R_OK && g.alloc != p.allocs) realloc_seen = true;
            finish(k, r, w, end_strong(), p, true, r == R_LEN ? w.size() + 1 : w.size(), a);
            return;
        }
        case SELF_ASSIGN:
            if (e % 4 == 1 || e % 4 == 2)
            {
                tag("self swap\n"); ctx.mix(n * 4 + e % 4);
                Pre p = pre(x);
                cat = COPY;
                const bool h = heap(x);
                Res r = attempt([&] { if (e % 4 == 1) c.swap(c); else { using std::swap; swap(c, c); } });
                if (r == R_OK && h) taken_over(x, x, p, "self swap");
                finish(k, r, want, false, p, false, 0, a);
                return;
            }
            if (e % 4 == 3)
            {
                // any value, but a valid one
                tag("self move assignment\n"); ctx.mix(n * 4 + 3);
                cat = COPY;
                Pre p = pre(x);
                Res r = attempt([&] { C& cc = c; c = std::move(cc); });
                if (r == R_OK) { resync(x); check_alloc(x); check_capacity(x); verify(k, a); }
                else fault(k, false, p);
                return;
            }
            if constexpr (cp)
            {
                tag("self copy assignment\n"); ctx.mix(n);
                Pre p = pre(x);
                cat = COPY;
                Res r = attempt([&] { const C& cc = c; c = cc; });
                finish(k, r, want, false, p, false, 0, a);
            }
            return;
        case ALIAS_PUSH: case ALIAS_PUSH_FRONT:
        {
            if (n == 0 || !need_room(1)) return;
            if (op == ALIAS_PUSH_FRONT && !dev) return;
            const std::size_t i = a % n;
            const bool fr = op == ALIAS_PUSH_FRONT;
            tag(fr ? "push_front own element" : "push_back own element"); ctx.log(" (%zu, kind %u, cap %zu)\n", i, e % 4, std::size_t(c.capacity())); ctx.mix((n * 64 + i) * 4 + e % 4);
            Pre p = pre(x);
            cat = ALIAS;
            Res r = R_OK;
            bool rv = false;
            const int v = x.m[i];
            auto moved = [&](const V& w0) { V w = w0; if (fr) w.insert(w.begin(), v); else w.push_back(v); return w; };
            if (peek && e % 8 == 7)
            {
                if constexpr (peek) { if (!fr) r = attempt([&] { c.emplace_back(Peek<T>{&c[i], 0}); }); else if constexpr (dev) r = attempt([&] { c.emplace_front(Peek<T>{&c[i], 0}); }); }
            }
            else if constexpr (cp)
            {
                if (!fr)
                {
                    if (e % 4 == 0) r = attempt([&] { c.push_back(c[i]); });
                    else if (e % 4 == 1) r = attempt([&] { c.emplace_back(c[i]); });
                    else if (e % 4 == 2) r = attempt([&] { c.emplace_back(static_cast<const C&>(c)[i]); });
                    else rv = true;
                }
                else if constexpr (dev)
                {
                    if (e % 4 == 0) r = attempt([&] { c.push_front(c[i]); });
                    else if (e % 4 == 1) r = attempt([&] { c.emplace_front(c[i]); });
                    else if (e % 4 == 2) r = attempt([&] { c.emplace_front(static_cast<const C&>(c)[i]); });
                    else rv = true;
                }
            }
            else rv = true;
            if (rv)
            {
                // emplace(std::move(own element)): the new element takes the value, the old one is moved from
                if (!fr) r = attempt([&] { c.emplace_back(std::move(c[i])); });
                else if constexpr (dev) r = attempt([&] { c.emplace_front(std::move(c[i])); });
                if (tracked && !std::is_same<T, CopyOnly>::value) { want[i] = MOVED; }
            }
            want = moved(want);
            if (r == R_LEN && rv) { resync(x); verify(k, b); return; } // the value may have been taken already
            if (r == R_OK && g.alloc != p.allocs) { realloc_seen = true; PBT_LABEL(ctx, "aliasing argument with reallocation"); }
            if (r == R_OK) PBT_LABEL(ctx, "aliasing argument");
            finish(k, r, want, end_strong() && !rv, p, true, n + 1, b);
            return;
        }
        case ALIAS_INSERT: case ALIAS_EMPLACE: case ALIAS_INSERT_N:
            if constexpr (cp)
            {
                if (n == 0 || !need_room(1)) return;
                const std::size_t i = a % n, pos = b % (n + 1);
                const std::size_t q = op == ALIAS_INSERT_N ? 1 + d % std::min<std::size_t>(room(x.m), 7) : 1;
                tag("insert/emplace own element"); ctx.log(" (element %zu, pos %zu, n %zu, cap %zu) variant %d\n", i, pos, q, std::size_t(c.capacity()), int(op)); ctx.mix(((n * 64 + i) * 64 + pos) * 8 + q);
                const int add = op == ALIAS_EMPLACE && peek && (e & 1) ? int(e / 2 % 3) : -1; // a view of the element
                want.insert(at(pos), q, x.m[i] + (add > 0 ? add : 0));
                Pre p = pre(x);
                cat = ALIAS;
                Res r = R_OK;
                if (op == ALIAS_INSERT) r = attempt([&] { c.insert(cnth(c, pos), c[i]); });
                else if (op == ALIAS_EMPLACE && add >= 0) { if constexpr (peek) r = attempt([&] { c.emplace(cnth(c, pos), Peek<T>{&c[i], add}); }); else return; }
                else if (op == ALIAS_EMPLACE) r = attempt([&] { c.emplace(cnth(c, pos), static_cast<const C&>(c)[i]); });
                else r = attempt([&] { c.insert(cnth(c, pos), q, c[i]); });
                if (r == R_OK && g.alloc != p.allocs) { realloc_seen = true; PBT_LABEL(ctx, "aliasing argument with reallocation"); }
                if (pos < n) mid_seen = true;
                PBT_LABEL(ctx, "aliasing argument");
                finish(k, r, want, false, p, true, n + q, b);
            }
            return;
        case ALIAS_RESIZE: case ALIAS_RESIZE_FB:
            if constexpr (cp)
            {
                if (n == 0 || !room(x.m)) return;
                const bool fb = op == ALIAS_RESIZE_FB;
                if (fb && !dev) return;
                const std::size_t i = a % n, q = n + 1 + b % room(x.m);
                const bool fr = fb && (e & 1);
                tag("resize with own element"); ctx.log(" (element %zu, n %zu, cap %zu, %s)\n", i, q, std::size_t(c.capacity()), !fb ? "resize" : fr ? "resize_front" : "resize_back"); ctx.mix((n * 64 + i) * 64 + q);
                const int v = x.m[i];
                if (fr) want.insert(want.begin(), q - n, v); else want.resize(q, v);
                Pre p = pre(x);
                cat = ALIAS;
                Res r = R_OK;
                if constexpr (dev)
                {
                    if (fr) r = attempt([&] { c.resize_front(q, c[i]); });
                    else if (fb) r = attempt([&] { c.resize_back(q, c[i]); });
                    else r = attempt([&] { c.resize(q, c[i]); });
                    if (r == R_OK && !fb)
                    {
                        const V old = x.m;
                        if (q > most(c)) ctx.fail(ERRS, "no length_error from resize");
                        if (!resized_ok(x, old, q, v)) ctx.fail(ALIAS, "resize(%zu, own element): the result is not the old elements with new ones added at the ends", q);
                        verify(k, b);
                        return;
                    }
                }
                else r = attempt([&] { c.resize(q, c[i]); });
                if (r == R_OK && g.alloc != p.allocs) { realloc_seen = true; PBT_LABEL(ctx, "aliasing argument with reallocation"); }
                PBT_LABEL(ctx, "aliasing argument");
                finish(k, r, want, false, p, true, q, b);
            }
            return;
        default: return;
        }
    }

    bool same_alloc_ids(int a, int b) const { return eff(a) == eff(b); }
    int pick_alloc(u32 r) { return tal ? 1 + int(r % 3) : 0; }
    // After a failed assignment the allocator may or may not have been propagated already.
    int alloc_now(Slot& x, int before, int other)
    {
        if constexpr (tal)
        {
            const int id = x.c().get_allocator().id;
            if (eff(id) != eff(before) && eff(id) != eff(other)) ctx.fail(ALLOC, "after a failed assignment get_allocator() is neither the old nor the new allocator");
            return id;
        }
        else return before + 0 * other + 0 * int(x.m.size());
    }
    // x now holds what y held: the elements must be the same objects (constant-time transfer).
    void taken_over(Slot& x, Slot&, const Pre& py, const char* what)
    {
        C& c = x.c();
        if (c.size() != py.refs.size()) ctx.fail(COPY, "%s: size() is %zu, expected %zu", what, std::size_t(c.size()), py.refs.size());
        std::size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
            if (static_cast<const void*>(&*it) != py.refs[i].first) ctx.fail(REF, "%s: elements were relocated although the storage can be taken over", what);
        if (!py.refs.empty()) PBT_LABEL(ctx, "storage taken over");
    }
    void after_assign(Slot& x, const Pre& p, std::size_t q, Res r)
    {
        if (r != R_OK) return;
        if (g.alloc != p.allocs) realloc_seen = true;
        if constexpr (fam == F_VEC || fam == F_SMALL || fam == F_STATIC) { if (q <= p.cap) no_realloc(x, p, "assign"); }
        check_storage(x, p, "assign");
    }
    void strong_storage(Slot& x, const Pre& p, const char* what)
    {
        if constexpr (seg) { (void)x; (void)p; (void)what; return; }
        else
        {
            C& c = x.c();
            if (c.capacity() != p.cap) ctx.fail(STRONG, "%s failed by exception but changed the capacity from %zu to %zu", what, p.cap, std::size_t(c.capacity()));
            if (static_cast<const void*>(c.data()) != p.data) ctx.fail(STRONG, "%s failed by exception but changed the storage", what);
        }
    }
    void ctor_done(int k, Res r, const V& want, int na, u64 al0, u32 rnd)
    {
        Slot& x = s[k];
        if (r == R_OK)
        {
            x.box.alive = true; x.aid = na; x.m = want;
            if (fam == F_SMALL && want.size() <= N && x.c().capacity() <= N && g.alloc != al0) ctx.fail(CAP, "construction of %zu elements allocated memory although N is %zu", want.size(), N);
            if (is_static && (g.alloc != al0 || news_delta)) ctx.fail(CAP, "construction of a static container allocated memory");
            verify(k, rnd);
            return;
        }
        if (r == R_LEN)
        {
            std::size_t mx = std::size_t(-1);
            if constexpr (has_alloc) mx = maxsz ? maxsz : mx;
            if ((fam == F_DEV ? want.size() * 3 : want.size()) <= mx) ctx.fail(ERRS, "length_error from construction of %zu elements", want.size());
            PBT_LABEL(ctx, "length_error");
        }
        if (r == R_FAULT) { PBT_LABEL(ctx, "fault fired"); PBT_LABEL(ctx, "fault in constructor"); ctx.nontrivial = true; }
        x.box.alive = false;
        x.box.check();
        check_live();
        // make it usable again
        x.box.prepare();
        fresh(k, na);
        cat = COPY;
        verify(k, rnd);
    }
    void fresh(int k, int na)
    {
        Slot& x = s[k];
        x.m.clear();
        if constexpr (tal) ::new (static_cast<void*>(x.box.mem)) C(Al(na)); else ::new (static_cast<void*>(x.box.mem)) C();
        x.box.alive = true; x.aid = tal ? na : 0;
    }
    void construct(int k, const Row& row)
    {
        const u32 a = row.c[2], b = row.c[3], d = row.c[4], e = row.c[5], f = row.c[6];
        Slot& x = s[k];
        const int na = pick_alloc(f);
        const bool dflt_alloc = (row.c[7] % 3) == 0;
        const int aid = tal ? (dflt_alloc ? g.default_alloc_id : na) : 0;
        u32 kind = a % 6;
        if (!cp && (kind == 2 || kind == 4)) kind = 3;
        std::size_t q = std::size_t(b) % (limit() + 1);
        if (kind == 4) q = il_size(b, limit());
        if (kind == 5 && !(is_static && tracked)) kind = 1;
        V want;
        int v = 0;
        if (kind == 1 || kind == 5) want.assign(q, 0);
        if (kind == 2) { v = newval(d); want.assign(q, v); }
        if (kind == 3 || kind == 4) want = newvals(u32(q), d);
        static const char* const names[] = {"()", "(n)", "(n, value)", "(first, last)", "(ilist)", "(n, default_init)"};
        ctx.log("  [%d] construct %s n %zu kind %u alloc %d\n", k, names[kind], want.size(), e % NR, aid);
        ctx.mix((u64(kind) * 64 + q) * 8 + e % NR); ++applied;
        x.box.kill(); x.m.clear(); x.box.prepare();
        void* mem = x.box.mem;
        const u64 al0 = g.alloc;
        cat = RANGE;
        Res r = R_OK;
        auto mkc = [&](auto&&... args)
        {
            if constexpr (tal) { if (!dflt_alloc) { ::new (mem) C(std::forward<decltype(args)>(args)..., Al(na)); return; } }
            ::new (mem) C(std::forward<decltype(args)>(args)...);
        };
        using SZ = typename C::size_type;
        switch (kind)
        {
        case 0: cat = CONTENT; r = attempt([&] { mkc(); }); break;
        case 1: cat = CONTENT; r = attempt([&] { mkc(SZ(q)); }); break;
        case 2: if constexpr (cp) { cat = CONTENT; const T t(v); r = attempt([&] { mkc(SZ(q), t); }); } break;
        case 3: r = with_range(e, want, [&](auto i1, auto i2) { mkc(i1, i2); }); break;
        case 4: r = with_il(want, [&](std::initializer_list<T> il) { if constexpr (cp) mkc(il); }); break;
        case 5: if constexpr (is_static && tracked) r = attempt([&] { ::new (mem) C(SZ(q), sfl::default_init_t{}); }); break;
        }
        ctor_done(k, r, want, aid, al0, d);
    }
    void near_copy(int k, int j, const Row& row)
    {
        Slot& x = s[k]; Slot& y = s[j];
        if constexpr (cp)
        {
            V m = y.m;
            if (!m.empty())
            {
                const u32 h = row.c[6];
                if (h % 4 == 1) m[h / 4 % m.size()] += 1;
                if (h % 4 == 2) m.pop_back();
            }
            std::vector<T> arr; arr.reserve(m.size() + 1);
            for (int v : m) arr.emplace_back(v);
            cat = RANGE;
            if (maxsz && m.size() > x.c().max_size()) return;
            x.c().assign(static_cast<const T*>(arr.data()), static_cast<const T*>(arr.data() + arr.size()));
            x.m = m;
        }
    }
    void compare(Slot& x, Slot& y)
    {
        const C& p = x.c(); const C& q = y.c();
        cat = CMP;
        bool r[6] = {};
        Res res = attempt([&] { r[0] = p == q; r[1] = p != q; r[2] = p < q; r[3] = p <= q; r[4] = p > q; r[5] = p >= q; });
        if (res == R_FAULT) { verify(-1, 0); return; }
        const bool w[6] = {x.m == y.m, x.m != y.m, x.m < y.m, x.m <= y.m, x.m > y.m, x.m >= y.m};
        static const char* const nm[] = {"==", "!=", "<", "<=", ">", ">="};
        for (int i = 0; i < 6; ++i) if (r[i] != w[i]) ctx.fail(CMP, "operator%s is %d on sequences of %zu and %zu elements, the model says %d", nm[i], r[i], x.m.size(), y.m.size(), w[i]);
        if (x.m == y.m && !x.m.empty() && &x != &y) PBT_LABEL(ctx, "compared equal non-empty");
        else if (x.m.size() == y.m.size() && !x.m.empty()) PBT_LABEL(ctx, "compared unequal of same size");
        ctx.nontrivial = ctx.nontrivial || (!x.m.empty() && !y.m.empty() && &x != &y);
        verify(-1, 0);
    }
    void iterators(Slot& x, const Row& row)
    {
        C& c = x.c(); const C& cc = c;
        const std::ptrdiff_t n = std::ptrdiff_t(x.m.size());
        const std::ptrdiff_t i = std::ptrdiff_t(row.c[2] % u32(n + 1)), j = std::ptrdiff_t(row.c[3] % u32(n + 1));
        using It1 = typename C::iterator; using It2 = typename C::const_iterator;
#define ITCHK(cond) do { if (!(cond)) ctx.fail(ITER, "iterator law broken: %s (i=%td, j=%td, n=%td)", #cond, i, j, n); } while (0)
        It1 b = c.begin(), e = c.end(), ii = b + i, jj = b + j;
        It2 cb = cc.begin(), ce = c.cend(), ci = ii, cj = cc.nth(std::size_t(j));
        ITCHK(e - b == n); ITCHK(b + n == e); ITCHK(e - n == b); ITCHK(ce - cb == n); ITCHK(c.cbegin() == cb);
        ITCHK(jj - ii == j - i); ITCHK(ii + (j - i) == jj); ITCHK(jj - (j - i) == ii); ITCHK((j - i) + ii == jj);
        ITCHK((ii == jj) == (i == j)); ITCHK((ii != jj) == (i != j)); ITCHK((ii < jj) == (i < j)); ITCHK((ii <= jj) == (i <= j)); ITCHK((ii > jj) == (i > j)); ITCHK((ii >= jj) == (i >= j));
        ITCHK((ci == cj) == (i == j)); ITCHK((ci < cj) == (i < j)); ITCHK(ii == ci); ITCHK(ci == ii); ITCHK((ii < cj) == (i < j)); ITCHK((ci < jj) == (i < j)); ITCHK((ci >= jj) == (i >= j)); ITCHK(cj - ii == j - i); ITCHK(jj - ci == j - i); ITCHK((ii != cj) == (i != j)); ITCHK((ci > jj) == (i > j)); ITCHK((ii <= cj) == (i <= j));
        { It1 t = ii; t += (j - i); ITCHK(t == jj); t -= (j - i); ITCHK(t == ii); It1& r = (t += 0); ITCHK(&r == &t); }
        { It2 t = ci; t += (j - i); ITCHK(t == cj); t -= (j - i); ITCHK(t == ci); }
        ITCHK(std::ptrdiff_t(c.index_of(ii)) == i); ITCHK(c.nth(std::size_t(i)) == ii); ITCHK(cc.nth(std::size_t(j)) == cj);
        if (i < n)
        {
            ITCHK(val(*ii) == x.m[std::size_t(i)]); ITCHK(val(*ci) == x.m[std::size_t(i)]); ITCHK(ii.operator->() == &*ii); ITCHK(&*ii == &c[std::size_t(i)]);
            It1 t = ii; It1 o = t++; ITCHK(o == ii); ITCHK(t == b + (i + 1)); ITCHK(t - ii == 1); o = t--; ITCHK(o == b + (i + 1)); ITCHK(t == ii);
            ITCHK(&++t == &t); ITCHK(&--t == &t); ITCHK(t == ii);
            It2 u = ci; u++; ITCHK(u == cb + (i + 1)); --u; ITCHK(u == ci);
        }
        if (j < n) { ITCHK(val(ii[j - i]) == x.m[std::size_t(j)]); ITCHK(val(ci[j - i]) == x.m[std::size_t(j)]); ITCHK(&b[j] == &*jj); }
        { It1 t = b; std::ptrdiff_t q = 0; for (; t != e; ++t, ++q) { ITCHK(q < n); ITCHK(t == b + q); ITCHK(e - t == n - q); } ITCHK(q == n);
          for (; t != b; ) { --t; --q; ITCHK(t == b + q); ITCHK(&*t == &c[std::size_t(q)]); } ITCHK(q == 0); }
        { std::ptrdiff_t q = n; for (auto r = c.rbegin(); r != c.rend(); ++r) { --q; ITCHK(q >= 0); ITCHK(val(*r) == x.m[std::size_t(q)]); } ITCHK(q == 0); ITCHK(c.rend() - c.rbegin() == n); ITCHK(c.crend() - c.crbegin() == n); ITCHK(cc.rbegin() == c.crbegin()); ITCHK(c.rbegin().base() == c.end()); }
        { It1 d; d = ii; ITCHK(d == ii); It2 d2; d2 = ii; ITCHK(d2 == ci); It1 cpy(ii); using std::swap; swap(cpy, jj); ITCHK(cpy - b == j); ITCHK(jj - b == i); }
        {
            // value-initialized iterators: the end of one and the same empty range
            It1 z1 = It1(), z2 = It1(); It2 z3 = It2(), z4 = z1;
            ITCHK(z1 == z2); ITCHK(!(z1 != z2)); ITCHK(!(z1 < z2)); ITCHK(z1 <= z2); ITCHK(!(z1 > z2)); ITCHK(z1 >= z2); ITCHK(z1 - z2 == 0); ITCHK(z1 + 0 == z2); ITCHK(z1 - 0 == z2); ITCHK((z1 += 0) == z2);
            ITCHK(z3 == z4); ITCHK(z3 == z1); ITCHK(z4 - z3 == 0); ITCHK(z3 - z1 == 0); ITCHK(std::distance(z3, z4) == 0); ITCHK(std::next(z3, 0) == z4);
            if constexpr (cp) if (row.c[5] % 4 == 2)
            {
                { C d(z1, z2); ITCHK(d.empty()); d.assign(z3, z4); ITCHK(d.empty()); d.insert(d.cend(), z3, z4); ITCHK(d.empty()); }
                It1 r = c.insert(ci, z3, z4); ITCHK(r - c.begin() == i); check_contents(x, ITER, "insert of an empty range");
            }
        }
        // algorithms
        if (row.c[5] % 4 == 0)
        {
            ITCHK(std::distance(b, e) == n); ITCHK(std::next(b, n) == e);
            const std::ptrdiff_t mid = i;
            if constexpr (!std::is_same<T, CopyOnly>::value)
            {
                std::rotate(c.begin(), c.begin() + mid, c.end()); std::rotate(x.m.begin(), x.m.begin() + mid, x.m.end());
                cat = ITER; check_contents(x, ITER, "std::rotate");
                std::reverse(c.begin(), c.end()); std::reverse(x.m.begin(), x.m.end());
                check_contents(x, ITER, "std::reverse");
                std::sort(c.begin(), c.end()); std::sort(x.m.begin(), x.m.end());
                check_contents(x, ITER, "std::sort");
                const bool found = std::binary_search(c.begin(), c.end(), Src{1}, [](const auto& p, const auto& q) { return val(p) < val(q); });
                ITCHK(found == std::binary_search(x.m.begin(), x.m.end(), 1));
            }
        }
        // range transfer with the library's own iterators as source (copy into another container)
        if constexpr (cp) if (row.c[5] % 4 == 1 && !is_static && !maxsz)
        {
            const std::ptrdiff_t lo = std::min(i, j), hi = std::max(i, j);
            Slot& y = s[(row.c[1] + 1) % S];
            y.c().assign(b + lo, b + hi);
            y.m.assign(x.m.begin() + lo, x.m.begin() + hi);
            cat = ITER; check_contents(y, ITER, "assign from the iterators of another container");
            y.c().insert(y.c().cbegin() + (hi - lo) / 2, cb + lo, cb + hi);
            y.m.insert(y.m.begin() + (hi - lo) / 2, x.m.begin() + lo, x.m.begin() + hi);
            check_contents(y, ITER, "insert from the iterators of another container");
            if (y.m.size() > size_limit * 2) { y.c().clear(); y.m.clear(); }
        }
#undef ITCHK
        if (n > 1) { ctx.nontrivial = true; PBT_LABEL(ctx, "iterator algebra on >1 elements"); }
        verify(int(row.c[1] % S), row.c[6]);
    }
    void length_errors(int k, const Row& row)
    {
        if constexpr (has_alloc && tal)
        {
            Slot& x = s[k];
            C& c = x.c();
            const std::size_t n = x.m.size();
            const std::size_t mx = c.max_size();
            static const std::size_t off[] = {1, 2, 100};
            std::size_t q = row.c[3] % 4 == 3 ? std::size_t(-1) : mx + off[row.c[3] % 3];
            if (row.c[3] % 8 == 6) q = std::size_t(-1) - n + (row.c[4] % 3);
            if (q <= mx) q = mx + 1;
            if (seg && q <= c.capacity()) q = c.capacity() + 1; // there is room in the last segment
            // mx may be close to PTRDIFF_MAX: the request is refused before anything is allocated.
            u32 kind = row.c[2] % 8;
            ctx.log("  [%d] request of %zu elements, max_size %zu, kind %u\n", k, q, mx, kind);
            ctx.mix(kind * 8 + row.c[3] % 8); ++applied;
            cat = ERRS;
            const std::size_t pos = n ? row.c[4] % (n + 1) : 0;
            Pre p = pre(x);
            bool thrown = false;
            try
            {
                using SZ = typename C::size_type;
                switch (kind)
                {
                case 0: c.resize(q); break;
                case 1: if constexpr (cp) { const T t(1); c.resize(q, t); } else thrown = true; break;
                case 2: if constexpr (cp) { const T t(1); c.assign(q, t); } else thrown = true; break;
                case 3: if constexpr (cp) { const T t(1); if (q > std::size_t(-1) - n) q = std::size_t(-1) - n; if (q <= mx) { thrown = true; break; } c.insert(cnth(c, pos), q, t); } else thrown = true; break;
                case 4: if constexpr (has_reserve) c.reserve(q); else thrown = true; break;
                case 5: { C z(SZ(q), Al(x.aid)); (void)z; } break;
                case 6: if constexpr (cp) { const T t(1); C z(SZ(q), t, Al(x.aid)); } else thrown = true; break;
                default:
                    if constexpr (dev) { if (row.c[4] & 1) c.reserve_front(q); else c.reserve_back(q); }
                    else thrown = true;
                }
            }
            catch (const std::length_error&) { thrown = true; PBT_LABEL(ctx, "length_error"); }
            catch (const std::bad_alloc&) { ctx.fail(ERRS, "bad_alloc instead of length_error for a request of %zu with max_size() %zu", q, mx); }
            if (!thrown) ctx.fail(ERRS, "no length_error for a request of %zu elements with max_size() %zu", q, mx);
            strong_storage_err(x, p);
            verify(k, row.c[5]);
        }
        else (void)k, (void)row;
    }
    void strong_storage_err(Slot& x, const Pre& p)
    {
        if (x.c().capacity() != p.cap) ctx.fail(ERRS, "a refused request changed the capacity");
    }

    // ---- whole case -----------------------------------------------------------------
    void run()
    {
        g.reset();
        const Row r0 = cs.rows.empty() ? Row{} : cs.rows[0];
        static const u32 lims[] = {6, 12, 24, 48, 100, 16, 9, 33};
        size_limit = lims[r0.c[1] % 8];
        unique_vals = (r0.c[2] % 3) != 0;
        static const unsigned char fills[] = {0x00, 0xA5, 0xFF};
        g.fill = fills[r0.c[3] % 3];
        g.default_alloc_id = tal ? int(r0.c[4] % 3) : 0;
        // Elements in the internal storage of a small container may change their allocator by swap.
        g.relax_cons = fam == F_SMALL && (props & (POCS | POCMA));
        // Row 0 may restrict the history to a subset of the operations (swarm testing).
        u64 keep = ~0ull;
        if (r0.c[5] % 2)
        {
            Rng rr(r0.c[5]);
            keep = rr.next() | rr.next();
        }
        if (tal && ctx.profile == PR_ERR && r0.c[6] % 2) { static const std::size_t mxs[] = {5, 20, 50, 2}; maxsz = mxs[r0.c[6] / 2 % 4]; }
        ctx.log("config: size limit %u, %s values, fill 0x%02x, allocator max_size %zu\n", size_limit, unique_vals ? "unique" : "repeating", g.fill, maxsz);
        ctx.mix(size_limit * 2 + unique_vals);
        if (seg && maxsz && maxsz < N) maxsz = N;
        if (maxsz) g.alloc_max = maxsz;
        const bool eqal = r0.c[7] % 2;
        for (int i = 0; i < S; ++i)
        {
            s[i].box.prepare();
            if constexpr (tal) ::new (static_cast<void*>(s[i].box.mem)) C(Al(eqal ? 1 : 1 + i)); else ::new (static_cast<void*>(s[i].box.mem)) C();
            s[i].box.alive = true; s[i].aid = tal ? (eqal ? 1 : 1 + i) : 0;
        }
        ctx.cur_row = 0;
        if (ctx.profile == PR_COPYL)
        {
            Rng r(r0.c[0]);
            for (int i = 0; i < S; ++i)
            {
                // near the size of the internal storage, half of the time on the heap
                const u32 q = N && N < 100 ? u32(r.next() % 2 ? N + r.next() % 2 : r.next() % (N + 6)) : u32(r.next());
                const u32 back = r.next() % 2 ? 0 : u32(r.next());
                layout(i, q, back, u32(r.next()), 1);
            }
        }
        else if (r0.c[0] % 2 || ctx.profile == PR_INSERT) layout(0, r0.c[0] / 2, r0.c[4] / 3, r0.c[7] / 2, 1);
        for (std::size_t i = 1; i < cs.rows.size(); ++i)
        {
            ctx.cur_row = int(i);
            const Op op = ops[cs.rows[i].c[0] % ops.size()];
            if (!(keep >> (unsigned(op) % 64) & 1) && int(i) != ctx.fault_row) continue;
            g.fired = false;
            step(cs.rows[i]);
            // more elements than max_size() in the room of the last segments: they cannot be copied
            if (seg && maxsz)
                for (auto& x : s) if (x.m.size() > x.c().max_size()) { x.c().clear(); x.m.clear(); }
            if (ctx.fault_row == int(i) && !ctx.fault_fired) break; // fault points exhausted
        }
        ctx.cur_row = int(cs.rows.size());
        for (auto& x : s) { x.box.kill(); }
        g.end_case();
        if (realloc_seen) PBT_LABEL(ctx, "case with reallocation");
        if (removed_seen) PBT_LABEL(ctx, "case with removal");
        if (mid_seen) PBT_LABEL(ctx, "case with middle insertion");
        PBT_LABEL(ctx, "cases");
        if (!(ctx.fault_row >= 0) && applied >= 3 && (is_static || realloc_seen || fam == F_SMALL) && (removed_seen || mid_seen)) ctx.nontrivial = true;
    }
};

template <class C> void run_seq(const Case& c, Ctx& x)
{
    Machine<C> m(c, x);
    m.run();
}

#define SEQ(name, ...) static ::pbt::Register PBT_CAT(reg_, __COUNTER__)(name, ::seq::Info<__VA_ARGS__>::fam, 0, &::seq::run_seq<__VA_ARGS__>)
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

} // namespace seq
