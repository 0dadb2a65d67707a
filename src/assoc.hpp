// Model-based machine for the associative containers. The model of a container is
// the list of its (key, mapped) values in iteration order: an ordered container must
// hold the modelled values sorted by its comparator, an unordered one the modelled
// values in any order.
#pragma once
#include "ob.hpp"
#include <algorithm>
#include <initializer_list>
#include <stdexcept>
#include <string>

#include <sfl/small_flat_map.hpp>
#include <sfl/small_flat_multimap.hpp>
#include <sfl/small_flat_multiset.hpp>
#include <sfl/small_flat_set.hpp>
#include <sfl/small_unordered_flat_map.hpp>
#include <sfl/small_unordered_flat_multimap.hpp>
#include <sfl/small_unordered_flat_multiset.hpp>
#include <sfl/small_unordered_flat_set.hpp>
#include <sfl/static_flat_map.hpp>
#include <sfl/static_flat_multimap.hpp>
#include <sfl/static_flat_multiset.hpp>
#include <sfl/static_flat_set.hpp>
#include <sfl/static_unordered_flat_map.hpp>
#include <sfl/static_unordered_flat_multimap.hpp>
#include <sfl/static_unordered_flat_multiset.hpp>
#include <sfl/static_unordered_flat_set.hpp>

extern unsigned long long g_news;

namespace assoc
{
using namespace pbt;
using namespace ob;

template <class C> struct Info;
#define ASSOC_INFO_SET(cont, FAM) \
    template <class K, std::size_t NN, class Q, class A> struct Info<sfl::small_##cont<K, NN, Q, A>> { static constexpr u32 fam = FAM | F_SMALL; static constexpr bool map = false; static constexpr std::size_t N = NN; using Key = K; using Map = int; using Cmp = Q; using Al = A; }; \
    template <class K, std::size_t NN, class Q> struct Info<sfl::static_##cont<K, NN, Q>> { static constexpr u32 fam = FAM | F_STATIC; static constexpr bool map = false; static constexpr std::size_t N = NN; using Key = K; using Map = int; using Cmp = Q; using Al = void; };
#define ASSOC_INFO_MAP(cont, FAM) \
    template <class K, class M, std::size_t NN, class Q, class A> struct Info<sfl::small_##cont<K, M, NN, Q, A>> { static constexpr u32 fam = FAM | F_SMALL; static constexpr bool map = true; static constexpr std::size_t N = NN; using Key = K; using Map = M; using Cmp = Q; using Al = A; }; \
    template <class K, class M, std::size_t NN, class Q> struct Info<sfl::static_##cont<K, M, NN, Q>> { static constexpr u32 fam = FAM | F_STATIC; static constexpr bool map = true; static constexpr std::size_t N = NN; using Key = K; using Map = M; using Cmp = Q; using Al = void; };
ASSOC_INFO_SET(flat_set, F_OSET)
ASSOC_INFO_SET(flat_multiset, F_OMULTI)
ASSOC_INFO_SET(unordered_flat_set, F_USET)
ASSOC_INFO_SET(unordered_flat_multiset, F_UMULTI)
ASSOC_INFO_MAP(flat_map, F_OSET)
ASSOC_INFO_MAP(flat_multimap, F_OMULTI)
ASSOC_INFO_MAP(unordered_flat_map, F_USET)
ASSOC_INFO_MAP(unordered_flat_multimap, F_UMULTI)

enum Op
{
    INSERT, INSERT_RV, INSERT_P, EMPLACE, INSERT_HINT, INSERT_HINT_RV, INSERT_HINT_P, EMPLACE_HINT,
    INSERT_OR_ASSIGN, INSERT_OR_ASSIGN_HINT, TRY_EMPLACE, TRY_EMPLACE_HINT, SUBSCRIPT,
    INSERT_RANGE, INSERT_IL, ERASE_IT, ERASE_RANGE, ERASE_KEY, ERASE_HET, ERASE_IF, CLEAR, RESERVE, SHRINK,
    COPY_ASSIGN, MOVE_ASSIGN, SWAP, SELF_ASSIGN, COPY_CTOR, MOVE_CTOR, CTOR, ASSIGN_IL,
    LOOKUP, LOOKUP_HET, AT, WRITE, COMPARE, ITERS, LENGTH, ALIAS_INSERT, ALIAS_ERASE, ALIAS_MAP, BULK
};

enum Group { GR_INS, GR_RANGE, GR_ERASE, GR_CAP, GR_COPY, GR_FIND, GR_HET, GR_HINT, GR_ERR, GR_ITER, GR_CMP, GR_ALIAS, GR_MAP, GR_MISC };
struct OpInfo { Op op; int w; Group g; };
static const OpInfo op_table[] = {
    {INSERT, 4, GR_INS}, {INSERT_RV, 4, GR_INS}, {INSERT_P, 4, GR_INS}, {EMPLACE, 4, GR_INS},
    {INSERT_HINT, 3, GR_HINT}, {INSERT_HINT_RV, 3, GR_HINT}, {INSERT_HINT_P, 2, GR_HINT}, {EMPLACE_HINT, 3, GR_HINT},
    {INSERT_OR_ASSIGN, 3, GR_MAP}, {INSERT_OR_ASSIGN_HINT, 3, GR_HINT}, {TRY_EMPLACE, 3, GR_MAP}, {TRY_EMPLACE_HINT, 3, GR_HINT}, {SUBSCRIPT, 3, GR_MAP},
    {INSERT_RANGE, 5, GR_RANGE}, {INSERT_IL, 2, GR_RANGE}, {ERASE_IT, 4, GR_ERASE}, {ERASE_RANGE, 4, GR_ERASE}, {ERASE_KEY, 4, GR_ERASE}, {ERASE_HET, 2, GR_HET}, {ERASE_IF, 2, GR_ERASE},
    {CLEAR, 1, GR_CAP}, {RESERVE, 3, GR_CAP}, {SHRINK, 3, GR_CAP}, {COPY_ASSIGN, 3, GR_COPY}, {MOVE_ASSIGN, 3, GR_COPY}, {SWAP, 3, GR_COPY}, {SELF_ASSIGN, 1, GR_COPY},
    {COPY_CTOR, 3, GR_COPY}, {MOVE_CTOR, 3, GR_COPY}, {CTOR, 4, GR_RANGE}, {ASSIGN_IL, 2, GR_RANGE}, {LOOKUP, 4, GR_FIND}, {LOOKUP_HET, 4, GR_HET}, {AT, 3, GR_ERR}, {WRITE, 2, GR_MISC},
    {COMPARE, 2, GR_CMP}, {ITERS, 2, GR_ITER}, {LENGTH, 2, GR_ERR}, {ALIAS_INSERT, 2, GR_ALIAS}, {ALIAS_ERASE, 2, GR_ALIAS}, {ALIAS_MAP, 2, GR_ALIAS}, {BULK, 3, GR_INS},
};

enum Profile { PR_GENERAL, PR_CAP, PR_ALIAS, PR_RANGE, PR_COPY, PR_ERR, PR_ITER, PR_CMP, PR_ERASE, PR_HET, PR_HINT, PR_MAP, PR_INSERT, PR_COPYL };
inline bool boosted(int profile, Group g)
{
    switch (profile)
    {
    case PR_CAP: return g == GR_CAP;
    case PR_ALIAS: return g == GR_ALIAS;
    case PR_RANGE: return g == GR_RANGE;
    case PR_COPY: return g == GR_COPY;
    case PR_ERR: return g == GR_ERR;
    case PR_ITER: return g == GR_ITER;
    case PR_CMP: return g == GR_CMP;
    case PR_ERASE: return g == GR_ERASE;
    case PR_HET: return g == GR_HET;
    case PR_HINT: return g == GR_HINT;
    case PR_MAP: return g == GR_MAP;
    case PR_INSERT: return g == GR_INS || g == GR_RANGE || g == GR_HINT || g == GR_MAP || g == GR_ERASE || g == GR_CAP || g == GR_ALIAS || g == GR_HET;
    case PR_COPYL: return g == GR_COPY;
    }
    return false;
}
inline u32 group_cat(Op op)
{
    for (auto& o : op_table)
        if (o.op == op)
            switch (o.g)
            {
            case GR_RANGE: return RANGE;
            case GR_ERASE: return ERASE;
            case GR_CAP: return CAP;
            case GR_COPY: return COPY;
            case GR_HET: return HET;
            case GR_HINT: return HINT;
            case GR_ERR: return ERRS;
            case GR_ITER: return ITER;
            case GR_CMP: return CMP;
            case GR_ALIAS: return ALIAS;
            case GR_MAP: return ARGS;
            default: return 0;
            }
    return 0;
}
inline const std::vector<Op>& ops_for(int profile)
{
    static std::vector<Op> v;
    static int built = -1;
    if (built != profile)
    {
        v.clear();
        for (auto& o : op_table)
            for (int i = 0; i < o.w * (boosted(profile, o.g) ? 5 : profile >= PR_INSERT ? 0 : 1); ++i) v.push_back(o.op);
        built = profile;
    }
    return v;
}

enum Res { R_OK, R_FAULT, R_LEN };
struct P { int k, m; };
inline bool operator==(const P& a, const P& b) { return a.k == b.k && a.m == b.m; }
inline bool operator!=(const P& a, const P& b) { return !(a == b); }
inline bool operator<(const P& a, const P& b) { return a.k < b.k || (a.k == b.k && a.m < b.m); }

template <class C>
struct Machine
{
    using I = Info<C>;
    using T = typename C::value_type;
    using Key = typename I::Key;
    using Map = typename I::Map;
    using Cmp = typename I::Cmp;
    using Al = typename I::Al;
    static constexpr u32 fam = I::fam;
    static constexpr std::size_t N = I::N;
    static constexpr bool is_map = I::map;
    static constexpr bool is_static = (fam & F_STATIC) != 0;
    static constexpr bool small = !is_static;
    static constexpr bool ordered = (fam & (F_OSET | F_OMULTI)) != 0;
    static constexpr bool multi = (fam & (F_OMULTI | F_UMULTI)) != 0;
    static constexpr bool umap = is_map && !multi; // at, operator[], try_emplace, insert_or_assign
    static constexpr bool transparent = std::is_same<Cmp, Less<true>>::value || std::is_same<Cmp, Eq<true>>::value;
    static constexpr bool peek = std::is_constructible<Key, Peek<Key>>::value && (!is_map || (std::is_constructible<Map, Peek<Map>>::value && std::is_assignable<Map&, Peek<Map>>::value));
    static constexpr bool cpK = El<Key>::copyable;
    static constexpr bool cpM = El<Map>::copyable;
    static constexpr bool cp = El<T>::copyable;
    static constexpr bool nt = El<T>::nt_move;
    static constexpr bool tal = IsTal<Al>::value;
    static constexpr u32 props = IsTal<Al>::props;
    static constexpr bool tracked = El<T>::tracked > 0;
    static constexpr bool movesK = El<Key>::tracked > 0 && !std::is_same<Key, CopyOnly>::value; // a move is visible in the source
    static constexpr bool movesM = El<Map>::tracked > 0 && !std::is_same<Map, CopyOnly>::value;
    using V = std::vector<P>;
    static constexpr int S = 3;

    // limbo: the container is valid but its order or uniqueness is unspecified (moved from,
    // or an operation failed while moving elements whose moves can throw)
    struct Slot { Box<C> box; V m; int aid = 0; int mode = 0; bool limbo = false; C& c() { return box.get(); } };

    Ctx& ctx;
    const Case& cs;
    Slot s[S];
    const std::vector<Op>& ops;
    u32 size_limit = 16;
    int domain = 12;
    int next_val = 1;
    std::size_t maxsz = 0;
    Cat cat = CONTENT;
    int applied = 0;
    bool dup_seen = false, heap_seen = false, removed_seen = false, mid_seen = false;
    u64 news_delta = 0;

    Machine(const Case& c, Ctx& x) : ctx(x), cs(c), ops(ops_for(x.profile)) { ctx.op_cat = &cat; }
    ~Machine() { ctx.op_cat = nullptr; ctx.op_group = 0; }

    // ---- small helpers ------------------------------------------------------------
    static const Key& keyof(const T& t) { if constexpr (is_map) return t.first; else return t; }
    static P pv(const T& t) { if constexpr (is_map) return P{val(t.first), val(t.second)}; else return P{val(t), 0}; }
    static T mk(P p) { if constexpr (is_map) return T(Key(p.k), Map(p.m)); else return T(p.k); }
    using RSrc = std::conditional_t<is_map, std::pair<Src, Src>, Src>;
    static RSrc rsrc(P p) { if constexpr (is_map) return RSrc(Src{p.k}, Src{p.m}); else return Src{p.k}; }
    int newkey(u32 r) const { return int(r % u32(domain)); }
    P newelem(u32 r) { return P{newkey(r), is_map ? next_val++ : 0}; }
    V newelems(u32 n, u32 r) { V v; Rng g2(r); for (u32 i = 0; i < n; ++i) v.push_back(newelem(u32(g2.next() >> 8))); return v; }
    static int eff(int id) { return (props & ALWAYS_EQ) ? 0 : id; }
    bool same_alloc(const Slot& a, const Slot& b) const { return !tal || eff(a.aid) == eff(b.aid); }
    bool same_alloc_ids(int a, int b) const { return eff(a) == eff(b); }
    int pick_alloc(u32 r) { return tal ? 1 + int(r % 3) : 0; }
    std::size_t limit() const { return is_static ? N : size_limit; }
    std::size_t room(const V& m) const { const std::size_t l = limit(); return m.size() >= l ? 0 : l - m.size(); }
    static int ok(const Slot& x, int k) { return ordkey(x.mode, k); }
    static bool lt(int mode, const P& a, const P& b) { return ordkey(mode, a.k) < ordkey(mode, b.k); }
    static std::size_t locate(const V& m, int mode, int k)
    {
        for (std::size_t i = 0; i < m.size(); ++i) if (ordkey(mode, m[i].k) == ordkey(mode, k)) return i;
        return m.size();
    }
    bool has(const Slot& x, int k) const { return locate(x.m, x.mode, k) < x.m.size(); }
    // Model of inserting p: returns true if the element goes in.
    static bool model_insert(V& m, int mode, P p)
    {
        if (!multi && locate(m, mode, p.k) < m.size()) return false;
        m.push_back(p);
        return true;
    }
    bool heap(Slot& x) { if constexpr (is_static) return false; else return x.c().capacity() > N; }
    auto hint_at(C& c, std::size_t i) { return static_cast<const C&>(c).nth(i); }
    int cmp_mode(C& c)
    {
        if constexpr (ordered) return c.key_comp().mode; else return c.key_eq().mode;
    }

    template <class F> Res attempt(F&& f)
    {
        const bool arm = ctx.cur_row == ctx.fault_row;
        if (arm) { ctx.fault_seen = true; g.fired = false; g.left = ctx.fault_k; g.armed = true; }
        Res r = R_OK;
        const u64 news0 = g_news;
        news_delta = 0;
        try { f(); g.armed = false; news_delta = g_news - news0; }
        catch (const Fault&) { g.armed = false; r = R_FAULT; ctx.fault_fired = true; }
        catch (const std::length_error&) { g.armed = false; r = R_LEN; }
        catch (const std::exception& e) { g.armed = false; ctx.fail(cat, "unexpected exception: %s", e.what()); }
        if (r == R_OK && g.fired) ctx.fail(LIFE, "an exception thrown by an operation of the element type was swallowed");
        return r;
    }

    // ---- oracles --------------------------------------------------------------------
    V read(Slot& x, Cat k, const char* what)
    {
        C& c = x.c();
        const C& cc = c;
        const std::size_t n = cc.size();
        if (n > 100000) ctx.fail(k, "%s: size() is %zu", what, n);
        if (cc.empty() != (n == 0)) ctx.fail(k, "%s: empty() is wrong", what);
        V got;
        auto e = cc.end();
        for (auto it = cc.begin(); it != e; ++it)
        {
            if (got.size() >= n) ctx.fail(k, "%s: iteration runs past size() %zu", what, n);
            if constexpr (tracked) if (!g.reg.find(regaddr(*it))) ctx.fail(k == CONTENT ? LIFE : k, "%s: element %zu of %zu is not a live object", what, got.size(), n);
            got.push_back(pv(*it));
        }
        if (got.size() != n) ctx.fail(k, "%s: iteration yields %zu of %zu elements", what, got.size(), n);
        return got;
    }
    bool sorted(const V& v, int mode) const
    {
        if constexpr (ordered)
            for (std::size_t i = 1; i < v.size(); ++i) if (lt(mode, v[i], v[i - 1])) return false;
        return true;
    }
    bool unique(const V& v, int mode) const
    {
        if constexpr (!multi)
            for (std::size_t i = 0; i < v.size(); ++i)
                for (std::size_t j = i + 1; j < v.size(); ++j)
                    if (ordkey(mode, v[i].k) == ordkey(mode, v[j].k)) return false;
        return true;
    }
    static bool subsequence(const V& a, const V& b) // a within b
    {
        std::size_t i = 0;
        for (std::size_t j = 0; j < b.size() && i < a.size(); ++j) if (a[i] == b[j]) ++i;
        return i == a.size();
    }
    // The contents must be the elements of `want` (any order), sorted if ordered.
    void check_want(Slot& x, V want, Cat k, const char* what)
    {
        const V got = read(x, k, what);
        V a = got;
        std::sort(a.begin(), a.end());
        std::sort(want.begin(), want.end());
        if (a != want)
        {
            std::size_t i = 0;
            while (i < a.size() && i < want.size() && a[i] == want[i]) ++i;
            if (i < a.size() && (i >= want.size() || a[i] < want[i])) ctx.fail(k, "%s: holds {%d,%d} which the model does not (size %zu, model %zu)", what, a[i].k, a[i].m, a.size(), want.size());
            ctx.fail(k, "%s: lacks {%d,%d} which the model holds (size %zu, model %zu)", what, want[i].k, want[i].m, a.size(), want.size());
        }
        if (!sorted(got, x.mode)) ctx.fail(k, "%s: elements are not sorted by the comparator", what);
        if (!unique(got, x.mode)) ctx.fail(k, "%s: holds two equivalent keys", what);
        if constexpr (ordered)
        {
            // Existing elements keep their relative order.
            if (got.size() > x.m.size() && !x.limbo && k != COPY && !subsequence(x.m, got) && cat_keeps_order) ctx.fail(k, "%s: an insertion changed the relative order of existing elements", what);
            if (got.size() < x.m.size() && !x.limbo && k != COPY && !subsequence(got, x.m) && cat_keeps_order) ctx.fail(k, "%s: a removal changed the relative order of the remaining elements", what);
        }
        x.m = got;
        x.limbo = false;
    }
    bool cat_keeps_order = false;
    void check_same(Slot& x, Cat k, const char* what)
    {
        const V got = read(x, k, what);
        if (got.size() != x.m.size()) ctx.fail(k, "%s: size() is %zu, the model has %zu", what, got.size(), x.m.size());
        for (std::size_t i = 0; i < got.size(); ++i) if (got[i] != x.m[i]) ctx.fail(k, "%s: element %zu is {%d,%d}, was {%d,%d}", what, i, got[i].k, got[i].m, x.m[i].k, x.m[i].m);
    }
    void check_access(Slot& x, u32 r)
    {
        C& c = x.c(); const C& cc = c;
        const std::size_t n = x.m.size();
        if (cmp_mode(c) != x.mode) ctx.fail(STATE, "the container carries comparator/key_equal state %d, expected %d", cmp_mode(c), x.mode);
        if (n == 0) return;
        const std::size_t i = r % n;
        if (c.index_of(c.nth(i)) != i) ctx.fail(CONTENT, "index_of(nth(%zu)) is not %zu", i, i);
        if (&*c.nth(i) != &*(cc.begin() + std::ptrdiff_t(i))) ctx.fail(CONTENT, "nth(%zu) and begin()+%zu disagree", i, i);
        if (static_cast<const C&>(c).data() + i != &*cc.nth(i)) ctx.fail(CONTENT, "data()+%zu is not element %zu", i, i);
        if (x.limbo) return;
        const std::size_t al = g.alloc;
        (void)al;
        // A present and a random key must be found exactly as the model says.
        for (int q = 0; q < 2; ++q)
        {
            const int kv = q ? newkey(r / 7) : x.m[i].k;
            const Key key(kv);
            const std::size_t cnt = std::size_t(std::count_if(x.m.begin(), x.m.end(), [&](const P& p) { return ok(x, p.k) == ok(x, kv); }));
            if (cc.count(key) != cnt) ctx.fail(CONTENT, "count(%d) is %zu, the model says %zu", kv, std::size_t(cc.count(key)), cnt);
            auto f = c.find(key);
            if ((f != c.end()) != (cnt > 0)) ctx.fail(CONTENT, "find(%d) is wrong", kv);
            if (cnt && ok(x, pv(*f).k) != ok(x, kv)) ctx.fail(CONTENT, "find(%d) returns an element with key %d", kv, pv(*f).k);
        }
    }
    void check_capacity(Slot& x)
    {
        C& c = x.c();
        const std::size_t n = x.m.size(), cap = c.capacity();
        if (cap < n) ctx.fail(CAP, "capacity() %zu is below size() %zu", cap, n);
        if (c.available() != cap - n) ctx.fail(CAP, "available() is %zu with capacity %zu and size %zu", std::size_t(c.available()), cap, n);
        if (c.max_size() < n) ctx.fail(CAP, "max_size() is below size()");
        if constexpr (!is_static) ob::check_max_size(ctx, c, N);
        if constexpr (is_static)
        {
            if (cap != N || c.max_size() != N) ctx.fail(CAP, "static capacity is not N");
            if (c.full() != (n == N)) ctx.fail(CAP, "full() is wrong");
            if (n && (!x.box.inside(&*c.nth(0)) || !x.box.inside(&*c.nth(n - 1)))) ctx.fail(CAP, "element of a static container outside the object");
        }
        else
        {
            if (cap < N) ctx.fail(CAP, "capacity %zu is below N", cap);
            if (n)
            {
                const bool in = x.box.inside(&*c.nth(0));
                if (cap > N && in) ctx.fail(CAP, "capacity %zu > N but elements are in the internal storage", cap);
                if (cap <= N && !in) ctx.fail(CAP, "capacity %zu <= N but elements are not in the internal storage", cap);
            }
            if (cap > N) heap_seen = true;
        }
    }
    void check_alloc(Slot& x)
    {
        if constexpr (tal)
        {
            const auto a = x.c().get_allocator();
            if (eff(a.id) != eff(x.aid)) ctx.fail(ALLOC, "get_allocator() is allocator %d, expected %d", a.id, x.aid);
            if constexpr (tracked)
                for (auto it = x.c().begin(); it != x.c().end(); ++it)
                {
                    Entry* e = g.reg.find(regaddr(*it));
                    if (e && !g.relax_cons && e->cons != eff(x.aid)) ctx.fail(ALLOC, "an element was not constructed through the container's allocator (%d, expected %d)", e->cons, eff(x.aid));
                }
        }
        else (void)x;
    }
    void check_live()
    {
        if constexpr (tracked)
        {
            std::size_t n = 0;
            for (auto& x : s) if (x.box.alive) n += x.m.size();
            if (g.reg.live != n * El<T>::tracked) ctx.fail(LIFE, "%u element objects are alive, the containers hold %zu elements of %d", g.reg.live, n, El<T>::tracked);
        }
    }
    void others(int k)
    {
        for (int i = 0; i < S; ++i)
            if (i != k && s[i].box.alive) { s[i].box.check(); check_same(s[i], COPY, "uninvolved container"); }
    }
    // slot k was changed and its model is up to date
    void verify(int k, u32 r)
    {
        others(k);
        if (k >= 0 && s[k].box.alive)
        {
            s[k].box.check();
            check_same(s[k], cat, "container");
            check_access(s[k], r);
            check_capacity(s[k]);
            check_alloc(s[k]);
        }
        check_live();
    }

    struct Pre
    {
        V m; std::size_t cap = 0; const void* data = nullptr; bool internal = false;
        std::vector<std::pair<const void*, u32>> refs;
        u64 allocs = 0, cmps = 0, moves = 0, dtor = 0;
    };
    Pre pre(Slot& x)
    {
        Pre p;
        C& c = x.c();
        p.m = x.m;
        p.cap = c.capacity();
        p.data = static_cast<const C&>(c).data();
        for (auto it = c.begin(); it != c.end(); ++it)
        {
            u32 ser = 0;
            if constexpr (tracked) { Entry* e = g.reg.find(regaddr(*it)); ser = e ? e->serial : 0; }
            p.refs.push_back({&*it, ser});
        }
        p.internal = p.cap <= N;
        p.allocs = g.alloc;
        p.cmps = g.n[P_CMP]; p.moves = g.elem_ops();
        return p;
    }
    void check_storage(Slot& x, const Pre& p, const char* what)
    {
        if constexpr (small)
        {
            if (p.internal && x.c().size() <= N)
            {
                if (g.alloc != p.allocs) ctx.fail(CAP, "%s: allocated memory although at most N elements are held", what);
                if (x.c().capacity() > N) ctx.fail(CAP, "%s: left the internal storage although at most N elements are held", what);
            }
            if (p.internal != (x.c().capacity() <= N)) PBT_LABEL(ctx, "internal-heap crossing");
        }
        if (news_delta && !std::is_same<Al, std::allocator<T>>::value) ctx.fail(is_static ? CAP : ALLOC, "%s: called global operator new", what);
    }
    void after_insert(Slot& x, const Pre& p, std::size_t q, const char* what)
    {
        if (p.m.size() + q <= p.cap)
        {
            if (g.alloc != p.allocs) ctx.fail(CAP, "%s: allocated memory although the capacity sufficed", what);
            if (x.c().capacity() != p.cap || static_cast<const C&>(x.c()).data() != p.data) ctx.fail(CAP, "%s: changed the storage although the capacity sufficed", what);
        }
        if (x.c().capacity() < p.cap) ctx.fail(CAP, "%s: an insertion reduced the capacity", what);
        // emplace may hold one element more for a moment; anything else stays inside up to N
        if constexpr (small) if (p.internal && p.m.size() + q <= N) check_storage(x, p, what);
        if (news_delta && !std::is_same<Al, std::allocator<T>>::value) ctx.fail(is_static ? CAP : ALLOC, "%s: called global operator new", what);
    }
    void after_erase(Slot& x, const Pre& p, const char* what)
    {
        if (g.alloc != p.allocs) ctx.fail(CAP, "%s: an erasure allocated memory", what);
        if (x.c().capacity() != p.cap || static_cast<const C&>(x.c()).data() != p.data) ctx.fail(CAP, "%s: an erasure changed the storage", what);
        if (x.m.size() < p.m.size()) removed_seen = true;
    }
    static u32 lg(std::size_t n) { u32 r = 0; while ((std::size_t(1) << r) <= n) ++r; return r; }
    void cmp_bound(const Pre& p, u64 bound, const char* what)
    {
        const u64 n = g.n[P_CMP] - p.cmps;
        if (n > bound) ctx.fail(CPLX, "%s used %llu key comparisons on %zu elements, more than %llu", what, (unsigned long long)n, p.m.size(), (unsigned long long)bound);
    }

    bool may_construct = false;
    // Completes an operation on slot k. `strong`: failing must leave the contents alone.
    void finish(int k, Res r, const V& want, bool strong, const Pre& p, bool grows, std::size_t want_size, u32 rnd)
    {
        Slot& x = s[k];
        if (r == R_LEN)
        {
            // (emplacing may construct the element before it looks for an equivalent one)
            if (!(grows && want_size > x.c().max_size()) && !(may_construct && p.m.size() + 1 > x.c().max_size())) ctx.fail(ERRS, "length_error although the requested size %zu does not exceed max_size() %zu", want_size, std::size_t(x.c().max_size()));
            cat = ERRS;
            ctx.op_group |= STRONG;
            verify(k, rnd);
            PBT_LABEL(ctx, "length_error");
            return;
        }
        if (r == R_FAULT) { fault(k, strong, p); return; }
        if (grows && want_size > x.c().max_size()) ctx.fail(ERRS, "no length_error although the size %zu exceeds max_size() %zu", want_size, std::size_t(x.c().max_size()));
        check_want(x, want, cat, "container");
        verify(k, rnd);
    }
    // After an exception: valid, all elements live, order and uniqueness intact.
    void resync(Slot& x, bool after_fault)
    {
        const V got = read(x, after_fault ? VALID : COPY, after_fault ? "after an exception" : "moved-from container");
        if (x.c().capacity() < got.size()) ctx.fail(VALID, "capacity() is below size()");
        x.m = got;
        const bool good = sorted(got, x.mode) && unique(got, x.mode);
        x.limbo = !good;
        if (after_fault && !good && nt) ctx.fail(VALID, "after an exception the container %s", sorted(got, x.mode) ? "holds equivalent keys" : "is not sorted by its comparator");
    }
    void fault(int k, bool strong, const Pre& p)
    {
        Slot& x = s[k];
        PBT_LABEL(ctx, "fault fired");
        ctx.nontrivial = true;
        (void)p;
        if (!x.box.alive) { check_live(); return; }
        const V keep = x.m;
        x.mode = mode_now(x);
        if (strong) ctx.op_group |= STRONG;
        resync(x, true);
        if (strong)
        {
            V a = keep, b = x.m;
            std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            if (a != b) ctx.fail(STRONG, "an operation that failed by exception changed the contents (size %zu, was %zu)", b.size(), a.size());
            PBT_LABEL(ctx, "fault in strong operation");
        }
        cat = COPY;
        others(k);
        check_alloc(x);
        check_live();
    }
    int mode_now(Slot& x) { return cmp_mode(x.c()); }

    // ---- ranges --------------------------------------------------------------------
    static constexpr int NR = 6;
    template <class F> Res with_range(u32 variant, const V& vals, F&& f)
    {
        Pass ps; ps.n = long(vals.size());
        const long n = ps.n;
        std::vector<RSrc> src;
        for (auto& v : vals) src.push_back(rsrc(v));
        src.push_back(rsrc(P{-1, -1}));
        switch (variant % NR)
        {
        case 0: { using R = It<std::input_iterator_tag, const RSrc>; PBT_LABEL(ctx, "input range"); return attempt([&] { f(R(src.data(), 0, &ps), R(src.data(), n, &ps)); }); }
        case 1: { using R = It<std::forward_iterator_tag, const RSrc>; PBT_LABEL(ctx, "forward range"); return attempt([&] { f(R(src.data(), 0, &ps), R(src.data(), n, &ps)); }); }
        case 2: { using R = It<std::random_access_iterator_tag, const RSrc>; PBT_LABEL(ctx, "random access range"); return attempt([&] { f(R(src.data(), 0, &ps), R(src.data(), n, &ps)); }); }
        default: break;
        }
        Res r;
        {
            std::vector<T> arr; arr.reserve(vals.size() + 1);
            for (auto& v : vals) arr.push_back(mk(v));
            if (variant % NR == 3 || !cp)
            {
                PBT_LABEL(ctx, "move_iterator range");
                r = attempt([&] { f(std::make_move_iterator(arr.data()), std::make_move_iterator(arr.data() + arr.size())); });
            }
            else if constexpr (cp)
            {
                if (variant % NR == 4)
                {
                    PBT_LABEL(ctx, "pointer range");
                    r = attempt([&] { f(static_cast<const T*>(arr.data()), static_cast<const T*>(arr.data() + arr.size())); });
                }
                else
                {
                    using R = It<std::bidirectional_iterator_tag, const T>;
                    PBT_LABEL(ctx, "bidirectional range");
                    r = attempt([&] { f(R(arr.data(), 0, &ps), R(arr.data(), n, &ps)); });
                }
                for (std::size_t i = 0; i < arr.size(); ++i) if (pv(arr[i]) != vals[i]) ctx.fail(RANGE, "a range operation modified its source range");
            }
        }
        return r;
    }
    template <class F> Res with_il(const V& v, F&& f)
    {
        if constexpr (cp)
        {
            switch (v.size())
            {
            case 0: { std::initializer_list<T> il = {}; return attempt([&] { f(il); }); }
            case 1: { std::initializer_list<T> il = {mk(v[0])}; return attempt([&] { f(il); }); }
            case 2: { std::initializer_list<T> il = {mk(v[0]), mk(v[1])}; return attempt([&] { f(il); }); }
            case 3: { std::initializer_list<T> il = {mk(v[0]), mk(v[1]), mk(v[2])}; return attempt([&] { f(il); }); }
            default: { std::initializer_list<T> il = {mk(v[0]), mk(v[1]), mk(v[2]), mk(v[3]), mk(v[4])}; return attempt([&] { f(il); }); }
            }
        }
        else { (void)v; (void)f; return R_OK; }
    }
    static std::size_t il_size(u32 r, std::size_t rm) { static const std::size_t z[] = {0, 1, 2, 3, 5}; std::size_t n = z[r % 5]; return n <= rm ? n : 0; }
    std::size_t pick_hint(Slot& x, int kv, u32 r)
    {
        const std::size_t n = x.m.size();
        if constexpr (ordered)
        {
            std::size_t lb = 0, ub = 0;
            for (auto& p : x.m) { if (ok(x, p.k) < ok(x, kv)) ++lb; if (ok(x, p.k) <= ok(x, kv)) ++ub; }
            switch (r % 6)
            {
            case 0: return lb;
            case 1: return ub;
            case 2: return lb + (r / 8) % (ub - lb + 1);
            case 3: return lb ? lb - 1 : 0;
            default: break;
            }
        }
        (void)kv;
        return (r / 8) % (n + 1);
    }

    // One element p was to be inserted; ins/it describe what the call returned.
    void check_inserted(Slot& x, bool expect, bool have_flag, bool flag, typename C::iterator it, P p, Cat k, const char* what)
    {
        C& c = x.c();
        if (have_flag && flag != expect) ctx.fail(k, "%s returned %s, the model says %s", what, flag ? "inserted" : "not inserted", expect ? "inserted" : "not inserted");
        const std::size_t i = c.index_of(it);
        if (i >= c.size()) ctx.fail(k, "%s returned the end iterator", what);
        const P q = pv(*it);
        if (expect) { if (q != p) ctx.fail(k, "%s returned an iterator to {%d,%d} instead of the new {%d,%d}", what, q.k, q.m, p.k, p.m); }
        else if (ok(x, q.k) != ok(x, p.k)) ctx.fail(k, "%s returned an iterator to key %d instead of the element equivalent to %d", what, q.k, p.k);
    }
    template <class R> static constexpr bool is_pair_result = !std::is_same<std::remove_cv_t<std::remove_reference_t<R>>, typename C::iterator>::value;

    struct Ret { typename C::iterator it; bool flag = false; bool have = false; };
    template <class R> static void put(Ret& ret, R&& r)
    {
        if constexpr (is_pair_result<R>) { ret.it = r.first; ret.flag = r.second; ret.have = true; }
        else { ret.it = r; ret.have = false; }
    }

    void normalise(Slot& x) // out of limbo
    {
        if (!x.limbo) return;
        x.c().clear();
        x.m.clear();
        x.limbo = false;
        if (x.c().size() != 0 || !x.c().empty()) ctx.fail(VALID, "clear() did not empty the container");
        check_live();
    }

    // ---- one operation -------------------------------------------------------------
    void step(const Row& row) { step(row, ops[row.c[0] % ops.size()]); }
    void step(const Row& row, const Op op)
    {
        const int k = ctx.profile == PR_INSERT && ctx.cur_row ? 0 : int(row.c[1] % S); // PR_INSERT: operations on a chosen layout
        const u32 a = row.c[2], b = row.c[3], d = row.c[4], e = row.c[5], f = row.c[6];
        Slot& x = s[k];
        C& c = x.c();
        cat = CONTENT;
        ctx.op_group = group_cat(op);
        cat_keeps_order = false;
        may_construct = false;
        const bool replaces = op == COPY_ASSIGN || op == MOVE_ASSIGN || op == ASSIGN_IL || op == COPY_CTOR || op == MOVE_CTOR || op == CTOR;
        if (x.limbo && !replaces) normalise(x);
        const std::size_t n = x.m.size();
        V want = x.m;
        auto tag = [&](const char* nm) { ctx.log("  [%d] %s", k, nm); ctx.mix(u64(op) * 8 + u64(k)); ++applied; };
        const int j = (k + 1 + int(b % (S - 1))) % S;
        Slot& y = s[j];
        if (op == COPY_ASSIGN || op == COPY_CTOR || op == SWAP || op == MOVE_ASSIGN || op == MOVE_CTOR || op == COMPARE) normalise(y);
        // kinds of insertion that may construct before looking
        switch (op)
        {
        case INSERT: case INSERT_RV: case INSERT_P: case EMPLACE: case INSERT_HINT: case INSERT_HINT_RV: case INSERT_HINT_P: case EMPLACE_HINT:
        {
            if (room(x.m) < 1) return;
            if (!cp && (op == INSERT || op == INSERT_HINT)) return;
            const P p = newelem(a);
            const bool hinted = op == INSERT_HINT || op == INSERT_HINT_RV || op == INSERT_HINT_P || op == EMPLACE_HINT;
            const std::size_t h = hinted ? pick_hint(x, p.k, b) : 0;
            static const char* const nm[] = {"insert(const&)", "insert(&&)", "insert(P&&)", "emplace", "insert(hint, const&)", "insert(hint, &&)", "insert(hint, P&&)", "emplace_hint"};
            tag(nm[int(op)]); ctx.log(" {%d,%d}", p.k, p.m); if (hinted) ctx.log(" hint %zu", h); ctx.log(" of %zu, kind %u\n", n, e % 2); ctx.mix(n * 64 + u64(p.k) + (hinted ? 4096 * (h + 1) : 0));
            const bool expect = model_insert(want, x.mode, p);
            if (!expect) dup_seen = true;
            cat = hinted ? HINT : CONTENT;
            cat_keeps_order = true;
            Pre pr = pre(x);
            Ret ret;
            Res r = R_OK;
            switch (op)
            {
            case INSERT: case INSERT_HINT:
                if constexpr (cp)
                {
                    const T t = mk(p);
                    if (hinted) r = attempt([&] { put(ret, c.insert(hint_at(c, h), t)); }); else r = attempt([&] { put(ret, c.insert(t)); });
                    if (pv(t) != p) ctx.fail(CONTENT, "insert modified its const argument");
                }
                break;
            case INSERT_RV: case INSERT_HINT_RV:
            {
                T t = mk(p);
                if (hinted) r = attempt([&] { put(ret, c.insert(hint_at(c, h), std::move(t))); }); else r = attempt([&] { put(ret, c.insert(std::move(t))); });
                if (r == R_OK && !expect && pv(t) != p) ctx.fail(ARGS, "insert(value_type&&) moved from its argument although nothing was inserted");
                break;
            }
            case INSERT_P: case INSERT_HINT_P:
            {
                if constexpr (!is_map && !transparent)
                {
                    // converts to a temporary key
                    const Src t{p.k};
                    if (hinted) r = attempt([&] { put(ret, c.insert(hint_at(c, h), Key(t))); }); else r = attempt([&] { put(ret, c.insert(Key(t))); });
                }
                else
                {
                    RSrc t = rsrc(p);
                    if (e % 2)
                    {
                        const RSrc& ct = t;
                        if (hinted) r = attempt([&] { put(ret, c.insert(hint_at(c, h), ct)); }); else r = attempt([&] { put(ret, c.insert(ct)); });
                    }
                    else
                    {
                        if (hinted) r = attempt([&] { put(ret, c.insert(hint_at(c, h), std::move(t))); }); else r = attempt([&] { put(ret, c.insert(std::move(t))); });
                    }
                }
                break;
            }
            default:
                if constexpr (is_map)
                {
                    if (e % 2)
                    {
                        if (hinted) r = attempt([&] { put(ret, c.emplace_hint(hint_at(c, h), std::piecewise_construct, std::forward_as_tuple(p.k), std::forward_as_tuple(p.m))); });
                        else r = attempt([&] { put(ret, c.emplace(std::piecewise_construct, std::forward_as_tuple(p.k), std::forward_as_tuple(p.m))); });
                    }
                    else
                    {
                        if (hinted) r = attempt([&] { put(ret, c.emplace_hint(hint_at(c, h), Src{p.k}, Src{p.m})); });
                        else r = attempt([&] { put(ret, c.emplace(Src{p.k}, Src{p.m})); });
                    }
                }
                else
                {
                    if (hinted) r = attempt([&] { put(ret, c.emplace_hint(hint_at(c, h), p.k)); });
                    else r = attempt([&] { put(ret, c.emplace(p.k)); });
                }
                break;
            }
            if (r == R_OK)
            {
                check_inserted(x, expect, ret.have, ret.flag, ret.it, p, cat, nm[int(op)]);
                const bool may_construct = op == EMPLACE || op == EMPLACE_HINT;
                after_insert(x, pr, expect || may_construct ? 1 : 0, nm[int(op)]);
                if (ordered) cmp_bound(pr, 3 * lg(n) + 10, nm[int(op)]);
                else if (multi) cmp_bound(pr, 2, nm[int(op)]);
                if (!ordered && n + 1 <= pr.cap) { const u64 mv = g.elem_ops() - pr.moves; if (mv > 24) ctx.fail(CPLX, "%s into an unordered container of %zu elements performed %llu element operations", nm[int(op)], n, (unsigned long long)mv); }
                if (ordered && expect) { const std::size_t i = c.index_of(ret.it); if (i < n) mid_seen = true; }
            }
            may_construct = op == EMPLACE || op == EMPLACE_HINT || op == INSERT_P || op == INSERT_HINT_P;
            finish(k, r, want, r == R_FAULT && g.fired_kind == P_ALLOC, pr, expect, n + (expect ? 1 : 0), d);
            return;
        }
        case INSERT_OR_ASSIGN: case INSERT_OR_ASSIGN_HINT:
            if constexpr (umap)
            {
                if (room(x.m) < 1) return;
                const P p = newelem(a);
                const bool hinted = op == INSERT_OR_ASSIGN_HINT;
                const std::size_t h = hinted ? pick_hint(x, p.k, b) : 0;
                u32 kind = e % 3;
                if (!cpK && kind == 0) kind = 1;
                if (!transparent && kind == 2) kind = 1;
                tag(hinted ? "insert_or_assign(hint)" : "insert_or_assign"); ctx.log(" {%d,%d} kind %u hint %zu of %zu\n", p.k, p.m, kind, h, n); ctx.mix((n * 64 + u64(p.k)) * 4 + kind);
                const std::size_t at = locate(want, x.mode, p.k);
                const bool expect = at == want.size();
                if (expect) want.push_back(p); else { want[at].m = p.m; dup_seen = true; }
                cat = hinted ? HINT : kind == 2 ? HET : CONTENT;
                Pre pr = pre(x);
                Ret ret;
                Res r = R_OK;
                {
                    Map m(p.m);
                    const bool rvm = !cpM || (f & 1);
                    auto call = [&](auto&& key)
                    {
                        using KK = decltype(key);
                        if (rvm)
                        {
                            if (hinted) r = attempt([&] { put(ret, c.insert_or_assign(hint_at(c, h), std::forward<KK>(key), std::move(m))); });
                            else r = attempt([&] { put(ret, c.insert_or_assign(std::forward<KK>(key), std::move(m))); });
                            return;
                        }
                        if constexpr (cpM)
                        {
                            const Map& cm = m;
                            if (hinted) r = attempt([&] { put(ret, c.insert_or_assign(hint_at(c, h), std::forward<KK>(key), cm)); });
                            else r = attempt([&] { put(ret, c.insert_or_assign(std::forward<KK>(key), cm)); });
                        }
                    };
                    if (kind == 0) { if constexpr (cpK) { const Key key(p.k); call(key); if (val(key) != p.k) ctx.fail(ARGS, "insert_or_assign modified a const key"); } }
                    else if (kind == 1) { Key key(p.k); call(std::move(key)); if (r == R_OK && !expect && val(key) != p.k) ctx.fail(ARGS, "insert_or_assign moved from the key although only the mapped value was assigned"); }
                    else if constexpr (transparent) { if (f & 2) { const Src key{p.k}; call(key); } else call(Src{p.k}); }
                    if (r == R_OK && !rvm && val(m) != p.m) ctx.fail(ARGS, "insert_or_assign modified a const mapped argument");
                    if (r == R_OK && rvm && movesM && val(m) != MOVED) ctx.fail(ARGS, "insert_or_assign did not move from an rvalue mapped argument");
                }
                if (r == R_OK)
                {
                    check_inserted(x, expect, ret.have, ret.flag, ret.it, p, cat, "insert_or_assign");
                    if (val(ret.it->second) != p.m) ctx.fail(cat, "insert_or_assign: the returned element has mapped value %d instead of %d", val(ret.it->second), p.m);
                    after_insert(x, pr, expect ? 1 : 0, "insert_or_assign");
                    if (ordered) cmp_bound(pr, 3 * lg(n) + 10, "insert_or_assign");
                }
                finish(k, r, want, r == R_FAULT && g.fired_kind == P_ALLOC, pr, expect, n + (expect ? 1 : 0), d);
            }
            return;
        case TRY_EMPLACE: case TRY_EMPLACE_HINT:
            if constexpr (umap)
            {
                if (room(x.m) < 1) return;
                const P p = newelem(a);
                const bool hinted = op == TRY_EMPLACE_HINT;
                const std::size_t h = hinted ? pick_hint(x, p.k, b) : 0;
                u32 kind = e % 3;
                if (!cpK && kind == 0) kind = 1;
                if (!transparent && kind == 2) kind = 1;
                tag(hinted ? "try_emplace(hint)" : "try_emplace"); ctx.log(" {%d,%d} kind %u hint %zu of %zu\n", p.k, p.m, kind, h, n); ctx.mix((n * 64 + u64(p.k)) * 4 + kind);
                const bool expect = model_insert(want, x.mode, p);
                if (!expect) dup_seen = true;
                cat = hinted ? HINT : kind == 2 ? HET : CONTENT;
                Pre pr = pre(x);
                Ret ret;
                Res r = R_OK;
                {
                    Map m(p.m);
                    const u64 cons0 = g.n[P_VAL] + g.n[P_COPY] + g.n[P_MOVE];
                    u64 cons = 0;
                    auto call = [&](auto&& key)
                    {
                        using KK = decltype(key);
                        if (f & 1)
                        {
                            if (hinted) r = attempt([&] { put(ret, c.try_emplace(hint_at(c, h), std::forward<KK>(key), std::move(m))); });
                            else r = attempt([&] { put(ret, c.try_emplace(std::forward<KK>(key), std::move(m))); });
                        }
                        else
                        {
                            if (hinted) r = attempt([&] { put(ret, c.try_emplace(hint_at(c, h), std::forward<KK>(key), p.m)); });
                            else r = attempt([&] { put(ret, c.try_emplace(std::forward<KK>(key), p.m)); });
                        }
                        cons = g.n[P_VAL] + g.n[P_COPY] + g.n[P_MOVE];
                    };
                    if (kind == 0) { if constexpr (cpK) { const Key key(p.k); call(key); } }
                    else if (kind == 1) { Key key(p.k); call(std::move(key)); if (r == R_OK && !expect && val(key) != p.k) ctx.fail(ARGS, "try_emplace moved from the key although nothing was inserted"); }
                    else if constexpr (transparent) { if (f & 2) { const Src key{p.k}; call(key); } else call(Src{p.k}); }
                    if (r == R_OK && !expect && val(m) != p.m) ctx.fail(ARGS, "try_emplace moved from its arguments although nothing was inserted");
                    (void)cons0; (void)cons;
                }
                if (r == R_OK)
                {
                    check_inserted(x, expect, ret.have, ret.flag, ret.it, p, cat, "try_emplace");
                    after_insert(x, pr, expect ? 1 : 0, "try_emplace");
                    if (ordered) cmp_bound(pr, 3 * lg(n) + 10, "try_emplace");
                }
                finish(k, r, want, r == R_FAULT && g.fired_kind == P_ALLOC, pr, expect, n + (expect ? 1 : 0), d);
            }
            return;
        case SUBSCRIPT:
            if constexpr (umap)
            {
                const int kv = newkey(a);
                const bool expect = !has(x, kv);
                if (room(x.m) < 1) return;
                u32 kind = e % 3;
                if (!cpK && kind == 0) kind = 1;
                if (!transparent && kind == 2) kind = 1;
                tag("operator[]"); ctx.log(" (%d) kind %u of %zu\n", kv, kind, n); ctx.mix((n * 64 + u64(kv)) * 4 + kind);
                if (expect) want.push_back(P{kv, 0});
                const int m0 = expect ? 0 : want[locate(want, x.mode, kv)].m;
                cat = kind == 2 ? HET : CONTENT;
                Pre pr = pre(x);
                Res r = R_OK;
                const Map* ref = nullptr;
                auto call = [&](auto&& key) { using KK = decltype(key); r = attempt([&] { ref = &c[std::forward<KK>(key)]; }); };
                if (kind == 0) { if constexpr (cpK) { const Key key(kv); call(key); } }
                else if (kind == 1) { Key key(kv); call(std::move(key)); if (r == R_OK && !expect && val(key) != kv) ctx.fail(ARGS, "operator[] moved from the key although it exists"); }
                else if constexpr (transparent) { if (f & 2) { const Src key{kv}; call(key); } else call(Src{kv}); }
                if (r == R_OK)
                {
                    if (val(*ref) != m0) ctx.fail(cat, "operator[](%d) refers to mapped value %d instead of %d", kv, val(*ref), m0);
                    bool in = false;
                    for (auto it = c.begin(); it != c.end(); ++it) if (&it->second == ref) { in = true; if (ok(x, val(it->first)) != ok(x, kv)) ctx.fail(cat, "operator[](%d) refers to the element of key %d", kv, val(it->first)); }
                    if (!in) ctx.fail(cat, "operator[] does not refer to an element of the container");
                    after_insert(x, pr, expect ? 1 : 0, "operator[]");
                }
                finish(k, r, want, r == R_FAULT && g.fired_kind == P_ALLOC, pr, expect, n + (expect ? 1 : 0), d);
            }
            return;
        case INSERT_RANGE: case INSERT_IL:
        {
            if (!cp && op == INSERT_IL) return;
            const std::size_t q = op == INSERT_IL ? il_size(b, room(x.m)) : std::size_t(b) % (std::min<std::size_t>(room(x.m), 9 + size_limit / 3) + 1);
            const V vals = newelems(u32(q), d);
            tag(op == INSERT_IL ? "insert ilist" : "insert range"); ctx.log(" (n %zu into %zu, kind %u:", q, n, e % NR); for (auto& p : vals) ctx.log(" {%d,%d}", p.k, p.m); ctx.log(")\n"); ctx.mix((n * 64 + q) * 8 + e % NR);
            for (auto& p : vals) model_insert(want, x.mode, p);
            if (want.size() < n + q) dup_seen = true;
            cat = RANGE;
            cat_keeps_order = true;
            Pre pr = pre(x);
            Res r = op == INSERT_IL ? with_il(vals, [&](std::initializer_list<T> il) { if constexpr (cp) c.insert(il); }) : with_range(e, vals, [&](auto i1, auto i2) { c.insert(i1, i2); });
            if (r == R_OK && small && pr.internal && want.size() <= N) check_storage(x, pr, "insert(range)");
            if (r == R_OK && want.size() + (multi ? 0 : 1) <= pr.cap && g.alloc != pr.allocs) ctx.fail(CAP, "insert(range) allocated memory although the capacity sufficed");
            if (r == R_LEN)
            {
                if (want.size() + (multi ? 0 : 1) <= c.max_size()) ctx.fail(ERRS, "length_error although the size %zu does not exceed max_size() %zu", want.size(), std::size_t(c.max_size()));
                resync(x, true); verify(k, d); PBT_LABEL(ctx, "length_error");
                return;
            }
            finish(k, r, want, false, pr, true, want.size(), d);
            return;
        }
        case ERASE_IT: case ERASE_RANGE:
        {
            if (n == 0 && op == ERASE_IT) return;
            const std::size_t p1 = op == ERASE_IT ? a % n : a % (n + 1), q = op == ERASE_IT ? 1 : std::size_t(b) % (n - p1 + 1);
            tag("erase"); ctx.log(" (pos %zu, n %zu of %zu)\n", p1, q, n); ctx.mix((n * 64 + p1) * 64 + q);
            want.erase(want.begin() + long(p1), want.begin() + long(p1 + q));
            Pre pr = pre(x);
            cat = ERASE;
            cat_keeps_order = true;
            std::size_t ret = p1;
            Res r;
            if (op == ERASE_IT)
            {
                if (e & 1) r = attempt([&] { ret = c.index_of(c.erase(hint_at(c, p1))); });
                else r = attempt([&] { ret = c.index_of(c.erase(c.nth(p1))); });
            }
            else r = attempt([&] { ret = c.index_of(c.erase(hint_at(c, p1), hint_at(c, p1 + q))); });
            if (r == R_OK)
            {
                if (ret != p1) ctx.fail(ERASE, "erase(%zu, +%zu) returned an iterator to %zu", p1, q, ret);
                if (!ordered)
                {
                    const u64 mv = g.elem_ops() - pr.moves;
                    if (mv > 8 * q + 4) ctx.fail(CPLX, "erasing %zu of %zu elements of an unordered container performed %llu element operations", q, n, (unsigned long long)mv);
                }
                check_want(x, want, cat, "container");
                after_erase(x, pr, "erase");
            }
            finish(k, r, want, false, pr, false, 0, d);
            return;
        }
        case ERASE_KEY: case ERASE_HET:
        {
            const bool het = op == ERASE_HET;
            if (het && !transparent) return;
            const int kv = (e & 1) && n ? x.m[a % n].k : newkey(a);
            const bool wide = het && multi && (e & 2);
            tag(het ? "erase(K)" : "erase(key)"); ctx.log(" (%d%s) of %zu\n", kv, wide ? ", wide" : "", n); ctx.mix(n * 64 + u64(kv));
            auto match = [&](const P& p) { return wide ? block4(ok(x, p.k)) == block4(ok(x, kv)) : ok(x, p.k) == ok(x, kv); };
            want.erase(std::remove_if(want.begin(), want.end(), match), want.end());
            const std::size_t cnt = n - want.size();
            Pre pr = pre(x);
            cat = het ? HET : ERASE;
            cat_keeps_order = true;
            std::size_t ret = 0;
            Res r = R_OK;
            if (!het) { const Key key(kv); r = attempt([&] { ret = c.erase(key); }); }
            else if constexpr (transparent)
            {
                if (wide) { const HetR h{kv}; r = attempt([&] { ret = c.erase(h); }); }
                else if (f & 1) { const Het h{kv}; r = attempt([&] { ret = c.erase(h); }); }
                else r = attempt([&] { ret = c.erase(Het{kv}); });
            }
            if (r == R_OK)
            {
                if (ret != cnt) ctx.fail(cat, "erase(%d) returned %zu, the model removes %zu", kv, ret, cnt);
                if (ordered) cmp_bound(pr, 4 * lg(n) + 10, "erase(key)");
                check_want(x, want, cat, "container");
                after_erase(x, pr, "erase(key)");
                if (cnt > 1) PBT_LABEL(ctx, "erase of several equivalent elements");
            }
            finish(k, r, want, false, pr, false, 0, d);
            return;
        }
        case ERASE_IF:
        {
            const int mod = 2 + int(a % 3), rem = int(b % 3);
            tag("erase_if"); ctx.log(" (k %% %d == %d) of %zu\n", mod, rem, n); ctx.mix(n * 64 + u64(mod * 8 + rem));
            auto pred = [=](const T& t) { point(P_PRED); return (val(keyof(t)) % mod + mod) % mod == rem; };
            want.erase(std::remove_if(want.begin(), want.end(), [=](const P& p) { return (p.k % mod + mod) % mod == rem; }), want.end());
            const std::size_t cnt = n - want.size();
            Pre pr = pre(x);
            const u64 np = g.n[P_PRED];
            cat = ERASE;
            cat_keeps_order = true;
            std::size_t ret = 0;
            Res r = attempt([&] { ret = std::size_t(erase_if(c, pred)); });
            if (r == R_OK)
            {
                if (ret != cnt) ctx.fail(ERASE, "erase_if returned %zu, should be %zu", ret, cnt);
                if (g.n[P_PRED] - np != n) ctx.fail(ERASE, "erase_if applied the predicate %llu times to %zu elements", (unsigned long long)(g.n[P_PRED] - np), n);
                check_want(x, want, cat, "container");
                after_erase(x, pr, "erase_if");
            }
            finish(k, r, want, false, pr, false, 0, d);
            return;
        }
        case CLEAR:
        {
            tag("clear\n"); ctx.mix(n);
            Pre pr = pre(x);
            Res r = attempt([&] { c.clear(); });
            want.clear();
            if (n) removed_seen = true;
            if (c.capacity() != pr.cap) ctx.fail(CAP, "clear() changed the capacity from %zu to %zu", pr.cap, std::size_t(c.capacity()));
            if (g.alloc != pr.allocs) ctx.fail(CAP, "clear() allocated memory");
            finish(k, r, want, true, pr, false, 0, d);
            return;
        }
        case RESERVE:
            if constexpr (small)
            {
                const std::size_t q = std::size_t(b) % (size_limit * 2 + 2);
                tag("reserve"); ctx.log(" (%zu)\n", q); ctx.mix(n * 64 + q);
                Pre p = pre(x);
                Res r = attempt([&] { c.reserve(q); });
                if (r == R_OK)
                {
                    if (c.capacity() < q) ctx.fail(CAP, "capacity() is %zu after reserve(%zu)", std::size_t(c.capacity()), q);
                    if (q <= p.cap) { if (g.alloc != p.allocs || c.capacity() != p.cap || static_cast<const C&>(c).data() != p.data) ctx.fail(REF, "reserve(%zu) with capacity %zu changed the storage", q, p.cap); }
                    else if (c.capacity() != q) ctx.fail(CAP, "reserve(%zu) made capacity() %zu", q, std::size_t(c.capacity()));
                    check_same(x, CAP, "reserve");
                }
                if (r == R_FAULT && (nt || cp)) strong_storage(x, p, "reserve");
                finish(k, r, want, nt || cp, p, true, q, a);
            }
            return;
        case SHRINK:
            if constexpr (small)
            {
                tag("shrink_to_fit\n"); ctx.mix(n);
                Pre p = pre(x);
                Res r = attempt([&] { c.shrink_to_fit(); });
                if (r == R_OK)
                {
                    if (c.capacity() != std::max(N, n)) ctx.fail(CAP, "capacity() is %zu after shrink_to_fit() with size %zu and N %zu", std::size_t(c.capacity()), n, N);
                    if (p.cap == c.capacity() && g.alloc != p.allocs) ctx.fail(REF, "shrink_to_fit() reallocated although nothing was to shrink");
                    if (p.cap != c.capacity()) PBT_LABEL(ctx, "shrink_to_fit that shrank");
                    check_same(x, CAP, "shrink_to_fit");
                }
                if (r == R_FAULT && (nt || cp)) strong_storage(x, p, "shrink_to_fit");
                finish(k, r, want, nt || cp, p, false, 0, a);
            }
            return;
        case ASSIGN_IL:
            if constexpr (cp)
            {
                const std::size_t q = il_size(b, limit());
                const V vals = newelems(u32(q), d);
                tag("= ilist"); ctx.log(" (n %zu)\n", q); ctx.mix(n * 64 + q);
                want.clear();
                for (auto& p : vals) model_insert(want, x.mode, p);
                Pre p = pre(x);
                cat = RANGE;
                Res r = with_il(vals, [&](std::initializer_list<T> il) { C& ret = (c = il); if (&ret != &c) ctx.fail(RANGE, "operator= does not return *this"); });
                if (r == R_OK) check_storage(x, p, "= ilist");
                if (r == R_LEN) { resync(x, true); verify(k, a); return; }
                finish(k, r, want, false, p, true, want.size(), a);
            }
            return;
        case COPY_ASSIGN:
            if constexpr (cp)
            {
                tag("= copy of"); ctx.log(" [%d] (%zu <- %zu, state %d <- %d)\n", j, n, y.m.size(), x.mode, y.mode); ctx.mix(n * 64 + y.m.size());
                want = y.m;
                Pre p = pre(x);
                cat = COPY;
                const int aid0 = x.aid;
                Res r = attempt([&] { C& ret = (c = static_cast<const C&>(y.c())); if (&ret != &c) ctx.fail(COPY, "operator= does not return *this"); });
                if (props & POCCA) x.aid = y.aid;
                if (r != R_OK) x.aid = alloc_now(x, aid0, y.aid); else x.mode = y.mode;
                if (n && y.m.size()) PBT_LABEL(ctx, "copy assignment between non-empty");
                check_same(y, COPY, "source of copy assignment");
                if (r == R_OK) { check_storage(x, p, "copy assignment"); if (x.m.size() != n) {} }
                finish(k, r, want, false, p, true, want.size(), a);
            }
            return;
        case MOVE_ASSIGN:
        {
            tag("= move of"); ctx.log(" [%d] (%zu <- %zu, state %d <- %d)\n", j, n, y.m.size(), x.mode, y.mode); ctx.mix(n * 64 + y.m.size());
            want = y.m;
            Pre p = pre(x), py = pre(y);
            cat = COPY;
            const int aid0 = x.aid;
            const bool eq = same_alloc(x, y);
            const bool steal = (eq || (props & POCMA)) && small && heap(y);
            Res r = attempt([&] { C& ret = (c = std::move(y.c())); if (&ret != &c) ctx.fail(COPY, "operator= does not return *this"); });
            if (props & POCMA) x.aid = y.aid;
            if (r != R_OK) x.aid = alloc_now(x, aid0, y.aid); else x.mode = y.mode;
            if (r == R_OK && steal) taken_over(x, py, "move assignment");
            if (r == R_OK && !steal) check_storage(x, p, "move assignment");
            resync(y, r == R_FAULT && false);
            finish(k, r, want, false, p, true, want.size(), a);
            check_alloc(y); check_capacity(y);
            return;
        }
        case SWAP:
        {
            if (tal && !(props & POCS) && !same_alloc(x, y)) return;
            tag("swap with"); ctx.log(" [%d] (%zu, %zu, state %d, %d)\n", j, n, y.m.size(), x.mode, y.mode); ctx.mix(n * 64 + y.m.size());
            Pre p = pre(x), py = pre(y);
            cat = COPY;
            const bool hx = heap(x), hy = heap(y);
            Res r = attempt([&] { if (e & 1) { using std::swap; swap(c, y.c()); } else c.swap(y.c()); });
            if (tal && (props & POCS)) { if (r == R_OK) std::swap(x.aid, y.aid); }
            if (small && hx != hy) PBT_LABEL(ctx, "swap internal with heap");
            if (r == R_OK)
            {
                std::swap(x.m, y.m);
                std::swap(x.mode, y.mode);
                if (hx && hy) { taken_over(x, py, "swap"); taken_over(y, p, "swap"); }
                check_same(y, COPY, "second operand of swap");
                if (cmp_mode(y.c()) != y.mode) ctx.fail(STATE, "the second operand of swap carries comparator state %d, expected %d", cmp_mode(y.c()), y.mode);
                check_capacity(y); check_alloc(y);
                verify(k, a);
            }
            else
            {
                if (tal && (props & POCS)) { const int ax = x.aid, ay = y.aid; x.aid = alloc_now(x, ax, ay); y.aid = alloc_now(y, ax, ay); }
                y.mode = mode_now(y);
                resync(y, true);
                fault(k, false, p);
            }
            return;
        }
        case SELF_ASSIGN:
            if (e % 4 == 1 || e % 4 == 2)
            {
                tag("self swap\n"); ctx.mix(n * 4 + e % 4);
                Pre p = pre(x);
                cat = COPY;
                const bool h = heap(x);
                Res r = attempt([&] { if (e % 4 == 1) c.swap(c); else { using std::swap; swap(c, c); } });
                if (r == R_OK && h) taken_over(x, p, "self swap");
                finish(k, r, want, false, p, false, 0, a);
                return;
            }
            if (e % 4 == 3)
            {
                // any value, but a valid one
                tag("self move assignment\n"); ctx.mix(n * 4 + 3);
                cat = COPY;
                Pre p = pre(x);
                Res r = attempt([&] { C& cc = c; c = std::move(cc); });
                if (r == R_OK) { resync(x, false); check_alloc(x); check_capacity(x); verify(k, a); }
                else fault(k, false, p);
                return;
            }
            if constexpr (cp)
            {
                tag("self copy assignment\n"); ctx.mix(n);
                Pre p = pre(x);
                cat = COPY;
                Res r = attempt([&] { const C& cc = c; c = cc; });
                finish(k, r, want, false, p, false, 0, a);
            }
            return;
        case COPY_CTOR:
            if constexpr (cp)
            {
                const bool with_a = tal && (e & 1);
                const int na = with_a ? pick_alloc(f) : ((props & SOCCC) ? y.aid + 1000 : y.aid);
                tag("copy-construct from"); ctx.log(" [%d] (%zu)\n", j, y.m.size()); ctx.mix(y.m.size() * 2 + with_a);
                x.box.kill(); x.m.clear(); x.limbo = false; x.box.prepare();
                cat = COPY;
                const u64 al0 = g.alloc;
                Res r = attempt([&] {
                    if constexpr (tal) { if (with_a) { ::new (static_cast<void*>(x.box.mem)) C(static_cast<const C&>(y.c()), Al(na)); return; } }
                    ::new (static_cast<void*>(x.box.mem)) C(static_cast<const C&>(y.c()));
                });
                check_same(y, COPY, "source of copy construction");
                ctor_done(k, r, y.m, na, y.mode, al0, a);
            }
            return;
        case MOVE_CTOR:
        {
            const bool with_a = tal && (e & 1);
            const int na = with_a ? pick_alloc(f) : y.aid;
            tag("move-construct from"); ctx.log(" [%d] (%zu)\n", j, y.m.size()); ctx.mix(y.m.size() * 2 + with_a);
            x.box.kill(); x.m.clear(); x.limbo = false; x.box.prepare();
            cat = COPY;
            const V src = y.m;
            const int md = y.mode;
            Pre py = pre(y);
            const bool steal = (!tal || same_alloc_ids(na, y.aid)) && small && heap(y);
            const u64 al0 = g.alloc;
            Res r = attempt([&] {
                if constexpr (tal) { if (with_a) { ::new (static_cast<void*>(x.box.mem)) C(std::move(y.c()), Al(na)); return; } }
                ::new (static_cast<void*>(x.box.mem)) C(std::move(y.c()));
            });
            if (r == R_OK) { x.box.alive = true; x.aid = na; if (steal) taken_over(x, py, "move construction"); }
            resync(y, false);
            ctor_done(k, r, src, na, md, al0, a);
            check_alloc(y); check_capacity(y);
            return;
        }
        case CTOR: construct(k, row); return;
        case LOOKUP: case LOOKUP_HET: lookup(k, row, op == LOOKUP_HET); return;
        case AT:
            if constexpr (umap)
            {
                const int kv = (e & 1) && n ? x.m[b % n].k : newkey(a);
                tag("at"); ctx.log(" (%d)\n", kv); ctx.mix(n * 64 + u64(kv));
                const std::size_t i = locate(x.m, x.mode, kv);
                const C& cc = c;
                for (int q = 0; q < (transparent ? 4 : 2); ++q)
                {
                    const Key key(kv);
                    bool thrown = false;
                    const Map* ref = nullptr;
                    cat = q < 2 ? ERRS : HET;
                    Res r = attempt([&] {
                        try
                        {
                            if (q == 0) ref = &c.at(key);
                            else if (q == 1) ref = &cc.at(key);
                            else if constexpr (transparent) { if (q == 2) ref = &c.at(Het{kv}); else ref = &cc.at(Het{kv}); }
                        }
                        catch (const std::out_of_range&) { thrown = true; }
                    });
                    if (r != R_OK) break;
                    if (thrown != (i == n)) ctx.fail(q < 2 ? ERRS : HET, "at(%d): %s, but the key is %s", kv, thrown ? "out_of_range" : "no exception", i == n ? "absent" : "present");
                    if (!thrown && (val(*ref) != x.m[i].m || ref != &c.nth(i)->second)) ctx.fail(q < 2 ? ERRS : HET, "at(%d) refers to the wrong element", kv);
                }
                if (i == n) PBT_LABEL(ctx, "at with an absent key");
                cat = ERRS;
                verify(k, d);
            }
            return;
        case WRITE:
            if constexpr (is_map)
            {
                if (n == 0) return;
                const std::size_t i = a % n;
                const int v = next_val++;
                tag("write mapped"); ctx.log(" (pos %zu, %d)\n", i, v); ctx.mix(n * 64 + i);
                want[i].m = v;
                Pre p = pre(x);
                Res r = attempt([&] {
                    if constexpr (umap)
                    {
                        const Key key(x.m[i].k);
                        if (e % 3 == 1) { c.at(key) = Map(v); return; }
                        if (e % 3 == 2) { c.find(key)->second = Map(v); return; }
                    }
                    c.nth(i)->second = Map(v);
                });
                if (r == R_FAULT) { resync(x, true); check_live(); return; }
                finish(k, r, want, false, p, false, 0, b);
            }
            return;
        case COMPARE:
            if (e % 3 == 0 && cp) near_copy(k, j, row);
            tag("compare with"); ctx.log(" [%d]\n", j); ctx.mix(x.m.size() * 64 + y.m.size());
            compare(x, e % 5 == 4 ? x : y);
            return;
        case ITERS: tag("iterator algebra\n"); ctx.mix(n); iterators(k, row); return;
        case LENGTH: length_errors(k, row); return;
        case ALIAS_INSERT:
        {
            if (n == 0 || room(x.m) < 1 || !cp) return;
            const std::size_t i = a % n, h = pick_hint(x, x.m[i].k, b);
            u32 kind = e % 6;
            if (kind >= 4 && !peek) kind -= 4;
            const int add = kind >= 4 ? int(f % 3) : 0;
            tag("insert own element"); ctx.log(" (%zu of %zu, kind %u, hint %zu, cap %zu)\n", i, n, kind, h, std::size_t(c.capacity())); ctx.mix((n * 64 + i) * 64 + h);
            const P p{x.m[i].k + add, x.m[i].m};
            const bool expect = model_insert(want, x.mode, p);
            cat = ALIAS;
            Pre pr = pre(x);
            Ret ret;
            Res r = R_OK;
            if constexpr (cp)
            {
                const C& cc = c;
                if (kind == 0) r = attempt([&] { put(ret, c.insert(*cc.nth(i))); });
                else if (kind == 1) r = attempt([&] { put(ret, c.insert(hint_at(c, h), *cc.nth(i))); });
                else if (kind == 2) r = attempt([&] { put(ret, c.emplace(*cc.nth(i))); });
                else if (kind == 3) r = attempt([&] { put(ret, c.emplace_hint(hint_at(c, h), *cc.nth(i))); });
                else if constexpr (peek)
                {
                    // views of an own element
                    const Peek<Key> pk{&keyof(*cc.nth(i)), add};
                    if constexpr (is_map)
                    {
                        const Peek<Map> pm{&cc.nth(i)->second, 0};
                        if (kind == 4) r = attempt([&] { put(ret, c.emplace(pk, pm)); }); else r = attempt([&] { put(ret, c.emplace_hint(hint_at(c, h), pk, pm)); });
                    }
                    else if constexpr (transparent && !multi)
                    {
                        if (f & 4) { if (kind == 4) r = attempt([&] { put(ret, c.insert(pk)); }); else r = attempt([&] { put(ret, c.insert(hint_at(c, h), pk)); }); }
                        else if (kind == 4) r = attempt([&] { put(ret, c.emplace(pk)); }); else r = attempt([&] { put(ret, c.emplace_hint(hint_at(c, h), pk)); });
                    }
                    else { if (kind == 4) r = attempt([&] { put(ret, c.emplace(pk)); }); else r = attempt([&] { put(ret, c.emplace_hint(hint_at(c, h), pk)); }); }
                    if (add) PBT_LABEL(ctx, "insert of what a view of an own element yields");
                }
            }
            if (r == R_OK) check_inserted(x, expect, ret.have, ret.flag, ret.it, p, cat, "insert of an own element");
            PBT_LABEL(ctx, "aliasing argument");
            may_construct = kind >= 2;
            finish(k, r, want, false, pr, expect, n + (expect ? 1 : 0), d);
            return;
        }
        case ALIAS_ERASE:
        {
            if (n == 0) return;
            const std::size_t i = a % n;
            tag("erase own key"); ctx.log(" (%zu of %zu)\n", i, n); ctx.mix(n * 64 + i);
            const int kv = x.m[i].k;
            want.erase(std::remove_if(want.begin(), want.end(), [&](const P& p) { return ok(x, p.k) == ok(x, kv); }), want.end());
            const std::size_t cnt = n - want.size();
            cat = ALIAS;
            Pre pr = pre(x);
            std::size_t ret = 0;
            Res r;
            const C& cc = c;
            if constexpr (peek && transparent && (ordered || !multi)) // known finding: the others
                if (e & 2)
                {
                    r = attempt([&] { ret = c.erase(Peek<Key>{&keyof(*cc.nth(i)), 0}); });
                    if (r == R_OK && ret != cnt) ctx.fail(ALIAS, "erase(view of the key of element %zu) returned %zu, the model removes %zu", i, ret, cnt);
                    if (cnt) removed_seen = true;
                    PBT_LABEL(ctx, "erase of what a view of an own element yields");
                    finish(k, r, want, false, pr, false, 0, d);
                    return;
                }
            if (is_map && (e & 1)) r = attempt([&] { ret = c.erase(keyof_mut(*c.nth(i))); });
            else r = attempt([&] { ret = c.erase(keyof(*cc.nth(i))); });
            if (r == R_OK && ret != cnt) ctx.fail(ALIAS, "erase(key of element %zu) returned %zu, the model removes %zu", i, ret, cnt);
            PBT_LABEL(ctx, "aliasing argument");
            if (cnt) removed_seen = true;
            finish(k, r, want, false, pr, false, 0, d);
            return;
        }
        case ALIAS_MAP:
            if constexpr (umap && cp)
            {
                if (n == 0 || room(x.m) < 1) return;
                const std::size_t i = a % n, i2 = b % n;
                const int kv = newkey(d);
                u32 kind = e % 6;
                if (kind >= 3 && !(peek && transparent)) kind -= 3;
                tag("own key or mapped as argument"); ctx.log(" (%zu, %zu, key %d, kind %u)\n", i, i2, kv, kind); ctx.mix((n * 64 + i) * 64 + i2);
                cat = ALIAS;
                Pre pr = pre(x);
                Res r;
                const C& cc = c;
                bool expect = false;
                if (kind == 0) { want[i].m = x.m[i2].m; r = attempt([&] { c.insert_or_assign(cc.nth(i)->first, cc.nth(i2)->second); }); }
                else if (kind == 1)
                {
                    const std::size_t at = locate(want, x.mode, kv);
                    expect = at == n;
                    if (expect) want.push_back(P{kv, x.m[i2].m}); else want[at].m = x.m[i2].m;
                    const Key key(kv);
                    r = attempt([&] { c.insert_or_assign(key, cc.nth(i2)->second); });
                }
                else if (kind >= 3)
                {
                    // views of own keys and mapped values
                    const int add = int(f % 3);
                    const P p{x.m[i].k + add, x.m[i2].m};
                    if constexpr (peek && transparent)
                    {
                        const Peek<Key> pk{&cc.nth(i)->first, add}; const Peek<Map> pm{&cc.nth(i2)->second, 0};
                        if (kind == 3)
                        {
                            const std::size_t at = locate(want, x.mode, p.k);
                            expect = at == n;
                            if (expect) want.push_back(p); else want[at].m = p.m;
                            r = attempt([&] { c.insert_or_assign(pk, pm); });
                        }
                        else if (kind == 4) { expect = model_insert(want, x.mode, p); r = attempt([&] { c.try_emplace(pk, pm); }); }
                        else
                        {
                            const std::size_t h = pick_hint(x, p.k, b);
                            expect = model_insert(want, x.mode, p);
                            r = attempt([&] { c.try_emplace(hint_at(c, h), pk, pm); });
                        }
                        PBT_LABEL(ctx, "key and mapped value seen through views of own elements");
                    }
                }
                else
                {
                    expect = model_insert(want, x.mode, P{kv, x.m[i2].m});
                    const Key key(kv);
                    r = attempt([&] { c.try_emplace(key, cc.nth(i2)->second); });
                }
                PBT_LABEL(ctx, "aliasing argument");
                finish(k, r, want, false, pr, expect, n + expect, d);
            }
            return;
        case BULK:
        {
            const std::size_t q = std::min<std::size_t>(room(x.m), 4 + size_limit / 2);
            if (!q) return;
            const V vals = newelems(u32(q), d);
            tag("bulk emplace"); ctx.log(" (%zu:", q); for (auto& p : vals) ctx.log(" {%d,%d}", p.k, p.m); ctx.log(")\n"); ctx.mix(n * 64 + q);
            Pre pr = pre(x);
            V w = x.m;
            Res r = attempt([&] {
                for (auto& p : vals)
                {
                    if constexpr (is_map) c.emplace(Src{p.k}, Src{p.m}); else c.emplace(p.k);
                    model_insert(w, x.mode, p);
                }
            });
            if (r != R_OK)
            {
                if (r == R_LEN && w.size() + 1 <= c.max_size()) ctx.fail(ERRS, "length_error although the size does not exceed max_size()");
                const bool limit_hit = r == R_LEN;
                x.m = w; // order is re-read below
                resync(x, true);
                V g1 = x.m, g2 = w;
                std::sort(g1.begin(), g1.end()); std::sort(g2.begin(), g2.end());
                if (limit_hit && g1 != g2) ctx.fail(ERRS, "a refused insertion changed the contents");
                if (limit_hit) { PBT_LABEL(ctx, "length_error"); verify(k, a); } else fault(k, false, pr);
                return;
            }
            // O(log n) reallocations
            const u64 al = g.alloc - pr.allocs;
            if (al > 4 + 2 * lg(w.size()) + (pr.cap < 8 ? 4u : 0u)) ctx.fail(CPLX, "%zu single insertions into %zu elements reallocated %llu times", q, n, (unsigned long long)al);
            finish(k, r, w, false, pr, true, w.size(), a);
            return;
        }
        }
    }
    static Key& keyof_mut(T& t) { if constexpr (is_map) return t.first; else return t; }
    static const Key& keyof_mut(const T& t) { return keyof(t); }

    int alloc_now(Slot& x, int before, int other)
    {
        if constexpr (tal)
        {
            const int id = x.c().get_allocator().id;
            if (eff(id) != eff(before) && eff(id) != eff(other)) ctx.fail(ALLOC, "after a failed assignment get_allocator() is neither the old nor the new allocator");
            return id;
        }
        else return before + 0 * other + 0 * int(x.m.size());
    }
    void taken_over(Slot& x, const Pre& py, const char* what)
    {
        C& c = x.c();
        if (c.size() != py.refs.size()) ctx.fail(COPY, "%s: size() is %zu, expected %zu", what, std::size_t(c.size()), py.refs.size());
        std::size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
            if (static_cast<const void*>(&*it) != py.refs[i].first) ctx.fail(REF, "%s: elements were relocated although the storage can be taken over", what);
        if (!py.refs.empty()) PBT_LABEL(ctx, "storage taken over");
    }
    void strong_storage(Slot& x, const Pre& p, const char* what)
    {
        C& c = x.c();
        if (c.capacity() != p.cap) ctx.fail(STRONG, "%s failed by exception but changed the capacity from %zu to %zu", what, p.cap, std::size_t(c.capacity()));
        if (static_cast<const C&>(c).data() != p.data) ctx.fail(STRONG, "%s failed by exception but changed the storage", what);
    }
    void ctor_done(int k, Res r, const V& want, int na, int md, u64 al0, u32 rnd)
    {
        Slot& x = s[k];
        if (r == R_OK)
        {
            x.box.alive = true; x.aid = na; x.mode = md; x.limbo = false;
            x.m = want;
            const Cat kk = cat;
            cat_keeps_order = false;
            check_want(x, want, kk, "constructed container");
            if (small && want.size() <= N && x.c().capacity() <= N && g.alloc != al0) ctx.fail(CAP, "construction of %zu elements allocated memory although N is %zu", want.size(), N);
            if (is_static && (g.alloc != al0 || news_delta)) ctx.fail(CAP, "construction of a static container allocated memory");
            verify(k, rnd);
            return;
        }
        if (r == R_LEN)
        {
            const std::size_t mx = maxsz ? std::max(maxsz, N) : std::size_t(-1);
            if (want.size() <= mx) ctx.fail(ERRS, "length_error from construction of %zu elements", want.size());
            PBT_LABEL(ctx, "length_error");
        }
        if (r == R_FAULT) { PBT_LABEL(ctx, "fault fired"); PBT_LABEL(ctx, "fault in constructor"); ctx.nontrivial = true; }
        x.box.alive = false;
        x.box.check();
        check_live();
        x.box.prepare();
        fresh(k, na, md);
        cat = COPY;
        verify(k, rnd);
    }
    void fresh(int k, int na, int md)
    {
        Slot& x = s[k];
        x.m.clear(); x.limbo = false; x.mode = md;
        if constexpr (tal) ::new (static_cast<void*>(x.box.mem)) C(Cmp(md), Al(na)); else ::new (static_cast<void*>(x.box.mem)) C(Cmp(md));
        x.box.alive = true; x.aid = tal ? na : 0;
    }
    void construct(int k, const Row& row)
    {
        const u32 a = row.c[2], b = row.c[3], d = row.c[4], e = row.c[5], f = row.c[6];
        Slot& x = s[k];
        const bool with_a = tal && (f & 1), with_c = (f & 2) != 0;
        const int na = with_a ? pick_alloc(f / 4) : g.default_alloc_id;
        const int md = with_c ? int(f / 16 % 4) : 0;
        u32 kind = a % 3;
        if (!cp && kind == 2) kind = 1;
        std::size_t q = std::size_t(b) % (limit() + 1);
        if (kind == 2) q = il_size(b, limit());
        if (kind == 0) q = 0;
        const V vals = newelems(u32(q), d);
        V want;
        for (auto& p : vals) model_insert(want, md, p);
        static const char* const names[] = {"()", "(first, last)", "(ilist)"};
        ctx.log("  [%d] construct %s n %zu kind %u%s%s\n", k, names[kind], q, e % NR, with_c ? " comp" : "", with_a ? " alloc" : ""); for (auto& p : vals) ctx.log(" {%d,%d}", p.k, p.m);
        ctx.mix((u64(kind) * 64 + q) * 64 + e % NR * 8 + with_a * 2 + with_c); ++applied;
        x.box.kill(); x.m.clear(); x.limbo = false; x.box.prepare();
        void* mem = x.box.mem;
        const u64 al0 = g.alloc;
        cat = RANGE;
        auto mkc = [&](auto&&... args)
        {
            if constexpr (tal)
            {
                if (with_a && with_c) { ::new (mem) C(std::forward<decltype(args)>(args)..., Cmp(md), Al(na)); return; }
                if (with_a) { ::new (mem) C(std::forward<decltype(args)>(args)..., Al(na)); return; }
            }
            if (with_c) { ::new (mem) C(std::forward<decltype(args)>(args)..., Cmp(md)); return; }
            ::new (mem) C(std::forward<decltype(args)>(args)...);
        };
        Res r = R_OK;
        switch (kind)
        {
        case 0: cat = CONTENT; r = attempt([&] { mkc(); }); break;
        case 1: r = with_range(e, vals, [&](auto i1, auto i2) { mkc(i1, i2); }); break;
        default: r = with_il(vals, [&](std::initializer_list<T> il) { if constexpr (cp) mkc(il); }); break;
        }
        ctor_done(k, r, want, tal ? na : 0, md, al0, d);
    }
    void near_copy(int k, int j, const Row& row)
    {
        if constexpr (cp)
        {
            Slot& x = s[k]; Slot& y = s[j];
            if (maxsz) return;
            V m = y.m;
            const u32 h = row.c[6];
            if (!m.empty())
            {
                if (h % 4 == 1) { if (is_map) m[h / 4 % m.size()].m += 1; else m[h / 4 % m.size()].k += 1; }
                if (h % 4 == 2) m.pop_back();
            }
            // insert in another order so that unordered containers differ in layout
            if (h & 64) std::reverse(m.begin(), m.end());
            x.c().clear(); x.m.clear();
            V want;
            for (auto& p : m)
            {
                if (is_static && want.size() == N) break;
                if (model_insert(want, x.mode, p)) x.c().insert(mk(p));
            }
            cat_keeps_order = false;
            check_want(x, want, CONTENT, "container");
        }
    }
    void compare(Slot& x, Slot& y)
    {
        const C& p = x.c(); const C& q = y.c();
        cat = CMP;
        if constexpr (ordered)
        {
            bool r[6] = {};
            Res res = attempt([&] { r[0] = p == q; r[1] = p != q; r[2] = p < q; r[3] = p <= q; r[4] = p > q; r[5] = p >= q; });
            if (res == R_FAULT) { verify(-1, 0); return; }
            const bool w[6] = {x.m == y.m, x.m != y.m, x.m < y.m, !(y.m < x.m), y.m < x.m, !(x.m < y.m)};
            static const char* const nm[] = {"==", "!=", "<", "<=", ">", ">="};
            for (int i = 0; i < 6; ++i) if (r[i] != w[i]) ctx.fail(CMP, "operator%s is %d on containers of %zu and %zu elements, the model says %d", nm[i], r[i], x.m.size(), y.m.size(), w[i]);
        }
        else
        {
            bool r0 = false, r1 = false;
            Res res = attempt([&] { r0 = p == q; r1 = p != q; });
            if (res == R_FAULT) { verify(-1, 0); return; }
            V a = x.m, b = y.m;
            std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            if (r0 != (a == b)) ctx.fail(CMP, "operator== is %d on containers of %zu and %zu elements, the model says %d", r0, a.size(), b.size(), a == b);
            if (r1 != (a != b)) ctx.fail(CMP, "operator!= is %d on containers of %zu and %zu elements, the model says %d", r1, a.size(), b.size(), a != b);
            if (a == b && x.m != y.m) PBT_LABEL(ctx, "compared equal in different order");
        }
        if (x.m.size() == y.m.size() && !x.m.empty() && &x != &y) { PBT_LABEL(ctx, "compared same size non-empty"); ctx.nontrivial = true; }
        verify(-1, 0);
    }
    template <class Q> void bounds(Slot& x, const Q& key, int kv, bool wide, Cat k)
    {
        C& c = x.c(); const C& cc = c;
        const std::size_t n = x.m.size();
        auto cls = [&](const P& p) { const int u = ok(x, p.k), v = ok(x, kv); const int uu = wide ? block4(u) : u, vv = wide ? block4(v) : v; return uu < vv ? -1 : uu > vv ? 1 : 0; };
        std::size_t lb = 0, ub = 0, cnt = 0;
        for (auto& p : x.m) { const int q = cls(p); if (q < 0) ++lb; if (q <= 0) ++ub; if (q == 0) ++cnt; }
        const u64 log_b = 2 * lg(n) + 4;
        auto call = [&](const char* what, u64 bound, auto&& fn)
        {
            const u64 c0 = g.n[P_CMP];
            Res r = attempt(fn);
            if (r == R_OK && g.n[P_CMP] - c0 > bound) ctx.fail(CPLX, "%s used %llu comparisons on %zu elements", what, (unsigned long long)(g.n[P_CMP] - c0), n);
        };
        if constexpr (ordered)
        {
            call("lower_bound", log_b, [&] { if (c.index_of(c.lower_bound(key)) != lb) ctx.fail(k, "lower_bound(%d) is not %zu of %zu", kv, lb, n); });
            call("lower_bound", log_b, [&] { if (c.index_of(cc.lower_bound(key)) != lb) ctx.fail(k, "const lower_bound(%d) is not %zu of %zu", kv, lb, n); });
            call("upper_bound", log_b, [&] { if (c.index_of(c.upper_bound(key)) != ub) ctx.fail(k, "upper_bound(%d) is not %zu of %zu", kv, ub, n); });
            call("upper_bound", log_b, [&] { if (c.index_of(cc.upper_bound(key)) != ub) ctx.fail(k, "const upper_bound(%d) is not %zu of %zu", kv, ub, n); });
            call("equal_range", 2 * log_b, [&] { auto er = c.equal_range(key); if (c.index_of(er.first) != lb || c.index_of(er.second) != ub) ctx.fail(k, "equal_range(%d) is not [%zu, %zu)", kv, lb, ub); });
            call("equal_range", 2 * log_b, [&] { auto er = cc.equal_range(key); if (c.index_of(er.first) != lb || c.index_of(er.second) != ub) ctx.fail(k, "const equal_range(%d) is not [%zu, %zu)", kv, lb, ub); });
        }
        const u64 fb = ordered ? log_b : n + 2, cb = ordered ? (multi ? 2 * log_b : log_b) : n + 2;
        const std::size_t wantc = multi ? cnt : (cnt ? 1 : 0);
        auto chk = [&](auto it, auto end, const char* what)
        {
            if ((it == end) != (cnt == 0)) ctx.fail(k, "%s(%d) %s although %zu of %zu elements match", what, kv, it == end ? "returns end()" : "returns an element", cnt, n);
            if (cnt && cls(pv(*it)) != 0) ctx.fail(k, "%s(%d) returns an element with key %d", what, kv, pv(*it).k);
            if (cnt && c.index_of(it) >= n) ctx.fail(k, "%s(%d) returns an iterator outside the container", what, kv);
        };
        call("find", fb, [&] { chk(c.find(key), c.end(), "find"); });
        call("find", fb, [&] { chk(cc.find(key), cc.end(), "const find"); });
        call("count", cb, [&] { const std::size_t q = cc.count(key); if (q != wantc && !(wide && !multi && q > 0 && q <= cnt)) ctx.fail(k, "count(%d) is %zu, the model says %zu", kv, q, wantc); });
        call("contains", fb, [&] { if (cc.contains(key) != (cnt > 0)) ctx.fail(k, "contains(%d) is wrong, %zu of %zu elements match", kv, cnt, n); });
        if (cnt > 1) PBT_LABEL(ctx, "lookup with several matches");
        if (cnt == 0) PBT_LABEL(ctx, "lookup of an absent key"); else PBT_LABEL(ctx, "lookup of a present key");
    }
    void lookup(int k, const Row& row, bool het)
    {
        Slot& x = s[k];
        const std::size_t n = x.m.size();
        const u32 a = row.c[2], e = row.c[5];
        const int kv = (e & 1) && n ? x.m[a % n].k : newkey(a) - 1 + int(e / 2 % 3);
        if (het && !transparent) return;
        const bool wide = het && (e & 2);
        ctx.log("  [%d] lookup%s (%d) among %zu\n", k, het ? wide ? " wide" : " heterogeneous" : "", kv, n);
        ctx.mix(u64(LOOKUP) * 8 + u64(k)); ctx.mix(n * 64 + u64(kv + 2) * 4 + het * 2 + wide); ++applied;
        const Pre p = pre(x);
        cat = het ? HET : CONTENT;
        if (het)
        {
            if constexpr (transparent)
            {
                const u64 cons = g.n[P_VAL] + g.n[P_COPY] + g.n[P_MOVE];
                if (wide) { const HetR key{kv}; bounds(x, key, kv, true, HET); }
                else { const Het key{kv}; bounds(x, key, kv, false, HET); }
                if (g.n[P_VAL] + g.n[P_COPY] + g.n[P_MOVE] != cons) ctx.fail(HET, "a heterogeneous lookup constructed elements");
            }
        }
        else { const Key key(kv); const u64 cons = g.n[P_VAL] + g.n[P_COPY] + g.n[P_MOVE]; bounds(x, key, kv, false, CONTENT); if (g.n[P_VAL] + g.n[P_COPY] + g.n[P_MOVE] != cons) ctx.fail(CPLX, "a lookup constructed elements"); }
        if (g.alloc != p.allocs) ctx.fail(CAP, "a lookup allocated memory");
        verify(k, row.c[6]);
    }
    void iterators(int k, const Row& row)
    {
        Slot& x = s[k];
        C& c = x.c(); const C& cc = c;
        const std::ptrdiff_t n = std::ptrdiff_t(x.m.size());
        const std::ptrdiff_t i = std::ptrdiff_t(row.c[2] % u32(n + 1)), j = std::ptrdiff_t(row.c[3] % u32(n + 1));
        using It1 = typename C::iterator; using It2 = typename C::const_iterator;
#define ITCHK(cond) do { if (!(cond)) ctx.fail(ITER, "iterator law broken: %s (i=%td, j=%td, n=%td)", #cond, i, j, n); } while (0)
        It1 b = c.begin(), e = c.end(), ii = b + i, jj = b + j;
        It2 cb = cc.begin(), ce = c.cend(), ci = ii, cj = cc.nth(std::size_t(j));
        ITCHK(e - b == n); ITCHK(b + n == e); ITCHK(ce - cb == n); ITCHK(c.cbegin() == cb); ITCHK(cc.end() == ce);
        ITCHK(jj - ii == j - i); ITCHK(ii + (j - i) == jj); ITCHK(jj - (j - i) == ii); ITCHK((j - i) + ii == jj);
        ITCHK((ii == jj) == (i == j)); ITCHK((ii != jj) == (i != j)); ITCHK((ii < jj) == (i < j)); ITCHK((ii <= jj) == (i <= j)); ITCHK((ii > jj) == (i > j)); ITCHK((ii >= jj) == (i >= j));
        ITCHK((ci == cj) == (i == j)); ITCHK((ci < cj) == (i < j)); ITCHK(ii == ci); ITCHK(ci == ii); ITCHK(cj - ii == j - i); ITCHK((ii < cj) == (i < j));
        ITCHK(std::ptrdiff_t(c.index_of(ii)) == i); ITCHK(c.nth(std::size_t(i)) == ii); ITCHK(cc.nth(std::size_t(j)) == cj);
        if (i < n)
        {
            ITCHK(pv(*ii) == x.m[std::size_t(i)]); ITCHK(ii.operator->() == &*ii); ITCHK(&*ii == cc.data() + i); ITCHK(c.data() == cc.data());
            It1 t = ii; It1 o = t++; ITCHK(o == ii); ITCHK(t == b + (i + 1)); o = t--; ITCHK(o == b + (i + 1)); ITCHK(t == ii);
            It2 u = ci; u++; ITCHK(u == cb + (i + 1)); --u; ITCHK(u == ci);
        }
        if (j < n) { ITCHK(pv(ii[j - i]) == x.m[std::size_t(j)]); ITCHK(&b[j] == &*jj); }
        { It1 t = b; std::ptrdiff_t q = 0; for (; t != e; ++t, ++q) { ITCHK(q < n); ITCHK(t == b + q); } ITCHK(q == n); for (; t != b; ) { --t; --q; ITCHK(t == b + q); } }
        if constexpr (ordered)
        {
            std::ptrdiff_t q = n; for (auto r = c.rbegin(); r != c.rend(); ++r) { --q; ITCHK(q >= 0); ITCHK(pv(*r) == x.m[std::size_t(q)]); } ITCHK(q == 0);
            ITCHK(c.rend() - c.rbegin() == n); ITCHK(cc.crend() - cc.crbegin() == n); ITCHK(cc.rbegin() == c.crbegin()); ITCHK(c.rbegin().base() == c.end());
        }
        {
            // value-initialized iterators: the end of one and the same empty range
            It1 z1 = It1(), z2 = It1(); It2 z3 = It2(), z4 = z1;
            ITCHK(z1 == z2); ITCHK(!(z1 != z2)); ITCHK(!(z1 < z2)); ITCHK(z1 <= z2); ITCHK(!(z1 > z2)); ITCHK(z1 >= z2); ITCHK(z1 - z2 == 0); ITCHK(z1 + 0 == z2); ITCHK(z1 - 0 == z2); ITCHK((z1 += 0) == z2);
            ITCHK(z3 == z4); ITCHK(z3 == z1); ITCHK(z4 - z3 == 0); ITCHK(z3 - z1 == 0); ITCHK(std::distance(z3, z4) == 0); ITCHK(std::next(z3, 0) == z4);
        }
#undef ITCHK
        // the library's own iterators as a source range
        if constexpr (cp) if (row.c[5] % 4 == 1 && !maxsz)
        {
            const std::ptrdiff_t lo = std::min(i, j), hi = std::max(i, j);
            Slot& y = s[(row.c[1] + 1) % S];
            normalise(y);
            if (room(y.m) >= std::size_t(hi - lo))
            {
                V want = y.m;
                for (std::ptrdiff_t q = lo; q < hi; ++q) model_insert(want, y.mode, x.m[std::size_t(q)]);
                y.c().insert(cb + lo, cb + hi);
                cat_keeps_order = true;
                check_want(y, want, ITER, "insert from the iterators of another container");
                cat_keeps_order = false;
            }
        }
        if (n > 1) { ctx.nontrivial = true; PBT_LABEL(ctx, "iterator algebra on >1 elements"); }
        verify(k, row.c[6]);
    }
    void length_errors(int k, const Row& row)
    {
        if constexpr (tal)
        {
            Slot& x = s[k];
            C& c = x.c();
            const std::size_t mx = c.max_size();
            static const std::size_t off[] = {1, 2, 100};
            std::size_t q = row.c[3] % 4 == 3 ? std::size_t(-1) : mx + off[row.c[3] % 3];
            ctx.log("  [%d] reserve(%zu), max_size %zu\n", k, q, mx);
            ctx.mix(u64(LENGTH) * 8 + row.c[3] % 8); ++applied;
            cat = ERRS;
            Pre p = pre(x);
            bool thrown = false;
            try { c.reserve(q); }
            catch (const std::length_error&) { thrown = true; PBT_LABEL(ctx, "length_error"); }
            catch (const std::bad_alloc&) { ctx.fail(ERRS, "bad_alloc instead of length_error for reserve(%zu) with max_size() %zu", q, mx); }
            if (!thrown) ctx.fail(ERRS, "no length_error for reserve(%zu) with max_size() %zu", q, mx);
            if (c.capacity() != p.cap) ctx.fail(ERRS, "a refused request changed the capacity");
            verify(k, row.c[5]);
        }
        else (void)k, (void)row;
    }

    // A container of a chosen size and storage: no more elements than N on the heap, exactly N, one more, full.
    void layout(int k, u32 seed)
    {
        Rng r(seed);
        Row w{};
        w.c[1] = u32(k);
        if (small && r.next() % 2) { w.c[3] = u32(N + 1 + (r.next() % 2 ? 0 : r.next() % 6)); step(w, RESERVE); }
        const u64 pick = r.next() % 4;
        const std::size_t q = pick == 0 ? N : pick == 1 ? N + 1 : std::size_t(r.next() % (N + 6));
        // some more attempts, because keys may be rejected
        for (std::size_t i = 0; i < 2 * q && s[k].m.size() < q; ++i)
        {
            for (int j = 2; j < 8; ++j) w.c[j] = u32(r.next());
            step(w, EMPLACE);
        }
    }

    // ---- whole case ------------------------------------------------------------------
    void run()
    {
        g.reset();
        const Row r0 = cs.rows.empty() ? Row{} : cs.rows[0];
        static const u32 lims[] = {6, 12, 24, 48, 64, 16, 9, 33};
        size_limit = lims[r0.c[1] % 8];
        static const int doms[] = {6, 12, 20, 40, 60, 12, 60, 3};
        domain = doms[r0.c[2] % 8];
        static const unsigned char fills[] = {0x00, 0xA5, 0xFF};
        g.fill = fills[r0.c[3] % 3];
        g.default_alloc_id = tal ? int(r0.c[4] % 3) : 0;
        g.relax_cons = small && (props & (POCS | POCMA));
        u64 keep = ~0ull;
        if (r0.c[5] % 2) { Rng rr(r0.c[5]); keep = rr.next() | rr.next(); }
        if (tal && ctx.profile == PR_ERR && r0.c[6] % 2) { static const std::size_t mxs[] = {5, 20, 50, 2}; maxsz = mxs[r0.c[6] / 2 % 4]; }
        ctx.log("config: size limit %u, key domain %d, fill 0x%02x, allocator max_size %zu\n", size_limit, domain, g.fill, maxsz);
        ctx.mix(size_limit * 64 + u64(domain));
        if (maxsz) g.alloc_max = maxsz;
        const bool eqal = r0.c[7] % 2;
        const int m0 = int(r0.c[7] / 2 % 4);
        for (int i = 0; i < S; ++i)
        {
            s[i].box.prepare();
            fresh(i, eqal ? 1 : 1 + i, i == 0 ? m0 : r0.c[7] / 8 % 2 ? m0 : int(r0.c[7] / 16 % 4));
        }
        ctx.cur_row = 0;
        if (ctx.profile == PR_INSERT) layout(0, r0.c[0]);
        if (ctx.profile == PR_COPYL) for (int i = 0; i < S; ++i) layout(i, r0.c[0] + u32(i) * 7919u);
        for (std::size_t i = 1; i < cs.rows.size(); ++i)
        {
            ctx.cur_row = int(i);
            const Op op = ops[cs.rows[i].c[0] % ops.size()];
            if (!(keep >> (unsigned(op) % 64) & 1) && int(i) != ctx.fault_row) continue;
            g.fired = false;
            step(cs.rows[i]);
            if (ctx.fault_row == int(i) && !ctx.fault_fired) break;
        }
        ctx.cur_row = int(cs.rows.size());
        for (auto& x : s) x.box.kill();
        g.end_case();
        if (heap_seen) PBT_LABEL(ctx, "case with heap storage");
        if (removed_seen) PBT_LABEL(ctx, "case with removal");
        if (dup_seen) PBT_LABEL(ctx, "case with duplicate key");
        if (mid_seen) PBT_LABEL(ctx, "case with middle insertion");
        PBT_LABEL(ctx, "cases");
        if (!(ctx.fault_row >= 0) && applied >= 3 && (dup_seen || multi || mid_seen) && (removed_seen || heap_seen || is_static)) ctx.nontrivial = true;
    }
};

template <class C> void run_assoc(const Case& c, Ctx& x)
{
    Machine<C> m(c, x);
    m.run();
}

#define ASSOC(name, ...) static ::pbt::Register PBT_ACAT(areg_, __COUNTER__)(name, ::assoc::Info<__VA_ARGS__>::fam, 0, &::assoc::run_assoc<__VA_ARGS__>)
#define PBT_ACAT2(a, b) a##b
#define PBT_ACAT(a, b) PBT_ACAT2(a, b)

} // namespace assoc
