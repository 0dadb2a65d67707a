// Instrumented element types, comparators, iterators and allocators. They turn
// what a container does to its elements, allocator and functors into
// observable facts (live objects, fault points, operation counts).
#pragma once
#include "pbt.hpp"
#include <cstddef>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace ob
{

using pbt::u32; using pbt::u64; using pbt::i64;

struct Fault { int kind; };

enum Pt { P_DEF, P_VAL, P_COPY, P_MOVE, P_CASSIGN, P_MASSIGN, P_ALLOC, P_CMP, P_ITER, P_PRED, P_COUNT };

// ---- registry of live objects -------------------------------------------------
struct Entry { const void* p; u32 epoch; u32 serial; int cons; }; // cons: allocator id that constructed it, -1: none

struct Registry
{
    static constexpr u32 CAP = 1u << 16;
    Entry* t;
    u32 epoch = 1, live = 0, serial = 0;
    Registry() : t(static_cast<Entry*>(std::calloc(CAP, sizeof(Entry)))) {}
    static u32 h(const void* p) { u64 x = reinterpret_cast<u64>(p) >> 3; x *= 0x9E3779B97F4A7C15ull; return u32(x >> 48); }
    void reset()
    {
        if (live) { ++epoch; } else ++epoch;
        live = 0; serial = 0;
    }
    Entry* find(const void* p)
    {
        for (u32 i = h(p); ; i = (i + 1) & (CAP - 1))
        {
            Entry& e = t[i];
            if (e.epoch != epoch) return nullptr;
            if (e.p == p) return &e;
        }
    }
    bool insert(const void* p) // false if already live
    {
        if (live > CAP / 2) pbt::g_ctx->fail(pbt::CRASH, "runaway: more than %u live objects", CAP / 2);
        for (u32 i = h(p); ; i = (i + 1) & (CAP - 1))
        {
            Entry& e = t[i];
            if (e.epoch != epoch) { e.p = p; e.epoch = epoch; e.serial = ++serial; e.cons = -1; ++live; return true; }
            if (e.p == p) return false;
        }
    }
    bool erase(const void* p)
    {
        u32 i = h(p);
        for (;; i = (i + 1) & (CAP - 1))
        {
            Entry& e = t[i];
            if (e.epoch != epoch) return false;
            if (e.p == p) break;
        }
        --live;
        u32 j = i;
        for (;;)
        {
            t[i].epoch = epoch - 1;
            for (;;)
            {
                j = (j + 1) & (CAP - 1);
                if (t[j].epoch != epoch) return true;
                u32 k = h(t[j].p);
                if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
                break;
            }
            t[i] = t[j];
            i = j;
        }
    }
};

struct Block { char* raw; char* user; std::size_t bytes, n, esize; int id; };

struct G
{
    Registry reg;
    // faults
    bool armed = false, fired = false;
    int fired_kind = -1;
    u32 fmask = ~0u;
    u64 left = 0;
    // counters
    u64 n[P_COUNT];
    u64 dtor = 0, alloc = 0, dealloc = 0, alloc_bytes = 0, work = 0, work_limit = 20000000ull, copies_total = 0;
    // allocator
    std::size_t alloc_max = std::size_t(PTRDIFF_MAX);
    int default_alloc_id = 0;
    bool relax_cons = false;
    std::unordered_map<const void*, Block> blocks;
    std::vector<Block> quarantine;
    std::size_t qbytes = 0, live_bytes = 0, max_live_bytes = 0;
    unsigned char fill = 0xA5;

    void reset();
    void end_case();
    u64 moves() const { return n[P_MOVE] + n[P_MASSIGN]; }
    u64 copies() const { return n[P_COPY] + n[P_CASSIGN]; }
    u64 elem_ops() const { return n[P_DEF] + n[P_VAL] + n[P_COPY] + n[P_MOVE] + n[P_CASSIGN] + n[P_MASSIGN] + dtor; }
};
extern G g;

inline void point(Pt k)
{
    ++g.n[k];
    if (++g.work > g.work_limit) pbt::g_ctx->fail(pbt::CRASH, "runaway: more than %llu element operations in one case", (unsigned long long)g.work_limit);
    if (g.armed && (g.fmask >> k & 1u))
        if (--g.left == 0) { g.armed = false; g.fired = true; g.fired_kind = k; throw Fault{int(k)}; }
}

constexpr int MOVED = -7777;
constexpr int DEAD = -5555;

struct Src { int v; operator int() const { return v; } };  // converts to elements

enum ObFlags : u32 { NT_MOVE = 1, NO_COPY = 2, NO_MOVE = 4, WIDE = 8 };

template <u32 F>
struct alignas((F & WIDE) ? 64 : 8) Ob
{
    static constexpr bool nt_move = (F & NT_MOVE) != 0;
    int v;
    int tag;
    const void* self;

    void born()
    {
        self = this;
        if (reinterpret_cast<std::uintptr_t>(this) % alignof(Ob) != 0) pbt::g_ctx->fail(pbt::LIFE, "object constructed at misaligned address");
        if (!g.reg.insert(this)) pbt::g_ctx->fail(pbt::LIFE, "object constructed over a live object (value %d)", v);
    }
    void live(const char* what) const
    {
        if (!g.reg.find(this)) pbt::g_ctx->fail(pbt::LIFE, "%s an object that is not alive", what);
        if (self != this) pbt::g_ctx->fail(pbt::LIFE, "%s an object that was relocated bitwise", what);
    }

    Ob() : v(0), tag(0) { point(P_DEF); born(); }
    explicit Ob(int x, int t = 0) : v(x), tag(t) { point(P_VAL); born(); }
    Ob(const Src& s) : v(s.v), tag(0) { point(P_VAL); born(); }
    Ob(const Ob& o) : v(0), tag(0)
    {
        o.live("copying from");
        point(P_COPY);
        v = o.v; tag = o.tag;
        born();
    }
    Ob(Ob&& o) noexcept(nt_move) : v(0), tag(0)
    {
        o.live("moving from");
        if constexpr (nt_move) ++g.n[P_MOVE]; else point(P_MOVE);
        v = o.v; tag = o.tag;
        o.v = MOVED;
        born();
    }
    Ob& operator=(const Ob& o)
    {
        live("assigning to"); o.live("assigning from");
        point(P_CASSIGN);
        v = o.v; tag = o.tag;
        return *this;
    }
    Ob& operator=(Ob&& o) noexcept(nt_move)
    {
        live("move-assigning to"); o.live("move-assigning from");
        if constexpr (nt_move) ++g.n[P_MASSIGN]; else point(P_MASSIGN);
        v = o.v; tag = o.tag;
        if (this != &o) o.v = MOVED;
        return *this;
    }
    Ob& operator=(const Src& s)
    {
        live("assigning to");
        point(P_CASSIGN);
        v = s.v; tag = 0;
        return *this;
    }
    ~Ob()
    {
        ++g.dtor;
        if (!g.reg.erase(this)) pbt::g_ctx->fail(pbt::LIFE, "destroying an object that is not alive (double destruction or never constructed)");
        v = DEAD; self = nullptr;
    }
};

// Move-only.
template <u32 F>
struct MoveOnly
{
    Ob<F> o;
    MoveOnly() : o() {}
    explicit MoveOnly(int x, int t = 0) : o(x, t) {}
    MoveOnly(const Src& s) : o(s) {}
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
    MoveOnly(const MoveOnly&) = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly& operator=(const Src& s) { o = s; return *this; }
};

// Copy-only: no move operations are declared, so rvalues are copied.
struct CopyOnly
{
    Ob<0> o;
    CopyOnly() : o() {}
    explicit CopyOnly(int x, int t = 0) : o(x, t) {}
    CopyOnly(const Src& s) : o(s) {}
    CopyOnly(const CopyOnly& c) : o(c.o) {}
    CopyOnly& operator=(const CopyOnly& c) { o = c.o; return *this; }
    CopyOnly& operator=(const Src& s) { o = s; return *this; }
};

// Trivially copyable; default-initialisation leaves it indeterminate,
// value-initialisation zeroes it.
struct Tc
{
    int v;
    int tag;
    Tc() = default;
    explicit Tc(int x, int t = 0) : v(x), tag(t) {}
    Tc(const Src& s) : v(s.v), tag(0) {}
};

using ObT = Ob<0>;          // throwing copy and move
using ObN = Ob<NT_MOVE>;    // throwing copy, nothrow move
using ObW = Ob<NT_MOVE | WIDE>;
using ObMo = MoveOnly<NT_MOVE>;
using ObMoT = MoveOnly<0>;

template <u32 F> int val(const Ob<F>& o) { o.live("reading"); return o.v; }
template <u32 F> int val(const MoveOnly<F>& o) { return val(o.o); }
inline int val(const CopyOnly& o) { return val(o.o); }
inline int val(const Tc& o) { return o.v; }
inline int val(int o) { return o; }
template <u32 F> int tagof(const Ob<F>& o) { return o.tag; }
template <u32 F> int tagof(const MoveOnly<F>& o) { return o.o.tag; }
inline int tagof(const CopyOnly& o) { return o.o.tag; }
inline int tagof(const Tc& o) { return o.tag; }
inline int tagof(int) { return 0; }
template <u32 F> const void* regaddr(const Ob<F>& o) { return &o; }
template <u32 F> const void* regaddr(const MoveOnly<F>& o) { return &o.o; }
inline const void* regaddr(const CopyOnly& o) { return &o.o; }
inline const void* regaddr(const Tc&) { return nullptr; }
inline const void* regaddr(const int&) { return nullptr; }
inline int val(const Src& s) { return s.v; }

template <class T> struct El { static constexpr int tracked = 0; static constexpr bool copyable = true, nt_move = true, throwing = false; };
template <u32 F> struct El<Ob<F>> { static constexpr int tracked = 1; static constexpr bool copyable = true, nt_move = F & NT_MOVE, throwing = true; };
template <u32 F> struct El<MoveOnly<F>> { static constexpr int tracked = 1; static constexpr bool copyable = false, nt_move = F & NT_MOVE, throwing = true; };
template <> struct El<CopyOnly> { static constexpr int tracked = 1; static constexpr bool copyable = true, nt_move = false, throwing = true; };
template <class A, class B> struct El<std::pair<A, B>>
{
    static constexpr int tracked = El<A>::tracked + El<B>::tracked;
    static constexpr bool copyable = El<A>::copyable && El<B>::copyable, nt_move = El<A>::nt_move && El<B>::nt_move, throwing = El<A>::throwing || El<B>::throwing;
};
template <class A, class B> int val(const std::pair<A, B>& p) { return val(p.first); }
template <class A, class B> const void* regaddr(const std::pair<A, B>& p) { const void* a = regaddr(p.first); return a ? a : regaddr(p.second); }

template <class T> struct is_ob : std::false_type {};
template <u32 F> struct is_ob<Ob<F>> : std::true_type {};
template <u32 F> struct is_ob<MoveOnly<F>> : std::true_type {};
template <> struct is_ob<CopyOnly> : std::true_type {};
template <> struct is_ob<Tc> : std::true_type {};

template <class T, class = std::enable_if_t<is_ob<T>::value>> bool operator==(const T& a, const T& b) { point(P_CMP); return val(a) == val(b); }
template <class T, class = std::enable_if_t<is_ob<T>::value>> bool operator!=(const T& a, const T& b) { point(P_CMP); return val(a) != val(b); }
template <class T, class = std::enable_if_t<is_ob<T>::value>> bool operator<(const T& a, const T& b) { point(P_CMP); return val(a) < val(b); }
template <class T, class = std::enable_if_t<is_ob<T>::value>> bool operator==(const T& a, const Src& b) { point(P_CMP); return val(a) == b.v; }
template <class T, class = std::enable_if_t<is_ob<T>::value>> bool operator==(const Src& b, const T& a) { point(P_CMP); return val(a) == b.v; }

// ---- comparators ----------------------------------------------------------------
inline int ordkey(int mode, int v)
{
    switch (mode & 3)
    {
    case 0: return v;
    case 1: return -v;
    case 2: return (v >= 0 ? v : v - 2) / 3;
    default: return (v * 7) & 63;
    }
}

// Heterogeneous key: counts as equal to any element of the same value. Not
// convertible to an element.
struct Het { int v; };

// Matches every key of its block of four ordinals.
struct HetR { int v; };
inline int block4(int x) { return x >= 0 ? x / 4 : -((-x + 3) / 4); }

// The state of a comparator; one that was moved from must not be used.
struct Mode
{
    int mode; // 0 only if value-initialized
    Mode() = default;
    explicit Mode(int m) : mode(m) {}
    Mode(const Mode&) = default;
    Mode& operator=(const Mode&) = default;
    Mode(Mode&& o) noexcept : mode(o.mode) { o.mode = GONE; }
    Mode& operator=(Mode&& o) noexcept { const int m = o.mode; o.mode = GONE; mode = m; return *this; }
    enum { GONE = -99 };
    int use() const { if (mode == GONE) pbt::g_ctx->fail(pbt::STATE, "a comparator or key_equal that was moved from is used"); return mode; }
};

template <bool Transparent> struct Less;
template <> struct Less<false> : Mode
{
    Less() = default;
    explicit Less(int m) : Mode(m) {}
    template <class K> bool operator()(const K& a, const K& b) const { point(P_CMP); return ordkey(use(), val(a)) < ordkey(use(), val(b)); }
};
inline int val(const Het& h) { return h.v; }

// Looks at an element of a container: its value is read when it is used, not when it is made (as with a string_view of an element).
template <class K> struct Peek { const K* p; int add; operator Src() const { return Src{val(*p) + add}; } };
template <class K> int val(const Peek<K>& x) { return val(*x.p) + x.add; }
template <> struct Less<true> : Mode
{
    using is_transparent = void;
    Less() = default;
    explicit Less(int m) : Mode(m) {}
    template <class A, class B> bool operator()(const A& a, const B& b) const { point(P_CMP); return ordkey(use(), val(a)) < ordkey(use(), val(b)); }
    template <class A> bool operator()(const A& a, const HetR& b) const { point(P_CMP); return block4(ordkey(use(), val(a))) < block4(ordkey(use(), b.v)); }
    template <class B> bool operator()(const HetR& a, const B& b) const { point(P_CMP); return block4(ordkey(use(), a.v)) < block4(ordkey(use(), val(b))); }
};
template <bool Transparent> struct Eq;
template <> struct Eq<false> : Mode
{
    Eq() = default;
    explicit Eq(int m) : Mode(m) {}
    template <class K> bool operator()(const K& a, const K& b) const { point(P_CMP); return ordkey(use(), val(a)) == ordkey(use(), val(b)); }
};
template <> struct Eq<true> : Mode
{
    using is_transparent = void;
    Eq() = default;
    explicit Eq(int m) : Mode(m) {}
    template <class A, class B> bool operator()(const A& a, const B& b) const { point(P_CMP); return ordkey(use(), val(a)) == ordkey(use(), val(b)); }
    template <class A> bool operator()(const A& a, const HetR& b) const { point(P_CMP); return block4(ordkey(use(), val(a))) == block4(ordkey(use(), b.v)); }
    template <class B> bool operator()(const HetR& a, const B& b) const { point(P_CMP); return block4(ordkey(use(), a.v)) == block4(ordkey(use(), val(b))); }
};

// ---- allocator --------------------------------------------------------------------
constexpr std::size_t RZ = 64;
void* track_alloc(std::size_t n, std::size_t esize, std::size_t align, int id);
void track_dealloc(void* p, std::size_t n, std::size_t esize, int id);
void mark_constructed(const void* p, std::size_t bytes, int id);
void check_destroyed_by(const void* p, std::size_t bytes, int id);

template <class T> class FP // fancy pointer
{
    T* p_;
public:
    using element_type = T; using difference_type = std::ptrdiff_t; using value_type = std::remove_cv_t<T>;
    using pointer = T*; using reference = T&; using iterator_category = std::random_access_iterator_tag;
    FP() = default; // null if value-initialized
    FP(std::nullptr_t) noexcept : p_(nullptr) {}
    template <class U = T, std::enable_if_t<std::is_const<U>::value>* = nullptr> FP(const FP<std::remove_const_t<T>>& o) noexcept : p_(o.operator->()) {}
    static FP pointer_to(T& r) noexcept { FP f; f.p_ = &r; return f; }
    static FP from(T* p) noexcept { FP f; f.p_ = p; return f; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    T& operator*() const noexcept { return *p_; }
    T* operator->() const noexcept { return p_; }
    T& operator[](difference_type n) const noexcept { return p_[n]; }
    FP& operator++() noexcept { ++p_; return *this; }
    FP operator++(int) noexcept { FP t = *this; ++p_; return t; }
    FP& operator--() noexcept { --p_; return *this; }
    FP operator--(int) noexcept { FP t = *this; --p_; return t; }
    FP& operator+=(difference_type n) noexcept { p_ += n; return *this; }
    FP& operator-=(difference_type n) noexcept { p_ -= n; return *this; }
    friend FP operator+(FP a, difference_type n) noexcept { a += n; return a; }
    friend FP operator+(difference_type n, FP a) noexcept { a += n; return a; }
    friend FP operator-(FP a, difference_type n) noexcept { a -= n; return a; }
    friend difference_type operator-(const FP& a, const FP& b) noexcept { return a.p_ - b.p_; }
    friend bool operator==(const FP& a, const FP& b) noexcept { return a.p_ == b.p_; }
    friend bool operator!=(const FP& a, const FP& b) noexcept { return a.p_ != b.p_; }
    friend bool operator<(const FP& a, const FP& b) noexcept { return a.p_ < b.p_; }
    friend bool operator>(const FP& a, const FP& b) noexcept { return a.p_ > b.p_; }
    friend bool operator<=(const FP& a, const FP& b) noexcept { return a.p_ <= b.p_; }
    friend bool operator>=(const FP& a, const FP& b) noexcept { return a.p_ >= b.p_; }
    friend bool operator==(const FP& a, std::nullptr_t) noexcept { return a.p_ == nullptr; }
    friend bool operator!=(const FP& a, std::nullptr_t) noexcept { return a.p_ != nullptr; }
    friend bool operator==(std::nullptr_t, const FP& a) noexcept { return a.p_ == nullptr; }
    friend bool operator!=(std::nullptr_t, const FP& a) noexcept { return a.p_ != nullptr; }
};

template <class T> struct IsPtr : std::is_pointer<T> {};
template <class T> struct IsPtr<FP<T>> : std::true_type {};

enum AllocFlags : u32 { POCCA = 1, POCMA = 2, POCS = 4, SOCCC = 8, ALWAYS_EQ = 16, FANCY = 32 };

template <class T, u32 PR>
struct Tal
{
    using value_type = T;
    using pointer = std::conditional_t<(PR & FANCY) != 0, FP<T>, T*>;
    using propagate_on_container_copy_assignment = std::bool_constant<(PR & POCCA) != 0>;
    using propagate_on_container_move_assignment = std::bool_constant<(PR & POCMA) != 0>;
    using propagate_on_container_swap = std::bool_constant<(PR & POCS) != 0>;
    using is_always_equal = std::bool_constant<(PR & ALWAYS_EQ) != 0>;
    template <class U> struct rebind { using other = Tal<U, PR>; };
    static constexpr u32 props = PR;

    int id;
    Tal() noexcept : id(g.default_alloc_id) {}
    explicit Tal(int i) noexcept : id(i) {}
    Tal(const Tal&) noexcept = default;
    Tal& operator=(const Tal&) noexcept = default;
    template <class U> Tal(const Tal<U, PR>& o) noexcept : id(o.id) {}

    int eff() const { return (PR & ALWAYS_EQ) ? 0 : id; }
    Tal select_on_container_copy_construction() const { return (PR & SOCCC) ? Tal(id + 1000) : *this; }
    std::size_t max_size() const noexcept // the table of a segmented container is not limited
    {
        const std::size_t most = std::size_t(PTRDIFF_MAX) / sizeof(T);
        return !IsPtr<T>::value && g.alloc_max < most ? g.alloc_max : most;
    }
    pointer allocate(std::size_t n)
    {
        if (n > max_size()) pbt::g_ctx->fail(pbt::LIFE | pbt::ERRS, "allocate(%zu) exceeds max_size() of the allocator", n);
        T* p = static_cast<T*>(track_alloc(n, sizeof(T), alignof(T), eff()));
        if constexpr ((PR & FANCY) != 0) return FP<T>::from(p); else return p;
    }
    void deallocate(pointer p, std::size_t n) noexcept
    {
        if constexpr ((PR & FANCY) != 0) track_dealloc(const_cast<std::remove_cv_t<T>*>(p.operator->()), n, sizeof(T), eff());
        else track_dealloc(p, n, sizeof(T), eff());
    }
    template <class U, class... A> void construct(U* p, A&&... a)
    {
        ::new (const_cast<void*>(static_cast<const volatile void*>(p))) U(std::forward<A>(a)...);
        mark_constructed(p, sizeof(U), eff());
    }
    template <class U> void destroy(U* p)
    {
        check_destroyed_by(p, sizeof(U), eff());
        p->~U();
    }
    friend bool operator==(const Tal& a, const Tal& b) noexcept { return a.eff() == b.eff(); }
    friend bool operator!=(const Tal& a, const Tal& b) noexcept { return a.eff() != b.eff(); }
};

template <class A> struct IsTal : std::false_type { static constexpr u32 props = 0; };
template <class T, u32 PR> struct IsTal<Tal<T, PR>> : std::true_type { static constexpr u32 props = PR; };

// ---- iterators over arrays -----------------------------------------------------
// Checked iterators of every category. An input iterator is single-pass: using a
// copy after another copy has been incremented past it is a failure.
struct Pass { long cur = 0; long n = 0; long read = -1; u64 derefs = 0, incs = 0; };

template <class Cat, class T, class Ref = const T&>
struct It
{
    using iterator_category = Cat; using value_type = std::remove_cv_t<T>; using difference_type = std::ptrdiff_t;
    using pointer = T*; using reference = Ref;
    static constexpr bool single = std::is_same<Cat, std::input_iterator_tag>::value;
    static constexpr bool bidi = std::is_base_of<std::bidirectional_iterator_tag, Cat>::value;
    static constexpr bool ra = std::is_base_of<std::random_access_iterator_tag, Cat>::value;
    T* a = nullptr;
    long i = 0;
    Pass* ps = nullptr;
    It() {}
    It(T* arr, long idx, Pass* p) : a(arr), i(idx), ps(p) {}
    void chk(const char* w) const
    {
        if (single && i != ps->cur) pbt::g_ctx->fail(pbt::RANGE, "%s a stale copy of an input iterator (multi-pass use of a single-pass range)", w);
    }
    Ref operator*() const
    {
        chk("dereferencing");
        if (i < 0 || i >= ps->n) pbt::g_ctx->fail(pbt::RANGE, "dereferencing a range iterator outside its range (index %ld of %ld)", i, ps->n);
        if (single && ps->read == i) pbt::g_ctx->fail(pbt::RANGE, "an element of a single-pass range is read twice (index %ld of %ld)", i, ps->n);
        point(P_ITER); ++ps->derefs; ps->read = i;
        return static_cast<Ref>(a[i]);
    }
    T* operator->() const { **this; return &a[i]; }
    It& operator++()
    {
        chk("incrementing");
        if (i >= ps->n) pbt::g_ctx->fail(pbt::RANGE, "incrementing a range iterator past its end");
        point(P_ITER); ++ps->incs;
        ++i;
        if (single) ps->cur = i;
        return *this;
    }
    It operator++(int) { It t = *this; ++*this; return t; }
    It& operator--() { static_assert(bidi, "decrement of a non-bidirectional iterator"); if (i <= 0) pbt::g_ctx->fail(pbt::RANGE, "decrementing a range iterator before its beginning"); --i; return *this; }
    It operator--(int) { It t = *this; --*this; return t; }
    It& operator+=(std::ptrdiff_t n) { static_assert(ra, "random access on a weaker iterator"); i += n; return *this; }
    It& operator-=(std::ptrdiff_t n) { return *this += -n; }
    Ref operator[](std::ptrdiff_t n) const { It t = *this; t += n; return *t; }
    friend It operator+(It x, std::ptrdiff_t n) { x += n; return x; }
    friend It operator+(std::ptrdiff_t n, It x) { x += n; return x; }
    friend It operator-(It x, std::ptrdiff_t n) { x -= n; return x; }
    friend std::ptrdiff_t operator-(const It& x, const It& y) { static_assert(ra, "difference of weaker iterators"); return x.i - y.i; }
    friend bool operator==(const It& x, const It& y) { return x.i == y.i; }
    friend bool operator!=(const It& x, const It& y) { return x.i != y.i; }
    friend bool operator<(const It& x, const It& y) { static_assert(ra, ""); return x.i < y.i; }
    friend bool operator>(const It& x, const It& y) { static_assert(ra, ""); return x.i > y.i; }
    friend bool operator<=(const It& x, const It& y) { static_assert(ra, ""); return x.i <= y.i; }
    friend bool operator>=(const It& x, const It& y) { static_assert(ra, ""); return x.i >= y.i; }
};

// A container kept in raw memory between guard zones, over a fill pattern.
template <class C>
struct Box
{
    static constexpr std::size_t GZ = 64;
    alignas(64) unsigned char pre[GZ];
    alignas(alignof(C) > 64 ? alignof(C) : 64) unsigned char mem[sizeof(C)];
    unsigned char post[GZ];
    bool alive = false;
    void prepare()
    {
        std::memset(pre, 0xC3, GZ); std::memset(mem, g.fill, sizeof mem); std::memset(post, 0xC3, GZ);
    }
    void check() const
    {
        for (std::size_t i = 0; i < GZ; ++i)
            if (pre[i] != 0xC3 || post[i] != 0xC3) pbt::g_ctx->fail(pbt::LIFE, "memory next to the container object was overwritten");
    }
    C& get() { return *reinterpret_cast<C*>(mem); }
    bool inside(const void* p) const { auto q = static_cast<const unsigned char*>(p); return q >= mem && q < mem + sizeof mem; }
    void kill()
    {
        if (!alive) return;
        alive = false;
        get().~C();
        check();
    }
};

// max_size(): what the allocator allows, or what a difference_type can count in bytes; small containers hold N in any case
template <class C> void check_max_size(pbt::Ctx& ctx, const C& c, std::size_t N)
{
    typedef std::allocator_traits<typename C::allocator_type> A;
    const std::size_t limit = std::max(N, std::size_t(A::max_size(c.get_allocator()))), most = std::size_t(PTRDIFF_MAX) / sizeof(typename C::value_type), mx = c.max_size();
    if (mx > limit) ctx.fail(pbt::ERRS, "max_size() is %zu, but the allocator's is %zu", mx, limit);
    if (mx > most) ctx.fail(pbt::ERRS, "max_size() is %zu elements of %zu bytes, more than a difference can be", mx, sizeof(typename C::value_type));
    if (mx < (limit < most ? limit : most / 2)) ctx.fail(pbt::ERRS, "max_size() is only %zu, expected %zu", mx, limit);
}

} // namespace ob
