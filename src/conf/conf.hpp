// Configuration driver. Portable C++11: runs the same generated histories in every
// configuration (compiler, language standard, optimisation, NDEBUG, SFL_NO_EXCEPTIONS)
// and prints a digest of everything it observed, one line per history.
#pragma once
#include <algorithm>
#include <cassert>
#include <csetjmp>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <cstdint>
#include <type_traits>
#include <utility>
#include <vector>
#ifdef CONF_FREEZE
#include <csignal>
#include <sys/mman.h>
#endif
#include <string>

namespace cf
{
typedef unsigned long long u64;
typedef unsigned u32;

// The state of this driver. With CONF_FREEZE it has a section of its own, see Frozen.
#ifdef CONF_FREEZE
#define STATE static __attribute__((section("cfstate")))
#else
#define STATE static
#endif
STATE jmp_buf jb;
STATE volatile bool armed = false;
STATE bool verbose = false;
STATE u64 digest = 0;
STATE long live = 0, allocs = 0, blocks = 0;
STATE std::size_t limit = 0; // max_size() of the allocators, 0: natural
STATE bool big = false;
STATE std::size_t scale = 1; // multiplies the sizes

inline void mix(u64 x) { digest ^= x + 0x9E3779B97F4A7C15ull + (digest << 6) + (digest >> 2); digest *= 1099511628211ull; }
inline void obs(const char* what, u64 x) { mix(x); if (verbose) std::printf("    %s = %llu\n", what, x); }

struct Rng
{
    u64 s;
    explicit Rng(u64 x) : s(x) {}
    u32 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return u32(z ^ (z >> 31)); }
};

// VARIANT 1: unusual but conforming types. VARIANT 2: comparisons that return a class. VARIANT 3: types that tell how they are constructed.
#ifndef VARIANT
#define VARIANT 0
#endif
#if VARIANT == 1
#define EL_ALIGN alignas(64)
#define EL_FINAL final
struct NoAddress {};
// & and , do not mean what they usually mean; nothing may be constructed misaligned
#define EL_ODD(X) \
    NoAddress operator&() const { return NoAddress(); } \
    template <class O> friend NoAddress operator,(const X&, O&&) { std::fputs("operator, was used\n", stderr); std::_Exit(4); } \
    template <class O> friend NoAddress operator,(O&&, const X&) { std::fputs("operator, was used\n", stderr); std::_Exit(4); }
#else
#define EL_ALIGN
#define EL_FINAL
#define EL_ODD(X)
#endif
#if VARIANT == 3
// Has to be constructed by ::new (p) X(args): not by X{args} and not by an operator new of the class. No implicit conversion.
inline void wrong_new(const char* s) { std::fputs(s, stderr); std::_Exit(4); }
#define EL_EXPLICIT explicit
#define EL_NEW(X) \
        X& operator=(int x) { v = x; return *this; } \
        X(std::initializer_list<X>) : v(-5) { wrong_new("an element was initialized with braces\n"); } \
        explicit X(std::initializer_list<int>) : v(-5) { wrong_new("an element was initialized with braces\n"); } \
        static void* operator new(std::size_t, void* q) { wrong_new("placement new of the element class was used\n"); return q; } \
        static void* operator new(std::size_t n) { wrong_new("operator new of the element class was used\n"); return ::operator new(n); } \
        static void operator delete(void*) { wrong_new("operator delete of the element class was used\n"); } \
        static void operator delete(void*, void*) {} \
        static void* operator new[](std::size_t n) = delete; \
        static void operator delete[](void*) = delete;
#define AL_EXPLICIT explicit
#else
#define EL_EXPLICIT
#define EL_NEW(X)
#define AL_EXPLICIT
#endif
#if VARIANT == 2
struct Bool
{
    bool b;
    operator bool() const { return b; }
};
inline Bool mk_bool(bool b) { Bool r = {b}; return r; }
#else
typedef bool Bool;
inline bool mk_bool(bool b) { return b; }
#endif
inline void born(const void* p, std::size_t align)
{
    ++live;
    if (reinterpret_cast<std::size_t>(p) % align != 0) { std::fputs("element constructed at a misaligned address\n", stderr); std::_Exit(4); }
}
#define ELEMENT(X, NOEXC, EXPL) \
    struct EL_ALIGN X EL_FINAL \
    { \
        int v; \
        X() : v(0) { born(this, alignof(X)); } \
        EXPL X(int x) : v(x) { born(this, alignof(X)); } \
        X(const X& o) : v(o.v) { born(this, alignof(X)); } \
        X(X&& o) NOEXC : v(o.v) { o.v = -7; born(this, alignof(X)); } \
        X& operator=(const X& o) { v = o.v; return *this; } \
        X& operator=(X&& o) NOEXC { const int t = o.v; o.v = -7; v = t; return *this; } \
        ~X() { v = -99; --live; } \
        EL_NEW(X) \
        EL_ODD(X) \
        friend Bool operator==(const X& a, const X& b) { return mk_bool(a.v == b.v); } \
        friend Bool operator<(const X& a, const X& b) { return mk_bool(a.v < b.v); } \
    };
// Elements with a counted lifetime; the moves of Elt may throw, as far as the type system knows.
ELEMENT(El, noexcept, )
ELEMENT(Elt, , )
// of sequences
ELEMENT(Es, noexcept, EL_EXPLICIT)
ELEMENT(Est, , EL_EXPLICIT)
inline int val(int x) { return x; }
inline int val(const El& x) { return x.v; }
inline int val(const Elt& x) { return x.v; }
inline int val(const Es& x) { return x.v; }
inline int val(const Est& x) { return x.v; }

// With CONF_FREEZE the containers and their blocks live in pages that are read-only
// while an operation runs that has to leave the container alone.
#ifdef CONF_FREEZE
enum { ARENA = 1 << 24 };
struct Arena { char* base; std::size_t used; };
STATE Arena arenas[2] = {{nullptr, 0}, {nullptr, 0}};
STATE int frozen = 0;
STATE const char* frozen_op = "";
inline void on_fault(int, siginfo_t* si, void*)
{
    const char* a = static_cast<const char*>(si->si_addr);
    if (frozen && a >= arenas[0].base && a < arenas[0].base + ARENA) { std::printf("write to the container in %s\n", frozen_op); std::fflush(stdout); _Exit(3); }
    _Exit(139);
}
inline void arenas_reset()
{
    if (!arenas[0].base)
    {
        for (int i = 0; i < 2; ++i) arenas[i].base = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, nullptr);
    }
    arenas[0].used = arenas[1].used = 0;
}
inline void* get_block(std::size_t n)
{
    Arena& a = arenas[frozen ? 1 : 0];
    const std::size_t at = (a.used + 63) & ~std::size_t(63);
    if (at + n > ARENA) return ::operator new(n);
    a.used = at + n;
    return a.base + at;
}
inline void put_block(void* p)
{
    for (int i = 0; i < 2; ++i) if (p >= arenas[i].base && p < arenas[i].base + ARENA) return;
    ::operator delete(p);
}
STATE u64 frozen_calls = 0;
extern "C" char __data_start[], _end[], __start_cfstate[], __stop_cfstate[];
// Static variables (of the library) must not change either, unless once, by their initialization.
STATE char* statics_copy = nullptr;
STATE unsigned char* statics_changed = nullptr;
inline void statics_save()
{
    const std::size_t n = std::size_t(_end - __data_start);
    if (!statics_copy) { statics_copy = static_cast<char*>(std::malloc(n)); statics_changed = static_cast<unsigned char*>(std::calloc(n, 1)); }
    std::memcpy(statics_copy, __data_start, n);
}
inline void statics_check(char* from, char* to)
{
    if (from >= to || !std::memcmp(from, statics_copy + (from - __data_start), std::size_t(to - from))) return;
    for (char* p = from; p < to; ++p)
    {
        const std::size_t i = std::size_t(p - __data_start);
        if (*p == statics_copy[i]) continue;
        if (statics_changed[i]) { std::printf("write to a static variable in %s\n", frozen_op); std::fflush(stdout); _Exit(3); }
        statics_changed[i] = 1;
    }
}
struct Frozen
{
    explicit Frozen(const char* op)
    {
        if (frozen++ == 0) { statics_save(); mprotect(arenas[0].base, arenas[0].used, PROT_READ); }
        frozen_op = op; ++frozen_calls;
    }
    void now(const char* op) { check(); statics_save(); frozen_op = op; ++frozen_calls; }
    void check() { statics_check(__data_start, __start_cfstate); statics_check(__stop_cfstate, _end); }
    ~Frozen() { if (--frozen == 0) { mprotect(arenas[0].base, arenas[0].used, PROT_READ | PROT_WRITE); check(); } }
};
#elif VARIANT == 1
inline void* get_block(std::size_t n) { void* p = nullptr; if (posix_memalign(&p, 64, n + 64)) std::abort(); return p; }
inline void put_block(void* p) { std::free(p); }
#else
inline void* get_block(std::size_t n) { return ::operator new(n); }
inline void put_block(void* p) { ::operator delete(p); }
#endif
#ifndef CONF_FREEZE
struct Frozen { explicit Frozen(const char*) {} void now(const char*) {} ~Frozen() {} };
#endif

#if VARIANT == 3
// An allocator that does not propagate need not be assignable or swappable (std::pmr::polymorphic_allocator is not).
template <bool PROP> struct Assignable {};
template <> struct Assignable<false> { Assignable() {} Assignable(const Assignable&) {} Assignable& operator=(const Assignable&) = delete; };
#define AL_BASE : Assignable<PROP>
#else
#define AL_BASE
#endif
template <class T, bool PROP>
struct Al AL_BASE
{
    typedef T value_type;
#if VARIANT == 1
    typedef unsigned size_type;
    typedef int difference_type;
#else
    typedef std::size_t size_type;
#endif
    typedef std::integral_constant<bool, PROP> propagate_on_container_copy_assignment;
    typedef std::integral_constant<bool, PROP> propagate_on_container_move_assignment;
    typedef std::integral_constant<bool, PROP> propagate_on_container_swap;
    template <class U> struct rebind { typedef Al<U, PROP> other; };
    int id;
#if VARIANT == 1
    Al() = delete;
#else
    Al() : id(0) {}
#endif
    explicit Al(int i) : id(i) {}
    template <class U> AL_EXPLICIT Al(const Al<U, PROP>& o) : id(o.id) {}
    size_type max_size() const noexcept { return size_type(limit ? limit : VARIANT == 1 ? 1000000000 : std::size_t(PTRDIFF_MAX) / sizeof(T)); }
    T* allocate(size_type n) { ++allocs; ++blocks; return static_cast<T*>(get_block(n * sizeof(T))); }
    void deallocate(T* p, size_type) noexcept { --blocks; put_block(p); }
    friend bool operator==(const Al& a, const Al& b) { return a.id == b.id; }
    friend bool operator!=(const Al& a, const Al& b) { return a.id != b.id; }
};
template <class C> typename std::enable_if<(sizeof(typename C::allocator_type) > 0), int>::type alloc_id(const C& c, int) { return c.get_allocator().id; }
template <class C> int alloc_id(const C&, long) { return -1; }

// A single-pass iterator.
template <class V>
struct In
{
    typedef std::input_iterator_tag iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type; typedef const V* pointer; typedef const V& reference;
    const V* p;
    const V& operator*() const { return *p; }
    const V* operator->() const { return p; }
    In& operator++() { ++p; return *this; }
    In operator++(int) { In t = *this; ++p; return t; }
    EL_ODD(In)
    friend Bool operator==(const In& a, const In& b) { return mk_bool(a.p == b.p); }
    friend Bool operator!=(const In& a, const In& b) { return mk_bool(a.p != b.p); }
};
// A multi-pass iterator: a pointer, or with a narrower difference type and unusual operators.
#if VARIANT == 1
template <class V> struct Fwd : In<V> {
    typedef std::forward_iterator_tag iterator_category; typedef int difference_type;
    Fwd(const V* q = nullptr) { this->p = q; }
    Fwd& operator++() { ++this->p; return *this; }
    Fwd operator++(int) { Fwd t = *this; ++this->p; return t; }
};
#elif VARIANT == 2
template <class V> struct Fwd
{
    typedef std::random_access_iterator_tag iterator_category; typedef V value_type; typedef short difference_type; typedef const V* pointer; typedef const V& reference;
    const V* p;
    Fwd(const V* q = nullptr) : p(q) {}
    const V& operator*() const { return *p; }
    const V* operator->() const { return p; }
    const V& operator[](difference_type n) const { return p[n]; }
    Fwd& operator++() { ++p; return *this; }
    Fwd operator++(int) { Fwd t = *this; ++p; return t; }
    Fwd& operator--() { --p; return *this; }
    Fwd operator--(int) { Fwd t = *this; --p; return t; }
    Fwd& operator+=(difference_type n) { p += n; return *this; }
    Fwd& operator-=(difference_type n) { p -= n; return *this; }
    friend Fwd operator+(Fwd a, difference_type n) { return a += n; }
    friend Fwd operator+(difference_type n, Fwd a) { return a += n; }
    friend Fwd operator-(Fwd a, difference_type n) { return a -= n; }
    friend difference_type operator-(const Fwd& a, const Fwd& b) { return difference_type(a.p - b.p); }
    friend Bool operator==(const Fwd& a, const Fwd& b) { return mk_bool(a.p == b.p); }
    friend Bool operator!=(const Fwd& a, const Fwd& b) { return mk_bool(a.p != b.p); }
    friend Bool operator<(const Fwd& a, const Fwd& b) { return mk_bool(a.p < b.p); }
    friend Bool operator>(const Fwd& a, const Fwd& b) { return mk_bool(a.p > b.p); }
    friend Bool operator<=(const Fwd& a, const Fwd& b) { return mk_bool(a.p <= b.p); }
    friend Bool operator>=(const Fwd& a, const Fwd& b) { return mk_bool(a.p >= b.p); }
};
#else
template <class V> using Fwd = const V*;
#endif

// Runs f; an error (exception, or abort without exceptions) is an observation.
template <class F>
bool expect_error(F f)
{
#ifdef SFL_NO_EXCEPTIONS
    // the jump skips destructors of temporaries of the call
    const long saved[3] = {live, allocs, blocks};
    armed = true;
    if (setjmp(jb) == 0) { f(); armed = false; obs("no error", 1); return false; }
    live = saved[0]; allocs = saved[1]; blocks = saved[2];
    obs("error", 2);
    return true;
#else
    try { f(); }
    catch (const std::length_error&) { obs("error", 2); return true; }
    catch (const std::out_of_range&) { obs("error", 2); return true; }
    obs("no error", 1);
    return false;
#endif
}

struct Row { u32 op, a, b, d, e; };

struct Subject { const char* name; void (*run)(const std::vector<Row>&); };
inline std::vector<Subject>& subjects() { static std::vector<Subject> v; return v; }
struct Reg { Reg(const char* n, void (*f)(const std::vector<Row>&)) { Subject s; s.name = n; s.run = f; subjects().push_back(s); } };

inline u64 hash_name(const char* s) { u64 h = 1469598103934665603ull; for (; *s; ++s) { h ^= static_cast<unsigned char>(*s); h *= 1099511628211ull; } return h; }
inline void make_rows(std::vector<Row>& rows, const char* name, u64 seed, u64 idx, u32 max_rows)
{
    Rng r(hash_name(name) ^ (seed * 0xD1342543DE82EF95ull) ^ (idx * 0x9E3779B97F4A7C15ull));
    r.next();
    const u32 n = 1 + r.next() % max_rows;
    rows.clear();
    for (u32 i = 0; i < n; ++i) { Row w; w.op = r.next(); w.a = r.next(); w.b = r.next(); w.d = r.next(); w.e = r.next(); rows.push_back(w); }
}

template <class C> auto spare(const C& c, int) -> decltype(c.available(), u64()) { return c.available(); }
template <class C> auto spare(const C& c, long) -> decltype(c.available_front(), u64()) { return c.available_front() * 1000 + c.available_back(); }
template <class C> void frozen_copy(const C& c)
{
    Frozen fz("copy construction from it");
    C t(c);
    obs("copy", t == c);
    fz.now("copy assignment from it");
    t.clear();
    t = c;
    obs("copy", t == c);
#ifdef CONF_FREEZE
    fz.now("construction from the range of its elements");
    const long allocated = allocs;
    { C u(c.begin(), c.end()); if (!c.empty() && u.empty()) std::abort(); }
    allocs = allocated;
#endif
}
inline u64 spare(...) { return 0; }
template <class C> auto full(const C& c, int) -> decltype(c.full(), u64()) { return c.full(); }
template <class C> u64 full(const C&, long) { return 0; }
template <class C> auto data_of(C& c, int) -> decltype(c.data(), u64()) { const C& cc = c; return c.empty() ? 1 : u64(c.data() == cc.data() && std::addressof(*cc.begin()) == cc.data()); }
template <class C> u64 data_of(C&, long) { return 1; }

// ---- sequences --------------------------------------------------------------------
enum { K_VEC, K_SMALL, K_STATIC, K_COMPACT, K_DEV, K_SEG, K_SEGDEV };
template <int K> struct Tag {};

template <class C> void make(C* p, int id, std::true_type) { ::new (static_cast<void*>(p)) C(typename C::allocator_type(id)); }
template <class C> void make(C* p, int, std::false_type) { ::new (static_cast<void*>(p)) C(); }

template <class C> void do_reserve(C& c, std::size_t n, u32, Tag<K_VEC>) { c.reserve(n); }
template <class C> void do_reserve(C& c, std::size_t n, u32, Tag<K_SMALL>) { c.reserve(n); }
template <class C> void do_reserve(C& c, std::size_t n, u32, Tag<K_SEG>) { c.reserve(n); }
template <class C> void do_reserve(C& c, std::size_t n, u32 f, Tag<K_DEV>) { if (f & 1) c.reserve_front(n); else c.reserve_back(n); }
template <class C> void do_reserve(C& c, std::size_t n, u32 f, Tag<K_SEGDEV>) { if (f & 1) c.reserve_front(n); else c.reserve_back(n); }
template <class C> void do_reserve(C&, std::size_t, u32, Tag<K_STATIC>) {}
template <class C> void do_reserve(C&, std::size_t, u32, Tag<K_COMPACT>) {}
template <class C> void do_shrink(C&, Tag<K_STATIC>) {}
template <class C> void do_shrink(C&, Tag<K_COMPACT>) {}
template <class C, int K> void do_shrink(C& c, Tag<K>) { c.shrink_to_fit(); }
template <class C> void do_front(C& c, u32 op, int v, std::size_t q, Tag<K_DEV>)
{
    typedef typename C::value_type T;
    switch (op % 4)
    {
    case 0: c.push_front(T(v)); break;
    case 1: obs("emplace_front", u64(val(c.emplace_front(v)))); break;
    case 2: if (!c.empty()) c.pop_front(); break;
    default: if (q & 1) c.resize_front(q); else c.resize_back(q, T(v));
    }
}
template <class C> void do_front(C& c, u32 op, int v, std::size_t q, Tag<K_SEGDEV>) { do_front(c, op, v, q, Tag<K_DEV>()); }
template <class C, int K> void do_front(C&, u32, int, std::size_t, Tag<K>) {}
template <class C> void do_swap(C& a, C& b, u32 f) { if (f & 1) a.swap(b); else { using std::swap; swap(a, b); } }

template <class C, int K, bool PROP>
struct Seq
{
    typedef typename C::value_type T;
    static void look(const char* what, C& c)
    {
        const C& cc = c;
        Frozen fz("size()");
        obs(what, cc.size());
        fz.now("capacity()");
        obs("capacity", cc.capacity());
        fz.now("available() or full()");
        obs("spare", spare(cc, 0) * 2 + full(cc, 0) + (limit ? cc.max_size() : 0));
        fz.now("data()");
        obs("data", data_of(c, 0));
        u64 h = 7;
        fz.now("iteration");
        for (typename C::const_iterator it = cc.begin(); it != cc.end(); ++it) h = h * 1000003 + u64(u32(val(*it)));
        for (typename C::iterator it = c.begin(); it != c.end(); ++it) h = h * 1000003 + u64(u32(val(*it)));
        for (typename C::reverse_iterator it = c.rbegin(); it != c.rend(); ++it) h = h * 1000003 + u64(u32(val(*it)));
        fz.now("element access");
        if (!c.empty())
        {
            const std::size_t n = cc.size(), m = n / 2;
            h = h * 1000003 + u64(u32(val(c[m]))) + u64(u32(val(c.at(m)))) + u64(u32(val(cc.at(m)))) * 3 + u64(u32(val(c.front()))) * 5 + u64(u32(val(cc.front()))) * 7 + u64(u32(val(c.back()))) * 11 + u64(u32(val(cc.back()))) * 13;
            fz.now("nth() and index_of()");
            h = h * 1000003 + cc.index_of(cc.nth(m)) + c.index_of(c.nth(m)) * 5 + u64(c.begin() + std::ptrdiff_t(m) == c.nth(m)) + u64(cc.cbegin() < cc.cend());
        }
        fz.now("operator[]");
        for (std::size_t i = 0; i < cc.size(); ++i) h = h * 1000003 + u64(u32(val(cc[i])));
        for (typename C::const_reverse_iterator it = cc.crbegin(); it != cc.crend(); ++it) h = h * 1000003 + u64(u32(val(*it)));
        obs("contents", h);
        obs("allocator", u64(u32(alloc_id(cc, 0))));
    }
    // Every constructor, and assignment from what it made.
    static void built2(C& c, u32 how, C&& t)
    {
        look("constructed", t);
        if (how & 32) { c = std::move(t); look("moved-from", t); t.assign(2, T(1)); look("reused", t); }
        else if (how & 64) c = t;
    }
    template <int K2> static void built(C& c, u32 how, const int* src, std::size_t q, int v, Tag<K2>)
    {
        const typename C::allocator_type a(c.get_allocator()), b((how & 128) || !PROP ? 1 : 3);
        In<int> f, l; f.p = src; l.p = src + q;
        switch (how % 9)
        {
        case 0: built2(c, how, C(q, a)); break;
        case 1: built2(c, how, C(q, T(v), b)); break;
        case 2: built2(c, how, C(Fwd<int>(src), Fwd<int>(src + q), b)); break;
        case 3: built2(c, how, C(f, l, b)); break;
        case 4: built2(c, how, C({T(v), T(v + 1), T(v + 2)}, a)); break;
        case 5: built2(c, how, C(static_cast<const C&>(c), b)); break;
        case 6: { C t(c); built2(c, how, C(std::move(t), b)); look("moved-from", t); break; }
        case 7: { C t(std::move(c)); look("moved-from", c); if (how & 32) c = std::move(t); break; }
        default: c = {T(v), T(v), T(3)};
        }
    }
    static void built(C& c, u32 how, const int* src, std::size_t q, int v, Tag<K_STATIC>)
    {
        In<int> f, l; f.p = src; l.p = src + q;
        switch (how % 7)
        {
        case 0: { C t(q); built2(c, how, std::move(t)); break; }
        case 1: { C t(q, T(v)); built2(c, how, std::move(t)); break; }
        case 2: { C t(Fwd<int>(src), Fwd<int>(src + q)); built2(c, how, std::move(t)); break; }
        case 3: { C t(f, l); built2(c, how, std::move(t)); break; }
        case 4: if (c.capacity() >= 3) { C t({T(v), T(v + 1), T(v + 2)}); built2(c, how, std::move(t)); } break;
        case 5: { C t(std::move(c)); look("moved-from", c); if (how & 32) c = std::move(t); break; }
        default: if (c.capacity() >= 3) c = {T(v), T(v), T(3)};
        }
    }
    static void run(const std::vector<Row>& rows)
    {
        // each container in a block of its own, so that a sanitizer sees accesses beyond it
        C* s[2] = {static_cast<C*>(get_block(sizeof(C))), static_cast<C*>(get_block(sizeof(C)))};
        make<C>(s[0], 1, std::integral_constant<bool, K != K_STATIC>());
        make<C>(s[1], PROP ? 2 : 1, std::integral_constant<bool, K != K_STATIC>());
        int next = 1;
        for (std::size_t i = 0; i < rows.size(); ++i)
        {
            const Row& w = rows[i];
            C& c = *s[w.e & 1];
            C& o = *s[(w.e & 1) ^ 1];
            const C& cc = c;
            const std::size_t n = c.size();
            const std::size_t top = K == K_STATIC ? c.capacity() : limit ? limit : 60 * scale;
            const std::size_t room = n < top ? top - n : 0;
            const std::size_t pos = w.a % (n + 1);
            const int v = (w.d & 3) ? next++ : int(w.d % 7);
            const std::size_t q = std::min<std::size_t>(w.b % (20 * scale), room), qa = std::min<std::size_t>(w.b % (20 * scale), top);
            std::vector<int> source(std::max(q, qa) + 1);
            int* const src = source.data();
            for (std::size_t j = 0; j < source.size(); ++j) src[j] = int((w.d + unsigned(j) * 7) % 50);
            if (verbose) std::printf("  [%d] op %u pos %u n %u value %d\n", int(w.e & 1), w.op % 32, unsigned(pos), unsigned(q), v);
            if (n > 3) big = true;
            mix(w.op % 32);
            switch (w.op % 32)
            {
            case 0: case 1: if (room) { const T t(v); c.push_back(t); } break;
            case 2: if (room) obs("emplace_back", u64(val(c.emplace_back(v)))); break;
            case 3: if (room) obs("insert", c.index_of(c.insert(cc.nth(pos), T(v)))); break;
            case 4: if (room) { const T t(v); obs("insert", c.index_of(c.insert(cc.nth(pos), t))); } break;
            case 5: if (room) obs("emplace", c.index_of(c.emplace(cc.nth(pos), v))); break;
            case 6: obs("insert n", c.index_of(c.insert(cc.nth(pos), q, T(v)))); break;
            case 7: case 8: obs("insert range", c.index_of(c.insert(cc.nth(pos), Fwd<int>(src), Fwd<int>(src + q)))); break;
            case 9: { In<int> f, l; f.p = src; l.p = src + q; obs("insert input range", c.index_of(c.insert(cc.nth(pos), f, l))); break; }
            case 10: if (room >= 3) obs("insert list", c.index_of(c.insert(cc.nth(pos), {T(v), T(v + 1), T(v + 2)}))); break;
            case 11: if (n) obs("erase", c.index_of(c.erase(cc.nth(w.a % n)))); break;
            case 12: { const std::size_t l = pos + w.b % (n - pos + 1); obs("erase range", c.index_of(c.erase(cc.nth(pos), cc.nth(l)))); break; }
            case 13: c.resize(w.b % (top + 1)); break;
            case 14: c.resize(w.b % (top + 1), T(v)); break;
            case 15: c.assign(qa, T(v)); break;
            case 16: c.assign(Fwd<int>(src), Fwd<int>(src + qa)); break;
            case 17: { In<int> f, l; f.p = src; l.p = src + qa; c.assign(f, l); break; }
            case 18: do_reserve(c, w.b % (top + 1), w.a, Tag<K>()); break;
            case 19: if (w.b & 1) do_shrink(c, Tag<K>()); else if (w.b % 8 == 0) c.clear(); break;
            case 20: c = static_cast<const C&>(o); break;
            case 21: c = std::move(o); look("moved-from", o); break;
            case 22: do_swap(c, o, w.b); break;
            case 23: { frozen_copy(cc); C t(cc); obs("equal", t == cc); if (room) t.push_back(T(v)); obs("less", cc < t); C u(std::move(t)); look("moved", u); u = {T(1)}; look("assigned list", u); break; }
            case 24:
                if (n) obs("at", u64(val(cc.at(w.a % n))));
                { Frozen fz("at() with a position out of range"); expect_error([&] { (void)cc.at(n + w.a % 3); }); }
                break;
            case 25: { Frozen fz("comparison"); obs("compare", (cc == o) | (cc != o) << 1 | (cc < o) << 2 | (cc > o) << 3 | (cc <= o) << 4 | (cc >= o) << 5); } break;
            case 26: if (n) { obs("front", u64(val(cc.front()))); obs("back", u64(val(c.back()))); c.pop_back(); } break;
            case 27: { const int m = 2 + int(w.b % 4); if (w.a & 1) obs("erase value", erase(c, T(v))); else obs("erase_if", erase_if(c, [m](const T& t) { return val(t) % m == 0; })); break; }
            case 28: if (room) do_front(c, w.a, v, w.b % (top + 1), Tag<K>()); break;
            case 30: case 31: built(c, w.b, src, qa, v, Tag<K>()); break;
            default:
                if (K != K_STATIC)
                {
                    const std::size_t too = c.max_size();
                    const bool r = expect_error([&] { if (w.a & 1) c.resize(too + 1 + w.b % 3); else c.insert(cc.nth(pos), too - n + 1, T(v)); });
                    (void)r;
                }
            }
            look("size", c);
            if (w.op % 32 >= 20) look("other size", o);
            obs("live", u64(live)); obs("allocations", u64(allocs)); obs("blocks", u64(blocks));
        }
        s[0]->~C(); s[1]->~C();
        put_block(s[0]); put_block(s[1]);
        obs("live", u64(live)); obs("blocks", u64(blocks));
    }
};

// ---- associative -------------------------------------------------------------------
struct Other { int v; };
struct Less
{
    typedef void is_transparent;
    int dir;
    Less() : dir(1) {}
    explicit Less(int d) : dir(d) {}
    static int g(int x) { return x; }
    static int g(const El& x) { return x.v; }
    static int g(const Elt& x) { return x.v; }
    static int g(const Other& x) { return x.v; }
    template <class A, class B> Bool operator()(const A& a, const B& b) const { return mk_bool(g(a) * dir < g(b) * dir); }
};
struct Eq
{
    typedef void is_transparent;
    int dir;
    Eq() : dir(1) {}
    explicit Eq(int d) : dir(d) {}
    template <class A, class B> Bool operator()(const A& a, const B& b) const { return mk_bool(Less::g(a) == Less::g(b)); }
};

template <class P> int val1(const P& p) { return val(p.first) * 1000 + val(p.second); }
inline int val1(const El& p) { return p.v; }
inline int val1(const Elt& p) { return p.v; }
inline int val1(int p) { return p; }
template <class C> u64 pos_of(C& c, typename C::iterator it) { return c.index_of(it); }
template <class C, class X> u64 pos_of(C& c, const std::pair<X, bool>& p) { return c.index_of(p.first) * 2 + p.second; }

enum { M_SET = 0, M_MAP = 1, M_MULTI = 2, M_UNORD = 4, M_STATIC = 8 };

template <class T, bool MAP> struct Mk { static T mk(int k, int) { return T(k); } static int key(const T& t) { return val(t); } };
template <class T> struct Mk<T, true> { static T mk(int k, int m) { return T(k, m); } static int key(const T& t) { return val(t.first); } };

template <class C> void a_reserve(C& c, std::size_t n, u32 a, std::false_type) { if (a & 1) c.reserve(n); else c.shrink_to_fit(); }
template <class C> void a_reserve(C&, std::size_t, u32, std::true_type) {}

// at, operator[], try_emplace, insert_or_assign
template <class C> void map_ops(C& c, u32 op, int k, int v, std::size_t hint, bool room, std::true_type)
{
    typedef typename C::key_type Key;
    typedef typename C::mapped_type Map;
    const C& cc = c;
    switch (op % 8)
    {
    case 0: if (room) c[Key(k)] = Map(v); break;
    case 1: if (room) { const Key key(k); obs("try_emplace", pos_of(c, c.try_emplace(key, v))); } break;
    case 2: if (room) obs("try_emplace", pos_of(c, c.try_emplace(cc.nth(hint), Key(k), v))); break;
    case 3: if (room) obs("insert_or_assign", pos_of(c, c.insert_or_assign(Key(k), Map(v)))); break;
    case 4: if (room) { const Key key(k); obs("insert_or_assign", pos_of(c, c.insert_or_assign(cc.nth(hint), key, Map(v)))); } break;
    case 5: case 6:
        { Frozen fz("contains() or at()");
        if (cc.contains(Key(k))) obs("at", u64(val(cc.at(Key(k)))) + u64(val(c.at(Key(k)))) * 3);
        else expect_error([&] { (void)cc.at(Key(k)); }); }
        break;
    default: if (room) obs("insert_or_assign", pos_of(c, c.insert_or_assign(k, Map(v))));
    }
}
template <class C> void map_ops(C&, u32, int, int, std::size_t, bool, std::false_type) {}
template <class C> auto functions(const C& c, int k, int) -> decltype(c.key_comp(), u64()) { typedef typename C::key_type Key; return c.key_comp()(Key(k), Key(k + 1)) + 2 * c.key_comp()(Key(k + 1), Key(k)) + (c.empty() ? 0 : 4 * c.value_comp()(*c.begin(), *c.begin())); }
template <class C> auto functions(const C& c, int k, long) -> decltype(c.key_eq(), u64()) { typedef typename C::key_type Key; return c.key_eq()(Key(k), Key(k + 1)) + 2 * c.key_eq()(Key(k), Key(k)) + (c.empty() ? 0 : 4 * c.key_eq()(Mk<typename C::value_type, !std::is_same<typename C::value_type, Key>::value>::key(*c.begin()), Key(k))); }
template <class C> void bounds(C& c, int k, std::false_type)
{
    const C& cc = c;
    Other o = {k};
    u64 h = 7;
    for (typename C::const_reverse_iterator it = cc.crbegin(); it != cc.crend(); ++it) h = h * 1000003 + u64(u32(val1(*it)));
    obs("reverse", h);
    obs("lower_bound", cc.index_of(cc.lower_bound(o)));
    obs("upper_bound", c.index_of(c.upper_bound(typename C::key_type(k))));
    obs("lower_bound", c.index_of(c.lower_bound(typename C::key_type(k))));
    obs("upper_bound", cc.index_of(cc.upper_bound(o)));
    obs("equal_range", cc.index_of(cc.equal_range(typename C::key_type(k)).first));
    obs("equal_range", c.index_of(c.equal_range(o).second));
    obs("less", (cc < cc) | (cc <= cc) << 1);
}
template <class C> void bounds(C&, int, std::true_type) {}
template <class C> u64 cmp(const C& a, const C& b, std::false_type) { return u64(a == b) | u64(a != b) << 1 | u64(a < b) << 2 | u64(a > b) << 3 | u64(a <= b) << 4 | u64(a >= b) << 5; }
template <class C> u64 cmp(const C& a, const C& b, std::true_type) { return u64(a == b) | u64(a != b) << 1; }
template <class C, class Q> void amake(C* p, int id, int dir, std::false_type) { ::new (static_cast<void*>(p)) C(Q(dir), typename C::allocator_type(id)); }
template <class C, class Q> void amake(C* p, int, int dir, std::true_type) { ::new (static_cast<void*>(p)) C(Q(dir)); }

template <class C, class Q, int K, bool PROP>
struct Assoc
{
    typedef typename C::value_type T;
    typedef Mk<T, (K & M_MAP) != 0> M;
    typedef std::integral_constant<bool, (K & M_STATIC) != 0> Static;
    typedef std::integral_constant<bool, (K & M_UNORD) != 0> Unord;
    typedef std::integral_constant<bool, (K & M_MAP) != 0 && !(K & M_MULTI)> UMap;
    static void look(const char* what, C& c)
    {
        const C& cc = c;
        Frozen fz("size()");
        obs(what, cc.size());
        fz.now("capacity()");
        obs("capacity", cc.capacity());
        fz.now("available() or full()");
        obs("spare", spare(cc, 0) * 2 + full(cc, 0) + (limit ? cc.max_size() : 0) + u64(cc.empty()));
        fz.now("data()");
        obs("data", data_of(c, 0));
        u64 h = 7;
        fz.now("iteration");
        for (typename C::const_iterator it = cc.begin(); it != cc.end(); ++it) h = h * 1000003 + u64(u32(val1(*it)));
        for (typename C::iterator it = c.begin(); it != c.end(); ++it) h = h * 1000003 + u64(u32(val1(*it)));
        fz.now("nth() and index_of()");
        for (std::size_t i = 0; i < cc.size(); ++i) h = h * 1000003 + u64(u32(val1(*cc.nth(i))));
        obs("contents", h);
        obs("allocator", u64(u32(alloc_id(cc, 0))));
    }
    // Every constructor, and assignment from what it made.
    static void built2(C& c, u32 how, C&& t)
    {
        look("constructed", t);
        if (how & 64) { c = std::move(t); look("moved-from", t); t.clear(); t.insert(M::mk(1, 1)); look("reused", t); }
        else if (how & 128) c = t;
    }
    static void built(C& c, u32 how, const std::vector<T>& src, int key, int v, std::false_type)
    {
        const typename C::allocator_type a(c.get_allocator()), b((how & 256) || !PROP ? 1 : 3);
        In<T> f, l; f.p = src.data(); l.p = src.data() + src.size();
        const Fwd<T> ff(src.data()), fl(src.data() + src.size());
        const Q q(how & 512 ? 1 : -1);
        switch (how % 11)
        {
        case 0: built2(c, how, C(a)); break;
        case 1: built2(c, how, C(q, b)); break;
        case 2: built2(c, how, C(ff, fl, b)); break;
        case 3: built2(c, how, C(ff, fl, q, b)); break;
        case 4: built2(c, how, C(f, l, q, b)); break;
        case 5: built2(c, how, C({M::mk(key, v), M::mk(key + 1, v), M::mk(key, 3)}, a)); break;
        case 6: built2(c, how, C({M::mk(key, v), M::mk(key + 1, v), M::mk(key, 3)}, q, a)); break;
        case 7: built2(c, how, C(static_cast<const C&>(c), b)); break;
        case 8: { C t(c); built2(c, how, C(std::move(t), b)); look("moved-from", t); break; }
        case 9: { C t(std::move(c)); look("moved-from", c); if (how & 64) c = std::move(t); break; }
        default: c = {M::mk(key, v), M::mk(key + 1, v), M::mk(key, 3)};
        }
    }
    static void built(C& c, u32 how, const std::vector<T>& src, int key, int v, std::true_type)
    {
        In<T> f, l; f.p = src.data(); l.p = src.data() + src.size();
        const Fwd<T> ff(src.data()), fl(src.data() + src.size());
        const Q q(how & 512 ? 1 : -1);
        switch (how % 8)
        {
        case 0: built2(c, how, C(q)); break;
        case 1: built2(c, how, C(ff, fl)); break;
        case 2: built2(c, how, C(ff, fl, q)); break;
        case 3: built2(c, how, C(f, l, q)); break;
        case 4: if (c.capacity() >= 3) built2(c, how, C({M::mk(key, v), M::mk(key + 1, v), M::mk(key, 3)})); break;
        case 5: if (c.capacity() >= 3) built2(c, how, C({M::mk(key, v), M::mk(key + 1, v), M::mk(key, 3)}, q)); break;
        case 6: { C t(std::move(c)); look("moved-from", c); if (how & 64) c = std::move(t); break; }
        default: if (c.capacity() >= 3) c = {M::mk(key, v), M::mk(key + 1, v), M::mk(key, 3)};
        }
    }
    // Insertion of something that is not the value type: a transparently comparable key, a pair of others.
    static void other_type(C& c, u32 how, int k, int, std::size_t hint, std::integral_constant<int, M_SET>)
    {
        const C& cc = c;
        switch (how % 3)
        {
        case 0: obs("insert K", pos_of(c, c.insert(k))); break;
        case 1: obs("insert hint K", pos_of(c, c.insert(cc.nth(hint), k))); break;
        default: obs("emplace K", pos_of(c, c.emplace(k)));
        }
    }
    static void other_type(C& c, u32 how, int k, int, std::size_t hint, std::integral_constant<int, M_MULTI>)
    {
        const C& cc = c;
        if (how & 1) obs("emplace K", pos_of(c, c.emplace(k))); else obs("emplace_hint K", pos_of(c, c.emplace_hint(cc.nth(hint), k)));
    }
    static void other_type(C& c, u32 how, int k, int v, std::size_t hint, std::integral_constant<int, M_MAP>)
    {
        typedef typename C::mapped_type Map;
        const C& cc = c;
        switch (how % 8)
        {
        case 0: obs("insert P", pos_of(c, c.insert(std::pair<int, int>(k, v)))); break;
        case 1: obs("insert hint P", pos_of(c, c.insert(cc.nth(hint), std::pair<int, int>(k, v)))); break;
        case 2: obs("emplace", pos_of(c, c.emplace(k, v))); break;
        case 3: obs("emplace_hint", pos_of(c, c.emplace_hint(cc.nth(hint), k, v))); break;
        case 4: obs("try_emplace K", pos_of(c, c.try_emplace(k, v))); break;
        case 5: obs("try_emplace hint K", pos_of(c, c.try_emplace(cc.nth(hint), k, v))); break;
        case 6: obs("insert_or_assign hint K", pos_of(c, c.insert_or_assign(cc.nth(hint), k, Map(v)))); break;
        default: c[k] = Map(v);
        }
    }
    static void other_type(C& c, u32 how, int k, int v, std::size_t hint, std::integral_constant<int, M_MAP | M_MULTI>)
    {
        const C& cc = c;
        switch (how % 4)
        {
        case 0: obs("insert P", pos_of(c, c.insert(std::pair<int, int>(k, v)))); break;
        case 1: obs("insert hint P", pos_of(c, c.insert(cc.nth(hint), std::pair<int, int>(k, v)))); break;
        case 2: obs("emplace", pos_of(c, c.emplace(k, v))); break;
        default: obs("emplace_hint", pos_of(c, c.emplace_hint(cc.nth(hint), k, v)));
        }
    }
    static void run(const std::vector<Row>& rows)
    {
        // each container in a block of its own, so that a sanitizer sees accesses beyond it
        C* s[2] = {static_cast<C*>(get_block(sizeof(C))), static_cast<C*>(get_block(sizeof(C)))};
        amake<C, Q>(s[0], 1, 1, Static());
        amake<C, Q>(s[1], PROP ? 2 : 1, -1, Static());
        int next = 1;
        for (std::size_t i = 0; i < rows.size(); ++i)
        {
            const Row& w = rows[i];
            C& c = *s[w.e & 1];
            C& o = *s[(w.e & 1) ^ 1];
            const C& cc = c;
            const std::size_t n = c.size();
            const std::size_t top = (K & M_STATIC) ? c.capacity() : limit ? limit : 40 * scale;
            const std::size_t room = n < top ? top - n : 0;
            const std::size_t hint = w.a % (n + 1);
            const int key = int(w.b % (24 * scale)), v = next++ % 900;
            std::vector<T> src; src.reserve(12 * scale);
            const std::size_t q = std::min<std::size_t>(w.d % (12 * scale), room);
            for (std::size_t j = 0; j < q; ++j) src.push_back(M::mk(int((w.d / 16 + j * (w.b % 11)) % (24 * scale)), int(j % 1000)));
            if (verbose) std::printf("  [%d] op %u hint %u n %u key %d value %d\n", int(w.e & 1), w.op % 32, unsigned(hint), unsigned(q), key, v);
            if (n > 3) big = true;
            mix(w.op % 32);
            switch (w.op % 32)
            {
            case 0: case 1: if (room) { const T t = M::mk(key, v); obs("insert", pos_of(c, c.insert(t))); } break;
            case 2: case 3: if (room) obs("insert", pos_of(c, c.insert(M::mk(key, v)))); break;
            case 4: if (room) obs("emplace", pos_of(c, c.emplace(M::mk(key, v)))); break;
            case 5: if (room) { const T t = M::mk(key, v); obs("insert hint", pos_of(c, c.insert(cc.nth(hint), t))); } break;
            case 6: if (room) obs("insert hint", pos_of(c, c.insert(cc.nth(hint), M::mk(key, v)))); break;
            case 7: if (room) obs("emplace_hint", pos_of(c, c.emplace_hint(cc.nth(hint), M::mk(key, v)))); break;
            case 8: case 9: c.insert(Fwd<T>(src.data()), Fwd<T>(src.data() + src.size())); break;
            case 10: { In<T> f, l; f.p = src.data(); l.p = src.data() + src.size(); c.insert(f, l); break; }
            case 11: if (room >= 3) c.insert({M::mk(key, 1), M::mk(key + 1, 2), M::mk(key, 3)}); break;
            case 12: if (n) obs("erase", c.index_of(c.erase(cc.nth(w.a % n)))); break;
            case 13: { const std::size_t l = hint + w.b % (n - hint + 1); obs("erase range", c.index_of(c.erase(cc.nth(hint), cc.nth(l)))); break; }
            case 14: { Other x = {key}; if (w.a & 1) obs("erase key", c.erase(x)); else obs("erase key", c.erase(typename C::key_type(key))); break; }
            case 15: { const int m = 2 + int(w.b % 4); obs("erase_if", erase_if(c, [m](const T& t) { return M::key(t) % m == 0; })); break; }
            case 16: a_reserve(c, w.b % (top + 1), w.a, Static()); break;
            case 17: if (w.b % 5 == 0) c.clear(); break;
            case 18: c = static_cast<const C&>(o); break;
            case 19: c = std::move(o); look("moved-from", o); o.clear(); break;
            case 20: do_swap(c, o, w.b); break;
            case 21: { frozen_copy(cc); C t(cc); obs("equal", t == cc); C u(std::move(t)); look("moved", u); u = {M::mk(1, 1)}; look("assigned list", u); break; }
            case 22: case 23: { Other x = {key}; const typename C::key_type k(key); Frozen fz("find()"); obs("find", cc.index_of(cc.find(x))); obs("find", c.index_of(c.find(k))); fz.now("count()"); obs("count", cc.count(x)); fz.now("contains()"); obs("contains", cc.contains(k)); fz.now("lower_bound(), upper_bound() or equal_range()"); bounds(c, key, Unord()); fz.now("find()"); obs("find", cc.index_of(cc.find(k)) + cc.index_of(c.find(x)) * 100); fz.now("key_comp(), key_eq(), value_comp() or value_eq()"); obs("functions", functions(cc, key, 0)); break; }
            case 24: { Frozen fz("comparison"); obs("compare", cmp(cc, static_cast<const C&>(o), Unord())); } break;
            case 26: case 27: built(c, w.a, src, key, v, Static()); break;
            case 28: case 29: if (room) other_type(c, w.a, key, v, hint, std::integral_constant<int, K & (M_MAP | M_MULTI)>()); break;
            case 25: if (!(K & M_STATIC) && limit && n == limit) { const bool r = expect_error([&] { c.insert(M::mk(500, 1)); }); (void)r; } break;
            default: map_ops(c, w.a, key, v, hint, room > 0, UMap());
            }
            look("size", c);
            if (w.op % 32 >= 18) look("other size", o);
            src.clear();
            obs("live", u64(live - long(0))); obs("allocations", u64(allocs)); obs("blocks", u64(blocks));
        }
        s[0]->~C(); s[1]->~C();
        put_block(s[0]); put_block(s[1]);
        obs("live", u64(live)); obs("blocks", u64(blocks));
    }
};

inline void run_case(const Subject& s, const std::vector<Row>& rows, u64 idx)
{
    digest = 1469598103934665603ull;
    live = 0; allocs = 0; blocks = 0; armed = false; big = false;
    scale = idx % 16 == 13 ? 50 : idx % 16 == 5 ? 8 : 1;
    static const std::size_t limits[] = {0, 0, 0, 30};
    limit = std::strstr(s.name, "segmented") || std::strstr(s.name, "devector") ? 0 : limits[idx % 4];
#ifdef CONF_FREEZE
    arenas_reset();
#endif
    s.run(rows);
}
} // namespace cf

#ifdef SFL_NO_EXCEPTIONS
extern "C" __attribute__((noreturn)) void abort(void) noexcept
{
    if (cf::armed) { cf::armed = false; longjmp(cf::jb, 1); }
    std::fprintf(stderr, "abort() called\n");
    _Exit(134);
}
extern "C" __attribute__((noreturn)) void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept
{
    if (!cf::armed) std::fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e);
    abort();
}
#endif

// conf digests SUBJECT SEED FROM TO ROWS         prints "index digest nontrivial" per history
// conf trace SUBJECT SEED INDEX ROWS [k,k,...]   prints the observations of one history (kept rows)
// conf list
int main(int argc, char** argv)
{
    using namespace cf;
    std::setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    if (argc >= 2 && !std::strcmp(argv[1], "list")) { for (auto& s : subjects()) std::printf("%s\n", s.name); return 0; }
    if (argc < 6) return 2;
    for (auto& s : subjects())
    {
        if (std::strcmp(s.name, argv[2])) continue;
        const u64 seed = std::strtoull(argv[3], nullptr, 10);
        std::vector<Row> rows;
        if (!std::strcmp(argv[1], "digests"))
        {
            const u64 from = std::strtoull(argv[4], nullptr, 10), to = std::strtoull(argv[5], nullptr, 10);
            for (u64 i = from; i < to; ++i)
            {
                make_rows(rows, s.name, seed, i, u32(std::atoi(argv[6])));
                run_case(s, rows, i);
                std::printf("%llu %llx %d %d\n", i, digest, int(big), int(rows.size()));
#ifdef CONF_FREEZE
                if (i + 1 == to) std::printf("frozen %llu\n", frozen_calls);
#endif
                if (i % 64 == 0) std::fflush(stdout);
            }
            return 0;
        }
        const u64 i = std::strtoull(argv[4], nullptr, 10);
        make_rows(rows, s.name, seed, i, u32(std::atoi(argv[5])));
        if (argc > 6)
        {
            std::vector<Row> kept;
            for (char* p = argv[6]; *p;) { char* e; const u64 k = std::strtoull(p, &e, 10); if (e == p) break; if (k < rows.size()) kept.push_back(rows[k]); p = *e ? e + 1 : e; }
            rows.swap(kept);
        }
        verbose = true;
        std::setvbuf(stdout, nullptr, _IOLBF, 1 << 12);
        run_case(s, rows, i);
        std::printf("digest %llx\n", digest);
        return 0;
    }
    return 3;
}
