// Containers of built-in and of standard library types, with standard comparators and allocators.
// Driven by the command line of huge.hpp. C++17.
#pragma once
#include "huge/huge.hpp"
#include "sfl/vector.hpp"
#include <any>
#include <array>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory_resource>
#include <optional>
#include <set>
#include <string_view>
#include <tuple>
#include <variant>

namespace ty
{
using hg::Row;
using hg::Rng;
using hg::u64;
using hg::say;
// What is judged: 1 contents and results, 2 comparison operators, 4 allocators of elements
inline unsigned judged() { static const unsigned m = std::getenv("TYPES_JUDGED") ? unsigned(std::atoi(std::getenv("TYPES_JUDGED"))) : 7; return m; }
template <class... A> [[noreturn]] void fail(A... a) { if (!(judged() & 1)) throw hg::Skip(); hg::fail(a...); }
typedef std::ptrdiff_t D;
typedef std::vector<int> Codes;

// ---- values by number; 0 is the value-initialized one ------------------------------------
struct Rec { int a, b, c; int f(int x) { return x + a; } int g(int x) { return x + b; } };
enum class Small : unsigned char {};
struct Agg { int a; char b; double c; };
inline bool operator==(const Agg& x, const Agg& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
inline bool operator<(const Agg& x, const Agg& y) { return std::tie(x.a, x.b, x.c) < std::tie(y.a, y.b, y.c); }
inline int plus1(int x) { return x + 1; }
inline int plus2(int x) { return x + 2; }
inline int targets[20] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19};

template <class T, class = void> struct Val // integers
{
    static constexpr int N = std::is_same_v<T, bool> ? 2 : 40;
    static T mk(int c) { return T(c < 20 ? c : 148 + c); } // some are negative if T is signed char
    static bool same(const T& x, int c) { return x == mk(c); }
};
template <class T> struct Val<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    static constexpr int N = 9;
    static T mk(int c)
    {
        typedef std::numeric_limits<T> L;
        const T t[] = {T(0), -T(0), T(1.5), T(-1.5), L::infinity(), -L::infinity(), L::denorm_min(), L::max(), L::quiet_NaN()};
        return t[c];
    }
    static bool same(const T& x, int c) { const T y = mk(c); return std::memcmp(&x, &y, sizeof(T) == 16 ? 10 : sizeof(T)) == 0; }
};
template <> struct Val<Small> { static constexpr int N = 40; static Small mk(int c) { return Small(c * 6); } static bool same(Small x, int c) { return x == mk(c); } };
template <> struct Val<int Rec::*> { static constexpr int N = 4; static int Rec::* mk(int c) { static int Rec::* const t[] = {nullptr, &Rec::a, &Rec::b, &Rec::c}; return t[c]; } static bool same(int Rec::* x, int c) { return x == mk(c); } };
typedef int (Rec::*Mf)(int);
template <> struct Val<Mf> { static constexpr int N = 3; static Mf mk(int c) { static const Mf t[] = {nullptr, &Rec::f, &Rec::g}; return t[c]; } static bool same(Mf x, int c) { return x == mk(c); } };
typedef int (*Fp)(int);
template <> struct Val<Fp> { static constexpr int N = 3; static Fp mk(int c) { static const Fp t[] = {nullptr, plus1, plus2}; return t[c]; } static bool same(Fp x, int c) { return x == mk(c); } };
template <> struct Val<int*> { static constexpr int N = 20; static int* mk(int c) { return c ? targets + c : nullptr; } static bool same(int* x, int c) { return x == mk(c); } };
template <class A> struct Val<std::basic_string<char, std::char_traits<char>, A>>
{
    typedef std::basic_string<char, std::char_traits<char>, A> T;
    static constexpr int N = 40;
    static T mk(int c) { return T(std::size_t(c), char('a' + c % 5)); } // short ones are inside of the object
    static bool same(const T& x, int c) { return x == mk(c); }
};
template <> struct Val<std::unique_ptr<int>> { typedef std::unique_ptr<int> T; static constexpr int N = 30; static T mk(int c) { return c ? T(new int(c)) : T(); } static bool same(const T& x, int c) { return c ? x && *x == c : !x; } };
template <> struct Val<std::shared_ptr<int>> { typedef std::shared_ptr<int> T; static constexpr int N = 30; static T mk(int c) { return c ? std::make_shared<int>(c) : T(); } static bool same(const T& x, int c) { return c ? x && *x == c : !x; } };
template <> struct Val<std::vector<int>> { typedef std::vector<int> T; static constexpr int N = 20; static T mk(int c) { return T(std::size_t(c) / 3, c); } static bool same(const T& x, int c) { return x == mk(c); } };
template <> struct Val<std::any> { static constexpr int N = 30; static std::any mk(int c) { return c == 0 ? std::any() : c % 3 ? std::any(c) : std::any(std::string(std::size_t(c), 'x')); } static bool same(const std::any& x, int c) { if (c == 0) return !x.has_value(); if (c % 3) return std::any_cast<int>(&x) && *std::any_cast<int>(&x) == c; return std::any_cast<std::string>(&x) && std::any_cast<std::string>(&x)->size() == std::size_t(c); } };
template <> struct Val<std::optional<int>> { typedef std::optional<int> T; static constexpr int N = 30; static T mk(int c) { return c ? T(c) : T(); } static bool same(const T& x, int c) { return x == mk(c); } };
template <> struct Val<std::variant<int, std::string>> { typedef std::variant<int, std::string> T; static constexpr int N = 30; static T mk(int c) { return c % 2 ? T(std::string(std::size_t(c), 'v')) : T(c); } static bool same(const T& x, int c) { return x == mk(c); } };
template <> struct Val<std::array<short, 3>> { typedef std::array<short, 3> T; static constexpr int N = 30; static T mk(int c) { return T{{short(c / 4), short(c % 4), short(-c)}}; } static bool same(const T& x, int c) { return x == mk(c); } };
template <> struct Val<Agg> { static constexpr int N = 30; static Agg mk(int c) { return Agg{c, char(c), c * 0.5}; } static bool same(const Agg& x, int c) { return x == mk(c); } };
template <> struct Val<std::reference_wrapper<int>> { typedef std::reference_wrapper<int> T; static constexpr int N = 20; static T mk(int c) { return T(targets[c]); } static bool same(const T& x, int c) { return &x.get() == targets + c; } };
template <class A, class B> struct Val<std::pair<A, B>>
{
    typedef std::pair<A, B> T;
    static constexpr int N = Val<B>::N;
    static T mk(int c) { return T(Val<A>::mk(c % Val<A>::N), Val<B>::mk(c)); }
    static bool same(const T& x, int c) { return Val<A>::same(x.first, c % Val<A>::N) && Val<B>::same(x.second, c); }
};
template <class T> struct Nested // a sequence container of this library
{
    static constexpr int N = 20;
    static T mk(int c) { return T(std::size_t(c) / 3, c); }
    static bool same(const T& x, int c) { return x == mk(c); }
};

template <> struct Val<sfl::vector<int>> : Nested<sfl::vector<int>> {};

template <class T> int code(const T& x)
{
    for (int c = 0; c < Val<T>::N; ++c) if (Val<T>::same(x, c)) return c;
    return -1;
}
template <class T> int pick(u64 r) { return int(r % 3 == 0 ? 0 : (r / 3) % Val<T>::N); }
template <class T> T mk(int c) { return Val<T>::mk(c); }
// the number a value made from c is recognized by
template <class T> int canon(int c) { return code(mk<T>(c)); }

template <class T> auto eq_(const T& a, int) -> decltype(bool(a == a), std::true_type());
template <class T> std::false_type eq_(const T&, long);
template <class T> auto lt_(const T& a, int) -> decltype(bool(a < a), std::true_type());
template <class T> std::false_type lt_(const T&, long);
template <class T> constexpr bool has_eq = decltype(eq_(std::declval<const T&>(), 0))::value;
template <class T> constexpr bool has_lt = decltype(lt_(std::declval<const T&>(), 0))::value;
template <class A, class B> constexpr bool has_eq<std::pair<A, B>> = has_eq<A> && has_eq<B>;
template <class A, class B> constexpr bool has_lt<std::pair<A, B>> = has_lt<A> && has_lt<B>;

template <class T> constexpr bool by_value = true; // two values made from one number are equal
template <class T> constexpr bool by_value<std::unique_ptr<T>> = false;
template <class T> constexpr bool by_value<std::shared_ptr<T>> = false;
template <class A, class B> constexpr bool by_value<std::pair<A, B>> = by_value<A> && by_value<B>;

// elements that use an allocator get the one of the container
template <class C, class T> void same_resource(const C& c, const T& x, const char* what)
{
    if constexpr (std::is_same_v<T, std::pmr::string>)
    {
        if ((judged() & 4) && x.get_allocator().resource() != c.get_allocator().resource()) hg::fail((std::string("after ") + what + " an element does not use the memory resource of its container").c_str());
    }
}
template <class C, class A, class B> void same_resource(const C& c, const std::pair<A, B>& x, const char* what) { same_resource(c, x.first, what); same_resource(c, x.second, what); }

struct Counted : std::pmr::memory_resource
{
    long blocks = 0;
    void* do_allocate(std::size_t n, std::size_t a) override { ++blocks; return std::pmr::new_delete_resource()->allocate(n, a); }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override { --blocks; std::pmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
template <class A> struct is_pmr : std::false_type {};
template <class T> struct is_pmr<std::pmr::polymorphic_allocator<T>> : std::true_type {};
template <class C> auto alloc_t(int) -> typename C::allocator_type;
template <class C> void alloc_t(long);
template <class C> constexpr bool pmr = is_pmr<decltype(alloc_t<C>(0))>::value;

template <class C, class... A> std::unique_ptr<C> fresh(Counted& r, A&&... a)
{
    if constexpr (pmr<C>) return std::unique_ptr<C>(new C(std::forward<A>(a)..., typename C::allocator_type(&r)));
    else { (void)r; return std::unique_ptr<C>(new C(std::forward<A>(a)...)); }
}

// A range of values by number.
template <class T, class Cat> struct Vals
{
    typedef Cat iterator_category; typedef T value_type; typedef D difference_type; typedef const T* pointer; typedef T reference;
    const int* p;
    T operator*() const { return mk<T>(*p); }
    Vals& operator++() { ++p; return *this; }
    Vals operator++(int) { Vals t = *this; ++p; return t; }
    friend bool operator==(Vals a, Vals b) { return a.p == b.p; }
    friend bool operator!=(Vals a, Vals b) { return a.p != b.p; }
};

template <class C>
struct Seq
{
    typedef typename C::value_type T;
    static constexpr bool reserves = decltype(hg::has_reserve(std::declval<C&>(), 0))::value;
    static constexpr bool front = decltype(hg::has_front(std::declval<C&>(), 0))::value;
    static constexpr bool shrinks = decltype(hg::has_shrink(std::declval<C&>(), 0))::value;
    static constexpr bool is_static = decltype(hg::has_full(std::declval<C&>(), 0))::value;
    static constexpr bool copies = std::is_copy_constructible_v<T>;
    static constexpr bool defaults = std::is_default_constructible_v<T>;
    Counted ra, rb;
    std::unique_ptr<C> p, q;
    Codes m, w;
    u64 limit = 60;

    static Codes snap(const C& c)
    {
        Codes z;
        for (auto& x : c) z.push_back(code<T>(x));
        return z;
    }
    // what a container still holds after it was moved from
    static Codes left(C& c) { Codes z = snap(c); if (std::count(z.begin(), z.end(), -1)) { c.clear(); z.clear(); } return z; }
    void verify(const C& c, const Codes& x, const char* what)
    {
        if (c.size() != x.size()) fail((std::string("after ") + what + " size() is %llu, the model has %llu elements").c_str(), c.size(), x.size());
        const Codes z = snap(c);
        if (z != x) { u64 i = 0; while (z[i] == x[i]) ++i; fail((std::string("after ") + what + " element %llu of %llu is wrong (expected value %llu)").c_str(), i, x.size(), u64(x[i])); }
        for (auto& e : c) same_resource(c, e, what);
        hg::checked += x.size();
        hg::biggest = std::max<u64>(hg::biggest, x.size());
    }
    static std::vector<T> objects(const Codes& x) { std::vector<T> v; for (int c : x) v.push_back(mk<T>(c)); return v; }
    Codes some(u64 r, u64 n) { Codes z; Rng g(r); for (u64 i = 0; i < n; ++i) z.push_back(canon<T>(pick<T>(g.next() >> 8))); return z; }
    template <class F> void range(u64 how, const Codes& x, F f)
    {
        typedef Vals<T, std::input_iterator_tag> I;
        typedef Vals<T, std::forward_iterator_tag> Fw;
        const int *b = x.data(), *e = b + x.size();
        if constexpr (copies)
        {
            if (how % 4 == 0) { auto v = objects(x); f(v.begin(), v.end()); return; }
            if (how % 4 == 1) { auto v = objects(x); f(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); return; }
        }
        if (how % 2) f(I{b}, I{e}); else f(Fw{b}, Fw{e});
    }
    void ret(typename C::iterator it, u64 i, const char* what) { if (u64(it - p->begin()) != i) fail((std::string(what) + " returns position %llu instead of %llu").c_str(), u64(it - p->begin()), i); }

    void step(const Row& r)
    {
        C& c = *p;
        const u64 n = m.size(), room = limit > n ? limit - n : 0, i = r.a % (n + 1);
        const int v = canon<T>(pick<T>(r.d));
        const u64 k = std::min(room, r.b % 7);
        const char* what = "";
        hg::mix(r.op % 26); hg::mix(n);
        ++hg::ops_done;
        switch (r.op % 26)
        {
        case 0: case 1: case 2: if (!room) return; what = "push_back or emplace_back"; if (r.a % 3 == 0) { T t = mk<T>(v); c.push_back(std::move(t)); } else if (r.a % 3 == 1) { T& e = c.emplace_back(mk<T>(v)); if (&e != &c.back()) fail("emplace_back returns another element"); } else if constexpr (copies) { const T t = mk<T>(v); c.push_back(t); } else c.push_back(mk<T>(v)); m.push_back(v); break;
        case 3: if (!n) return; what = "pop_back"; c.pop_back(); m.pop_back(); break;
        case 4: case 5: if (!room) return; what = "insert of one element"; if constexpr (copies) { const T t = mk<T>(v); if (r.b & 1) { ret(c.insert(c.nth(i), t), i, what); m.insert(m.begin() + D(i), v); break; } } if (r.b & 2) ret(c.insert(c.nth(i), mk<T>(v)), i, what); else ret(c.emplace(c.nth(i), mk<T>(v)), i, what); m.insert(m.begin() + D(i), v); break;
        case 6: if constexpr (copies) { what = "insert of copies"; const T t = mk<T>(v); ret(c.insert(c.nth(i), k, t), i, what); m.insert(m.begin() + D(i), k, v); } break;
        case 7: case 8: { what = "insert of a range"; const Codes x = some(r.d, k); range(r.op >> 20, x, [&](auto a, auto b) { ret(c.insert(c.nth(i), a, b), i, what); }); m.insert(m.begin() + D(i), x.begin(), x.end()); break; }
        case 9: if constexpr (copies) { if (room < 3) return; what = "insert of an initializer list"; const Codes x = some(r.d, 3); ret(c.insert(c.nth(i), {mk<T>(x[0]), mk<T>(x[1]), mk<T>(x[2])}), i, what); m.insert(m.begin() + D(i), x.begin(), x.end()); } break;
        case 10: if (i == n) return; what = "erase"; ret(c.erase(c.nth(i)), i, what); m.erase(m.begin() + D(i)); break;
        case 11: { what = "erase of a range"; const u64 z = std::min(n - i, r.b % 6); ret(c.erase(c.nth(i), c.nth(i + z)), i, what); m.erase(m.begin() + D(i), m.begin() + D(i + z)); break; }
        case 12: case 13:
        {
            what = "resize";
            const u64 z = std::min(limit, (r.b & 1) ? n + r.b / 2 % 7 : n - std::min(n, r.b / 2 % 7));
            const bool at_front = front && (r.a & 1);
            const D d = D(z) - D(n);
            if (!copies && !defaults && d > 0) return;
            const bool def = defaults && (!copies || (r.d & 1024));
            const int e = def ? canon<T>(0) : v;
            if constexpr (defaults) if (def) { if constexpr (front) { if (at_front) c.resize_front(z); else c.resize_back(z); } else c.resize(z); }
            if constexpr (copies) if (!def) { const T t = mk<T>(v); if constexpr (front) { if (at_front) c.resize_front(z, t); else c.resize_back(z, t); } else c.resize(z, t); }
            if (!copies && !defaults) { c.erase(c.nth(z), c.end()); m.resize(z); break; }
            if (d < 0) { if (at_front) m.erase(m.begin(), m.begin() - d); else m.resize(z); }
            else m.insert(at_front ? m.begin() : m.end(), std::size_t(d), e);
            break;
        }
        case 14: { what = "assign"; const u64 z = std::min(limit, r.b % 20); if constexpr (copies) if (r.a & 1) { const T t = mk<T>(v); c.assign(z, t); m.assign(z, v); break; } const Codes x = some(r.d, z); range(r.op >> 20, x, [&](auto a, auto b) { c.assign(a, b); }); m = x; break; }
        case 15: if constexpr (copies) { what = "assignment of an initializer list"; const Codes x = some(r.d, 3); if (r.a & 1) c = {mk<T>(x[0]), mk<T>(x[1]), mk<T>(x[2])}; else c.assign({mk<T>(x[0]), mk<T>(x[1]), mk<T>(x[2])}); m = x; } break;
        case 16: what = "swap"; if constexpr (pmr<C>) if (c.get_allocator() != q->get_allocator()) return; if (r.a & 1) c.swap(*q); else { using std::swap; swap(c, *q); } m.swap(w); break;
        case 17: if constexpr (std::is_move_assignable_v<T>) { what = "move assignment"; c = std::move(*q); m = w; if (r.b & 1) { q->clear(); w.clear(); } else w = left(*q); }  break;
        case 18: if constexpr (copies && std::is_copy_assignable_v<T>) { what = "copy assignment"; *q = static_cast<const C&>(c); w = m; if (r.a & 1) *q = static_cast<const C&>(*q); } break;
        case 19:
            what = "construction of a copy or from elements";
            if constexpr (copies)
            {
                if (r.a % 3 == 0) { if constexpr (pmr<C>) q.reset(new C(static_cast<const C&>(c), typename C::allocator_type((r.b & 1) ? &ra : &rb))); else q.reset(new C(static_cast<const C&>(c))); w = m; break; }
                if (r.a % 3 == 1) { const T t = mk<T>(v); q = fresh<C>(rb, std::size_t(r.b % 13), t); w.assign(r.b % 13, v); break; }
            }
            if (defaults && (r.a & 4)) { if constexpr (defaults) { q = fresh<C>(rb, std::size_t(r.b % 13)); w.assign(r.b % 13, canon<T>(0)); } }
            else { const Codes x = some(r.d, r.b % 13); range(r.op >> 20, x, [&](auto a, auto b) { q = fresh<C>(rb, a, b); }); w = x; }
            break;
        case 20: { what = "move construction"; if constexpr (pmr<C>) q.reset(new C(std::move(c), typename C::allocator_type((r.b & 1) ? &ra : &rb))); else q.reset(new C(std::move(c))); w = m; if (r.b & 2) { c.clear(); m.clear(); } else m = left(c); p.swap(q); m.swap(w); break; }
        case 21: what = "reserve or shrink_to_fit"; if constexpr (reserves) if (r.a & 1) { c.reserve(n + r.b % 20); break; } if constexpr (shrinks) c.shrink_to_fit(); break;
        case 22: what = "erase of a value"; if constexpr (has_eq<T> && by_value<T>) { const T t = mk<T>(v); const u64 got = erase(c, t); Codes z; for (int x : m) if (!(mk<T>(x) == t)) z.push_back(x); if (got != m.size() - z.size()) fail("erase(c, value) returns %llu instead of %llu", got, m.size() - z.size()); m = z; } break;
        case 23: { what = "erase_if"; const int d = 2 + int(r.a % 5); const u64 got = erase_if(c, [d](const T& x) { return code<T>(x) % d == 1; }); Codes z; for (int x : m) if (x % d != 1) z.push_back(x); if (got != m.size() - z.size()) fail("erase_if returns %llu instead of %llu", got, m.size() - z.size()); m = z; break; }
        case 24: if constexpr (front) { what = "an operation at the front"; if (r.b % 4 == 0) { if (!n) return; c.pop_front(); m.erase(m.begin()); } else { if (!room) return; if (r.b & 1) c.push_front(mk<T>(v)); else if constexpr (copies) { const T t = mk<T>(v); c.push_front(t); } else c.emplace_front(mk<T>(v)); m.insert(m.begin(), v); } } break;
        default:
            if (i == n) return;
            what = "a write";
            if constexpr (std::is_move_assignable_v<T>) { switch (r.b % 5) { case 0: c[i] = mk<T>(v); break; case 1: *c.nth(i) = mk<T>(v); break; case 2: c.at(i) = mk<T>(v); break; case 3: c.begin()[D(i)] = mk<T>(v); break; default: (i ? c.back() : c.front()) = mk<T>(v); m[i ? n - 1 : 0] = v; what = nullptr; } if (what) m[i] = v; else what = "a write"; }
        }
        verify(*p, m, what);
        verify(*q, w, what);
        if constexpr (has_eq<T> && by_value<T>) if (judged() & 2)
        {
            const std::vector<T> a = objects(m), b = objects(w);
            if ((*p == *q) != (a == b) || (*p != *q) != (a != b)) hg::fail("== or != of containers of %llu and %llu elements is not that of std::vector", m.size(), w.size());
            if constexpr (has_lt<T>) if ((*p < *q) != (a < b) || (*p > *q) != (a > b) || (*p <= *q) != (a <= b) || (*p >= *q) != (a >= b)) hg::fail("an ordering of containers of %llu and %llu elements is not that of std::vector", m.size(), w.size());
        }
        say("%llu: sizes %llu and %llu, ", r.op % 26, m.size(), w.size());
        if (hg::verbose) std::printf("%s\n", what);
    }
    static void run(const std::vector<Row>& rows)
    {
        Seq s;
        s.p = fresh<C>(s.ra); s.q = fresh<C>(s.rb);
        if (is_static) s.limit = s.p->capacity();
        for (auto& r : rows) s.step(r);
        s.p.reset(); s.q.reset();
        if (s.ra.blocks || s.rb.blocks) fail("%llu blocks of memory were not given back", u64(s.ra.blocks + s.rb.blocks));
    }
};

// ---- associative containers ---------------------------------------------------------------
struct PtrLess
{
    typedef void is_transparent;
    static int g(const std::unique_ptr<int>& x) { return x ? *x : 0; }
    static int g(int x) { return x; }
    template <class A, class B> bool operator()(const A& a, const B& b) const { return g(a) < g(b); }
};
struct PtrEq
{
    typedef void is_transparent;
    template <class A, class B> bool operator()(const A& a, const B& b) const { return PtrLess::g(a) == PtrLess::g(b); }
};
struct Last { bool operator()(int a, int b) const { return a % 10 < b % 10; } };
struct LastEq { bool operator()(int a, int b) const { return a % 10 == b % 10; } };
typedef std::function<bool(const std::string&, const std::string&)> Fn;
inline auto by_size = [](const std::string& a, const std::string& b) { return a.size() < b.size(); };
inline auto eq_size = [](const std::string& a, const std::string& b) { return a.size() / 3 == b.size() / 3; };
typedef decltype(by_size) BySize;
typedef decltype(eq_size) EqSize;
template <class F, bool ORD> F functor() { return F(); }
template <> inline Fn functor<Fn, true>() { return [](const std::string& a, const std::string& b) { return a > b; }; }
template <> inline Fn functor<Fn, false>() { return [](const std::string& a, const std::string& b) { return a == b; }; }
template <> inline decltype(by_size) functor<BySize, true>() { return by_size; }
template <> inline decltype(eq_size) functor<EqSize, false>() { return eq_size; }

template <class C> auto cmp_t(int) -> typename C::key_compare;
template <class C> auto cmp_t(long) -> typename C::key_equal;

template <class C, bool MAP, bool MULTI, bool ORD>
struct Assoc
{
    typedef typename C::value_type V;
    typedef typename C::key_type K;
    typedef decltype(cmp_t<C>(0)) F;
    template <class X, bool M_> struct Mapped { typedef int type; };
    template <class X> struct Mapped<X, true> { typedef typename X::mapped_type type; };
    typedef typename Mapped<C, MAP>::type M;
    typedef std::pair<int, int> P; // key and mapped value by number
    static constexpr bool is_static = decltype(hg::has_full(std::declval<C&>(), 0))::value;
    static constexpr bool copies = std::is_copy_constructible_v<V>;
    static constexpr bool assigns = std::is_move_assignable_v<F>;
    Counted ra, rb;
    std::unique_ptr<C> p, q;
    std::vector<P> m, w; // ordered: in order
    u64 limit = 40;
    F f = functor<F, ORD>();

    // NaN is not ordered
    static int key_pick(u64 r) { int c = pick<K>(r); if (std::is_floating_point_v<K> && c == Val<K>::N - 1) c = 2; return canon<K>(c); }
    static int map_pick(u64 r) { if constexpr (MAP) return canon<M>(pick<M>(r)); else return 0; }
    static V val(int k, int x) { if constexpr (MAP) return V(mk<K>(k), mk<M>(x)); else return mk<K>(k); }
    static const K& key(const V& v) { if constexpr (MAP) return v.first; else return v; }
    static P codes(const V& v) { if constexpr (MAP) return P(code<K>(v.first), code<M>(v.second)); else return P(code<K>(v), 0); }
    bool equiv(int a, int b) const { const K x = mk<K>(a), y = mk<K>(b); if constexpr (ORD) return !f(x, y) && !f(y, x); else return f(x, y); }
    bool less(int a, int b) const { if constexpr (ORD) { const K x = mk<K>(a), y = mk<K>(b); return f(x, y); } else return false; }

    // the same contents in the same order, as far as the order is determined
    std::vector<P> norm(std::vector<P> x) const
    {
        if (!ORD) { std::sort(x.begin(), x.end()); return x; }
        for (std::size_t i = 0; i < x.size(); )
        {
            std::size_t j = i + 1;
            while (j < x.size() && equiv(x[i].first, x[j].first)) ++j;
            std::sort(x.begin() + D(i), x.begin() + D(j));
            i = j;
        }
        return x;
    }
    std::vector<P> snap(const C& c) const { std::vector<P> z; for (auto& v : c) z.push_back(codes(v)); return z; }
    void verify(const C& c, std::vector<P>& x, const char* what)
    {
        if (c.size() != x.size()) fail((std::string("after ") + what + " size() is %llu, the model has %llu elements").c_str(), c.size(), x.size());
        std::vector<P> z = snap(c);
        if (norm(z) != norm(x)) fail((std::string("after ") + what + " the contents of %llu elements are wrong").c_str(), x.size());
        x = z;
        for (auto& v : c) same_resource(c, v, what);
        hg::checked += x.size();
        hg::biggest = std::max<u64>(hg::biggest, x.size());
    }
    u64 count(int k) const { u64 z = 0; for (auto& x : m) z += equiv(x.first, k); return z; }
    std::size_t lo(int k) const { std::size_t i = 0; while (i < m.size() && less(m[i].first, k)) ++i; return i; }
    bool add(std::vector<P>& x, int k, int v)
    {
        if (!MULTI) for (auto& e : x) if (equiv(e.first, k)) return false;
        std::size_t i = x.size();
        if (ORD) { i = 0; while (i < x.size() && !less(k, x[i].first)) ++i; }
        x.insert(x.begin() + D(i), P(k, v));
        return true;
    }
    template <class Q> void probe(const Q& key_, int k)
    {
        C& c = *p;
        const C& cc = c;
        const u64 n = count(k);
        if (cc.count(key_) != n) fail("count() is %llu instead of %llu", cc.count(key_), n);
        if (cc.contains(key_) != (n > 0)) fail("contains() is wrong with %llu elements", m.size());
        auto it = cc.find(key_);
        if ((it != cc.end()) != (n > 0) || (n && !equiv(code<K>(key(*it)), k)) || c.find(key_) != it) fail("find() is wrong with %llu elements", m.size());
        if constexpr (ORD)
        {
            const u64 a = lo(k);
            if (u64(cc.lower_bound(key_) - cc.begin()) != a) fail("lower_bound() is at %llu instead of %llu", u64(cc.lower_bound(key_) - cc.begin()), a);
            if (u64(cc.upper_bound(key_) - cc.begin()) != a + n) fail("upper_bound() is at %llu instead of %llu", u64(cc.upper_bound(key_) - cc.begin()), a + n);
            auto e = cc.equal_range(key_);
            if (u64(e.first - cc.begin()) != a || u64(e.second - cc.begin()) != a + n) fail("equal_range() is wrong with %llu elements", m.size());
        }
        if constexpr (MAP && !MULTI)
        {
            bool thrown = false;
            try { if (!M_same(c.at(key_), k) || &c.at(key_) != &cc.at(key_)) fail("at() is wrong with %llu elements", m.size()); } catch (const std::out_of_range&) { thrown = true; }
            if (thrown != (n == 0)) fail("at() reports presence wrongly with %llu elements", m.size());
        }
    }
    bool M_same(const M& x, int k) const { for (auto& e : m) if (equiv(e.first, k)) return code<M>(x) == e.second; return false; }
    template <class X> void result(const X& r, int k, bool added)
    {
        if constexpr (MULTI) { if (code<K>(key(*r)) != k) fail("an insertion returns another position with %llu elements", m.size()); }
        else { if (!equiv(code<K>(key(*r.first)), k)) fail("an insertion returns another position with %llu elements", m.size()); if (r.second != added) fail("an insertion reports %llu instead of %llu", u64(r.second), u64(added)); }
    }
    typedef std::vector<P> Ps;
    Ps some(u64 r, u64 n) { Ps z; Rng g(r); for (u64 i = 0; i < n; ++i) { const int k = key_pick(g.next() >> 8); z.push_back(P(k, map_pick(g.next() >> 8))); } return z; }
    template <class Cat> struct It
    {
        typedef Cat iterator_category; typedef V value_type; typedef D difference_type; typedef const V* pointer; typedef V reference;
        const P* p;
        V operator*() const { return val(p->first, p->second); }
        It& operator++() { ++p; return *this; }
        It operator++(int) { It t = *this; ++p; return t; }
        friend bool operator==(It a, It b) { return a.p == b.p; }
        friend bool operator!=(It a, It b) { return a.p != b.p; }
    };
    template <class G> void range(u64 how, const Ps& x, G g)
    {
        const P *b = x.data(), *e = b + x.size();
        if (how & 1) g(It<std::input_iterator_tag>{b}, It<std::input_iterator_tag>{e}); else g(It<std::forward_iterator_tag>{b}, It<std::forward_iterator_tag>{e});
    }
    static std::vector<V> objects(const std::vector<P>& x) { std::vector<V> v; for (auto& e : x) v.push_back(val(e.first, e.second)); return v; }
    std::unique_ptr<C> empty(Counted& r) { return fresh<C>(r, f); }

    void step(const Row& r)
    {
        C& c = *p;
        const u64 n = m.size(), room = limit > n ? limit - n : 0;
        const int k = n && (r.a & 3) == 0 ? m[r.a / 4 % n].first : key_pick(r.a), x = map_pick(r.b);
        const char* what = "";
        hg::mix(r.op % 22); hg::mix(n); hg::mix(u64(k));
        ++hg::ops_done;
        switch (r.op % 22)
        {
        case 0: case 1: case 2: case 3:
            if (!room) return;
            what = "insertion";
            if (r.op >> 20 & 1) { auto z = c.emplace(val(k, x)); result(z, k, add(m, k, x)); }
            else if ((r.op >> 20 & 2) || !copies) { auto z = c.insert(val(k, x)); result(z, k, add(m, k, x)); }
            else if constexpr (copies) { const V v = val(k, x); auto z = c.insert(v); result(z, k, add(m, k, x)); }
            break;
        case 4: case 5: { if (!room) return; what = "hinted insertion"; auto h = c.nth(r.d % (n + 1)); auto it = (r.b & 1) ? c.insert(h, val(k, x)) : c.emplace_hint(h, val(k, x)); if (!equiv(code<K>(key(*it)), k)) fail("a hinted insertion returns another position with %llu elements", n); add(m, k, x); break; }
        case 6: case 7: { what = "insertion of a range"; const Ps z = some(r.d, std::min(room, r.b % 12)); range(r.op >> 20, z, [&](auto a, auto b) { c.insert(a, b); }); for (auto& e : z) add(m, e.first, e.second); break; }
        case 8: { what = "erasure of a key"; const u64 had = count(k), got = c.erase(mk<K>(k)); if (got != had) fail("erase(key) returns %llu instead of %llu", got, had); Ps z; for (auto& e : m) if (!equiv(e.first, k)) z.push_back(e); m = z; break; }
        case 9: { if (!n) return; what = "erasure of a position"; const u64 i = r.d % n; auto it = c.erase((r.b & 1) ? c.nth(i) : typename C::iterator(c.begin() + D(i))); if (u64(it - c.begin()) != i) fail("erase(position) returns position %llu instead of %llu", u64(it - c.begin()), i); m.erase(m.begin() + D(i)); break; }
        case 10: { what = "erasure of a range"; const u64 i = r.d % (n + 1), z = std::min(n - i, r.b % 6); auto it = c.erase(c.nth(i), c.nth(i + z)); if (u64(it - c.begin()) != i) fail("erase(first, last) returns position %llu instead of %llu", u64(it - c.begin()), i); m.erase(m.begin() + D(i), m.begin() + D(i + z)); break; }
        case 11: { what = "erase_if"; const int d = 2 + int(r.d % 4); const u64 got = erase_if(c, [d](const V& v) { return code<K>(key(v)) % d == 0; }); Ps z; for (auto& e : m) if (e.first % d) z.push_back(e); if (got != n - z.size()) fail("erase_if returns %llu instead of %llu", got, n - z.size()); m = z; break; }
        case 12: case 13:
            if constexpr (MAP && !MULTI)
            {
                if (!room) return;
                what = "a map operation";
                const bool had = count(k) > 0;
                auto set = [&](int z) { for (auto& e : m) if (equiv(e.first, k)) e.second = z; };
                switch (r.d % 6)
                {
                case 0: { M& y = c[mk<K>(k)]; if (!had) { if (code<M>(y) != canon<M>(0)) fail("operator[] does not value-initialize"); add(m, k, canon<M>(0)); } else if (!M_same(y, k)) fail("operator[] is wrong"); break; }
                case 1: c[mk<K>(k)] = mk<M>(x); add(m, k, x); set(x); break;
                case 2: { auto z = c.try_emplace(mk<K>(k), mk<M>(x)); result(z, k, !had); add(m, k, x); break; }
                case 3: { auto z = c.insert_or_assign(mk<K>(k), mk<M>(x)); result(z, k, !had); add(m, k, x); set(x); break; }
                case 4: if constexpr (copies) { const K key_ = mk<K>(k); auto z = c.try_emplace(key_); result(z, k, !had); add(m, k, canon<M>(0)); } break;
                default: { if (!n) return; const u64 i = r.b % n; const int y = map_pick(r.op >> 30); c.nth(i)->second = mk<M>(y); m[i].second = y; }
                }
            }
            break;
        case 14: what = "swap"; if constexpr (assigns) { if constexpr (pmr<C>) if (c.get_allocator() != q->get_allocator()) return; if (r.a & 1) c.swap(*q); else { using std::swap; swap(c, *q); } m.swap(w); } break;
        case 15: what = "move assignment"; if constexpr (assigns) { c = std::move(*q); m = w; q->clear(); w.clear(); } break;
        case 16: what = "copy assignment"; if constexpr (assigns && copies) { *q = static_cast<const C&>(c); w = m; } break;
        case 17: what = "copy construction"; if constexpr (copies) { if constexpr (pmr<C>) q.reset(new C(static_cast<const C&>(c), typename C::allocator_type((r.b & 1) ? &ra : &rb))); else q.reset(new C(static_cast<const C&>(c))); w = m; } break;
        case 18: { what = "move construction"; if constexpr (pmr<C>) q.reset(new C(std::move(c), typename C::allocator_type((r.b & 1) ? &ra : &rb))); else q.reset(new C(std::move(c))); w = m; c.clear(); m.clear(); p.swap(q); m.swap(w); break; }
        case 19: { what = "construction from a range"; const Ps z = some(r.d, std::min(limit, r.b % 20)); range(r.op >> 20, z, [&](auto a, auto b) { q = fresh<C>(rb, a, b, f); }); w.clear(); for (auto& e : z) add(w, e.first, e.second); break; }
        case 20: if constexpr (!is_static) { what = "reserve or shrink_to_fit"; if (r.a & 1) c.reserve(n + r.b % 20); else c.shrink_to_fit(); } break;
        default: what = "clear"; if (r.b % 4 == 0) { c.clear(); m.clear(); } 
        }
        verify(*p, m, what);
        verify(*q, w, what);
        const int pk = n && (r.d & 3) ? (m.empty() ? k : m[r.d / 4 % m.size()].first) : key_pick(r.d);
        { const K key_ = mk<K>(pk); probe(key_, pk); }
        // other types of a transparent functor
        if constexpr (std::is_same_v<K, std::string> && (std::is_same_v<F, std::less<>> || std::is_same_v<F, std::equal_to<>>)) { const std::string s = mk<K>(pk); probe(std::string_view(s), pk); probe(s.c_str(), pk); }
        if constexpr (std::is_same_v<K, std::unique_ptr<int>>) probe(pk, pk);
        if constexpr (has_eq<V> && by_value<V> && (ORD || ((std::is_same_v<F, std::equal_to<>> || std::is_same_v<F, std::equal_to<K>>) && !std::is_floating_point_v<M>))) if (judged() & 2)
        {
            bool e;
            const std::vector<V> a = objects(m), b = objects(w);
            if constexpr (ORD) e = a == b;
            else e = a.size() == b.size() && std::is_permutation(a.begin(), a.end(), b.begin());
            if ((*p == *q) != e || (*p != *q) == e) hg::fail("== or != of containers of %llu and %llu elements is wrong", m.size(), w.size());
            if constexpr (ORD && has_lt<V>)
            {
                const bool l = a < b;
                if ((*p < *q) != l || (*q > *p) != l || (*q <= *p) == l || (*p >= *q) == l) hg::fail("an ordering of containers of %llu and %llu elements is wrong", m.size(), w.size());
            }
        }
        say("%llu: sizes %llu and %llu, ", r.op % 22, m.size(), w.size());
        if (hg::verbose) std::printf("%s\n", what);
    }
    static void run(const std::vector<Row>& rows)
    {
        Assoc s;
        s.p = s.empty(s.ra); s.q = s.empty(s.rb);
        if (is_static) s.limit = s.p->capacity();
        for (auto& r : rows) s.step(r);
        s.p.reset(); s.q.reset();
        if (s.ra.blocks || s.rb.blocks) fail("%llu blocks of memory were not given back", u64(s.ra.blocks + s.rb.blocks));
    }
};
} // namespace ty
