// Large containers: histories over containers of some 2^8, 2^15, 2^16 and 2^17 elements, and of
// more than 2^31 or 2^32 elements, compared with a model that does not store the elements.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/resource.h>

namespace hg
{
typedef unsigned long long u64;
typedef unsigned u32;

struct Rng
{
    u64 s;
    explicit Rng(u64 x) : s(x) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};
inline u64 hash_name(const char* s) { u64 h = 1469598103934665603ull; for (; *s; ++s) { h ^= static_cast<unsigned char>(*s); h *= 1099511628211ull; } return h; }

static bool verbose = false;
static std::string failure;
static u64 ops_done = 0, checked = 0, digest = 0;
static u64 biggest = 0;
struct Stop {};
struct Skip {}; // what went wrong is judged elsewhere
[[noreturn]] inline void fail(const char* what, u64 a = 0, u64 b = 0, u64 c = 0)
{
    char buf[400];
    std::snprintf(buf, sizeof buf, what, a, b, c);
    failure = buf;
    throw Stop();
}
inline void say(const char* what, u64 a = 0, u64 b = 0, u64 c = 0) { if (verbose) { std::printf(what, a, b, c); std::fflush(stdout); } }
inline void mix(u64 x) { digest ^= x + 0x9E3779B97F4A7C15ull + (digest << 6) + (digest >> 2); digest *= 1099511628211ull; }

struct Row { u64 op, a, b, d; };

// An element that is not trivially copyable.
struct Num
{
    u32 v;
    Num() : v(0) {}
    explicit Num(u64 x) : v(u32(x)) {}
    Num(const Num& x) : v(x.v) {}
    Num& operator=(const Num& x) { v = x.v; return *this; }
    ~Num() { v = 0xDDDDDDDD; }
    explicit operator u64() const { return v; }
    friend Num operator+(Num a, int b) { return Num(u64(a.v + u32(b))); }
    friend Num operator-(Num a, int b) { return Num(u64(a.v - u32(b))); }
    friend bool operator==(const Num& a, const Num& b) { return a.v == b.v; }
    friend bool operator!=(const Num& a, const Num& b) { return a.v != b.v; }
    friend bool operator<(const Num& a, const Num& b) { return a.v < b.v; }
};

template <class T> inline T at_id(u64 id) { return T((id * 0x9E3779B97F4A7C15ull) >> (64 - (sizeof(T) < 4 ? 8 * sizeof(T) : 31))); }

// An allocator whose sizes are 16 bit numbers.
template <class T>
struct Narrow
{
    typedef T value_type; typedef unsigned short size_type; typedef short difference_type;
    Narrow() {}
    template <class U> Narrow(const Narrow<U>&) {}
    T* allocate(size_type n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
    void deallocate(T* p, size_type) { ::operator delete(p); }
    friend bool operator==(const Narrow&, const Narrow&) { return true; }
    friend bool operator!=(const Narrow&, const Narrow&) { return false; }
};

// The elements with the numbers id, id + 1, ... as a range.
template <class T, class Cat, class D = std::ptrdiff_t>
struct Gen
{
    typedef Cat iterator_category; typedef T value_type; typedef D difference_type; typedef const T* pointer; typedef T reference;
    u64 i;
    T operator*() const { return at_id<T>(i); }
    T operator[](difference_type n) const { return at_id<T>(i + u64(n)); }
    Gen& operator++() { ++i; return *this; }
    Gen operator++(int) { Gen t = *this; ++i; return t; }
    Gen& operator--() { --i; return *this; }
    Gen& operator+=(difference_type n) { i += u64(n); return *this; }
    Gen& operator-=(difference_type n) { i -= u64(n); return *this; }
    friend Gen operator+(Gen a, difference_type n) { return a += n; }
    friend Gen operator-(Gen a, difference_type n) { return a -= n; }
    friend difference_type operator-(Gen a, Gen b) { return difference_type(a.i - b.i); }
    friend bool operator==(Gen a, Gen b) { return a.i == b.i; }
    friend bool operator!=(Gen a, Gen b) { return a.i != b.i; }
    friend bool operator<(Gen a, Gen b) { return a.i < b.i; }
    friend bool operator>(Gen a, Gen b) { return a.i > b.i; }
    friend bool operator<=(Gen a, Gen b) { return a.i <= b.i; }
    friend bool operator>=(Gen a, Gen b) { return a.i >= b.i; }
};

// The model of a sequence: runs of consecutive numbers or of one value.
template <class T>
struct Rope
{
    struct Run { u64 len, id; bool fill; T v; };
    std::vector<Run> r;
    u64 n = 0;
    std::size_t split(u64 pos) // index of the run that begins at pos
    {
        std::size_t i = 0;
        for (; i < r.size() && pos >= r[i].len; ++i) pos -= r[i].len;
        if (pos)
        {
            Run t = r[i];
            r[i].len = pos;
            t.len -= pos;
            if (!t.fill) t.id += pos;
            r.insert(r.begin() + long(i) + 1, t);
            ++i;
        }
        return i;
    }
    void insert(u64 pos, Run x) { if (!x.len) return; const std::size_t i = split(pos); r.insert(r.begin() + long(i), x); n += x.len; }
    void erase(u64 pos, u64 k) { if (!k) return; const std::size_t i = split(pos), j = split(pos + k); r.erase(r.begin() + long(i), r.begin() + long(j)); n -= k; }
    T get(u64 pos) const
    {
        std::size_t i = 0;
        for (; pos >= r[i].len; ++i) pos -= r[i].len;
        return r[i].fill ? r[i].v : at_id<T>(r[i].id + pos);
    }
};

template <class C> auto has_reserve(C& c, int) -> decltype(c.reserve(1), std::true_type());
template <class C> std::false_type has_reserve(C&, long);
template <class C> auto has_front(C& c, int) -> decltype(c.pop_front(), std::true_type());
template <class C> std::false_type has_front(C&, long);
template <class C> auto has_shrink(C& c, int) -> decltype(c.shrink_to_fit(), std::true_type());
template <class C> std::false_type has_shrink(C&, long);
template <class C> auto has_full(C& c, int) -> decltype(c.full(), std::true_type());
template <class C> std::false_type has_full(C&, long);
template <class C> auto has_data(C& c, int) -> decltype(c.data(), std::true_type());
template <class C> std::false_type has_data(C&, long);

template <class C, bool GIANT>
struct Seq
{
    typedef typename C::value_type T;
    typedef Rope<T> M;
    static constexpr bool reserves = decltype(has_reserve(std::declval<C&>(), 0))::value;
    static constexpr bool front = decltype(has_front(std::declval<C&>(), 0))::value;
    static constexpr bool shrinks = decltype(has_shrink(std::declval<C&>(), 0))::value;
    static constexpr bool is_static = decltype(has_full(std::declval<C&>(), 0))::value;
    std::unique_ptr<C> p, q;
    M m, w;
    u64 next = 1;
    u64 limit;

    static u64 special(u64 r)
    {
        static const u64 mid[] = {1u << 8, 1u << 15, 1u << 16, 1u << 17, 1u << 12, 1u << 16};
        static const u64 gi[] = {1ull << 31, 1ull << 32, 1ull << 32};
        return (GIANT ? gi[r % 3] : mid[r % 6]) + (r / 8) % 5 - 2;
    }
    u64 pos(u64 r, u64 n)
    {
        switch (r % 5)
        {
        case 0: return (r / 5) % 3 > n ? n : (r / 5) % 3;
        case 1: { const u64 k = (r / 5) % 4; return k > n ? 0 : n - k; }
        case 2: case 3: { const u64 s = special(r / 5); if (s <= n) return s; return n; }
        default: return (r / 5) % (n + 1);
        }
    }
    u64 amount(u64 r)
    {
        if (GIANT) return r % 5 == 0 ? special(r / 5) : (r / 5) % 9;
        switch (r % 3) { case 0: return (r / 3) % 9; case 1: return special(r / 3); default: return (r / 3) % 3000; }
    }
    void one(const C& c, const M& x, u64 i, const char* what)
    {
        ++checked;
        const T e = x.get(i);
        if (c[i] != e) fail((std::string("after ") + what + " element %llu of %llu read by operator[] is wrong").c_str(), i, x.n);
        if (*c.nth(i) != e) fail((std::string("after ") + what + " element %llu of %llu read by nth() is wrong").c_str(), i, x.n);
        if (c.begin()[std::ptrdiff_t(i)] != e || *(c.end() - std::ptrdiff_t(x.n - i)) != e || c.rbegin()[std::ptrdiff_t(x.n - 1 - i)] != e || c.at(i) != e) fail((std::string("after ") + what + " element %llu of %llu read through an iterator or at() is wrong").c_str(), i, x.n);
        if (c.index_of(c.nth(i)) != i || u64(c.nth(i) - c.begin()) != i || u64(c.end() - c.nth(i)) != x.n - i || !(c.begin() <= c.nth(i)) || !(c.nth(i) < c.end())) fail((std::string("after ") + what + " positions do not agree with the index %llu of %llu").c_str(), i, x.n);
        if constexpr (decltype(has_data(std::declval<const C&>(), 0))::value) if (c.data() + i != std::addressof(c[i])) fail("element %llu of %llu is not at data() + index", i, x.n);
    }
    void verify(const C& c, const M& x, const char* what, u64 rnd)
    {
        biggest = std::max(biggest, x.n);
        if (c.size() != x.n || c.empty() != (x.n == 0)) fail((std::string("after ") + what + " size() is %llu, the model has %llu elements").c_str(), c.size(), x.n);
        if (c.capacity() < x.n) fail("capacity() is %llu with %llu elements", c.capacity(), x.n);
        if (u64(c.end() - c.begin()) != x.n || u64(c.rend() - c.rbegin()) != x.n) fail("end() - begin() is not the size %llu", x.n);
        bool thrown = false;
        try { (void)c.at(x.n); } catch (const std::out_of_range&) { thrown = true; }
        if (!thrown) fail("at(%llu) beyond the end does not throw", x.n);
        if (!x.n) return;
        if (c.front() != x.get(0) || c.back() != x.get(x.n - 1)) fail("front() or back() is wrong with %llu elements", x.n);
        if (!GIANT)
        {
            auto it = c.begin();
            u64 i = 0;
            for (auto& r : x.r)
                for (u64 k = 0; k < r.len; ++k, ++it, ++i)
                    if (*it != (r.fill ? r.v : at_id<T>(r.id + k))) fail((std::string("after ") + what + " element %llu of %llu is wrong").c_str(), i, x.n);
            checked += x.n;
        }
        u64 b = 0;
        for (auto& r : x.r)
        {
            for (u64 k = 0; k < 3; ++k) { if (b + k < x.n) one(c, x, b + k, what); if (b > k) one(c, x, b - 1 - k, what); }
            b += r.len;
        }
        Rng g(rnd);
        for (u64 s = 0; s < 64; ++s) { const u64 i = special(s); if (i < x.n) one(c, x, i, what); }
        for (int i = 0; i < (GIANT ? 2000 : 60); ++i) one(c, x, g.next() % x.n, what);
        one(c, x, x.n - 1, what);
    }
    typename M::Run ids(u64 k) { typename M::Run r = {k, next, false, T()}; next += k; return r; }
    void ret(C& c, typename C::iterator it, u64 i, const char* what) { if (u64(it - c.begin()) != i) fail((std::string(what) + " returns position %llu instead of %llu").c_str(), u64(it - c.begin()), i); }

    void step(const Row& w_)
    {
        C& c = *p;
        const u64 n = m.n, room = limit > n ? limit - n : 0;
        const char* what = "";
        mix(w_.op % 20); mix(n);
        ++ops_done;
        switch (w_.op % 20)
        {
        case 0: { what = "push_back"; const u64 k = std::min(room, 1 + w_.a % 5); say("push_back x %llu on %llu\n", k, n); for (u64 i = 0; i < k; ++i) { const T t = at_id<T>(next); if (i & 1) c.emplace_back(t); else c.push_back(t); m.insert(m.n, ids(1)); } break; }
        case 1: { what = "pop_back"; const u64 k = std::min(n, 1 + w_.a % 5); say("pop_back x %llu on %llu\n", k, n); for (u64 i = 0; i < k; ++i) c.pop_back(); m.erase(n - k, k); break; }
        case 2: case 3: { what = "insert of one element"; if (!room) return; const u64 i = pos(w_.a, n); say("insert at %llu of %llu\n", i, n); const T t = at_id<T>(next); ret(c, (w_.b & 1) ? c.insert(c.nth(i), t) : c.emplace(c.nth(i), t), i, what); m.insert(i, ids(1)); break; }
        case 4: { what = "insert of copies"; const u64 i = pos(w_.a, n), k = std::min(room, amount(w_.b)); say("insert %llu copies at %llu of %llu\n", k, i, n); const T t = T(w_.d % 251); ret(c, c.insert(c.nth(i), k, t), i, what); m.insert(i, typename M::Run{k, 0, true, t}); break; }
        case 5: case 6: { what = "insert of a range"; const u64 i = pos(w_.a, n), k = std::min(room, amount(w_.b)); say("insert a range of %llu at %llu of %llu\n", k, i, n); typedef Gen<T, std::random_access_iterator_tag> G; typedef Gen<T, std::random_access_iterator_tag, short> Gs; if (k < 32768 && (w_.d & 1)) ret(c, c.insert(c.nth(i), Gs{next}, Gs{next + k}), i, what); else ret(c, c.insert(c.nth(i), G{next}, G{next + k}), i, what); m.insert(i, ids(k)); break; }
        case 7: { what = "erase of one element"; if (!n) return; const u64 i = std::min(pos(w_.a, n), n - 1); say("erase %llu of %llu\n", i, n); ret(c, c.erase(c.nth(i)), i, what); m.erase(i, 1); break; }
        case 8: case 9: { what = "erase of a range"; const u64 i = pos(w_.a, n), k = std::min(n - i, amount(w_.b)); say("erase %llu at %llu of %llu\n", k, i, n); ret(c, c.erase(c.nth(i), c.nth(i + k)), i, what); m.erase(i, k); break; }
        case 10:
        {
            what = "resize";
            u64 k = amount(w_.b), z = (w_.a & 1) ? n + k : n - std::min(n, k);
            z = std::min(z, limit);
            if (front && z > n && z - n > 200000) return; // the new elements are looked for one by one
            const T t = (w_.d & 1) ? T() : T(w_.d % 251);
            const int side = front ? int(w_.d / 2 % 3) : 0;
            say(side == 1 ? "resize_back %llu to %llu\n" : side == 2 ? "resize_front %llu to %llu\n" : "resize %llu to %llu\n", n, z);
            if constexpr (front)
            {
                if (side == 1) { if (w_.d & 1) c.resize_back(z); else c.resize_back(z, t); }
                if (side == 2) { if (w_.d & 1) c.resize_front(z); else c.resize_front(z, t); }
            }
            if (side == 0) { if (w_.d & 1) c.resize(z); else c.resize(z, t); }
            if (c.size() != z) fail("size() is %llu after resize to %llu", c.size(), z);
            if (z < n) { if (side == 2) m.erase(0, n - z); else m.erase(z, n - z); break; }
            u64 f = side == 2 ? z - n : 0;
            if (front && side == 0 && n)
            {
                // resize() may put the new elements at both ends
                u64 l = 0, l0 = 0;
                while (l0 < n && m.get(l0) == t) ++l0;
                while (l < z && c[l] == t) ++l;
                f = l < l0 ? 0 : std::min(z - n, l - l0);
            }
            m.insert(0, typename M::Run{f, 0, true, t});
            m.insert(n + f, typename M::Run{z - n - f, 0, true, t});
            break;
        }
        case 11:
            if (GIANT) return;
            { what = "assign"; const u64 k = std::min(limit, amount(w_.b)); say("assign %llu over %llu\n", k, n); typedef Gen<T, std::random_access_iterator_tag> G; typedef Gen<T, std::input_iterator_tag> I; if (w_.d % 3 == 0) { const T t = T(w_.a % 251); c.assign(k, t); m = M(); m.insert(0, typename M::Run{k, 0, true, t}); } else { typedef Gen<T, std::random_access_iterator_tag, short> Gs; if (w_.d % 3 == 1 && k < 32768 && (w_.d & 1)) c.assign(Gs{next}, Gs{next + k}); else if (w_.d % 3 == 1) c.assign(G{next}, G{next + k}); else c.assign(I{next}, I{next + k}); m = M(); m.insert(0, ids(k)); } }
            break;
        case 12: if constexpr (reserves) { what = "reserve"; const u64 k = std::min(limit, n + amount(w_.b)); if (GIANT && k > n + 100) return; say("reserve %llu with %llu\n", k, n); c.reserve(k); if (c.capacity() < k) fail("capacity() is %llu after reserve(%llu)", c.capacity(), k); } break;
        case 13: if constexpr (shrinks) { what = "shrink_to_fit"; say("shrink_to_fit with %llu\n", n); c.shrink_to_fit(); } break;
        case 14: { if (is_static && GIANT) return; what = "copying"; say("copy and compare %llu\n", n); { q.reset(new C(static_cast<const C&>(c))); } verify(*q, m, what, w_.b); if (!(*q == c) || *q != c || *q < c || *q > c) fail("a copy of %llu elements does not compare equal", n); if (n) { const u64 i = std::min(pos(w_.a, n), n - 1); T& e = *q->nth(i); e = T(e + 1); if (*q == c || (*q < c) == (c < *q)) fail("containers of %llu elements that differ at %llu compare equal", n, i); e = T(e - 1); } if (w_.b & 1) { c = std::move(*q); what = "move assignment"; } else if (w_.b & 2) { c.swap(*q); what = "swap"; } q.reset(); break; }
        case 15: { what = "move construction"; if (is_static && GIANT) return; say("move construction of %llu\n", n); q.reset(new C(std::move(c))); p = std::move(q); break; }
        case 16: case 17:
            if constexpr (front)
            {
                const u64 k = 1 + w_.a % 5;
                if (w_.op & 1) { what = "pop_front"; say("pop_front x %llu on %llu\n", k, n); for (u64 i = 0; i < k && m.n; ++i) { c.pop_front(); m.erase(0, 1); } }
                else { what = "push_front"; say("push_front x %llu on %llu\n", k, n); for (u64 i = 0; i < k && m.n < limit; ++i) { c.push_front(at_id<T>(next)); m.insert(0, ids(1)); } }
            }
            break;
        case 18:
            if (!GIANT) { what = "erase of a value"; if (!n) return; const T t = m.get(pos(w_.a, n) % n); say("erase the value %llu from %llu\n", u64(t), n); u64 k = 0; M z; for (auto& r : m.r) { if (r.fill) { if (r.v == t) k += r.len; else z.insert(z.n, r); } else for (u64 i = 0; i < r.len; ++i) { if (at_id<T>(r.id + i) == t) ++k; else if (!z.r.empty() && !z.r.back().fill && z.r.back().id + z.r.back().len == r.id + i) { ++z.r.back().len; ++z.n; } else z.insert(z.n, typename M::Run{1, r.id + i, false, T()}); } } const u64 got = erase(c, t); if (got != k) fail("erase(c, value) returns %llu instead of %llu", got, k); if (z.r.size() > 3000) { verify(c, z, what, w_.b); c.clear(); z = M(); } m = z; }
            break;
        default: { what = "write"; if (!n) return; const u64 i = std::min(pos(w_.a, n), n - 1); say("write element %llu of %llu\n", i, n); const T t = T(w_.d % 251); switch (w_.b % 4) { case 0: c[i] = t; break; case 1: *c.nth(i) = t; break; case 2: c.at(i) = t; break; default: c.begin()[std::ptrdiff_t(i)] = t; } m.erase(i, 1); m.insert(i, typename M::Run{1, 0, true, t}); }
        }
        verify(*p, m, what, w_.d);
    }
    static void run(const std::vector<Row>& rows)
    {
        Seq s;
        s.p.reset(new C());
        s.limit = is_static ? s.p->capacity() : GIANT ? (5ull << 30) : 200000;
        // a double-ended container may run out of capacity at one end before size() is max_size()
        if (!GIANT) s.limit = std::min<u64>(s.limit, s.p->max_size() / (front ? 4 : 1));
        std::size_t i = 0;
        if (GIANT)
        {
            u64 n0 = special(rows[0].a) + rows[0].b % 1000;
            n0 = std::min(n0, s.limit);
            say("start with %llu elements\n", n0);
            if constexpr (reserves) s.p->reserve(n0 + 100);
            if constexpr (is_static) {}
            typedef Gen<T, std::random_access_iterator_tag> G;
            s.p->insert(s.p->end(), G{s.next}, G{s.next + n0});
            s.m.insert(0, s.ids(n0));
            s.verify(*s.p, s.m, "insert of a range into an empty container", 1);
            ++i;
        }
        for (; i < rows.size(); ++i) s.step(rows[i]);
    }
};

// ---- associative containers -------------------------------------------------------------
template <class C, bool MAP, bool MULTI, bool ORD>
struct Assoc
{
    typedef typename C::value_type V;
    std::unique_ptr<C> p;
    std::vector<int> m; // sorted keys
    u64 limit;
    static int key(const int& v) { return v; }
    template <class A, class B> static int key(const std::pair<A, B>& v) { if (v.second != v.first * 3 + 1) fail("the mapped value of key %llu is wrong", u64(v.first)); return v.first; }
    static V mk(int k) { if constexpr (MAP) return V(k, k * 3 + 1); else return V(k); }
    struct KeyGen
    {
        typedef std::random_access_iterator_tag iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type; typedef const V* pointer; typedef V reference;
        int k, step;
        V operator*() const { return mk(k); }
        V operator[](difference_type n) const { return mk(k + int(n) * step); }
        KeyGen& operator++() { k += step; return *this; }
        KeyGen operator++(int) { KeyGen t = *this; k += step; return t; }
        KeyGen& operator+=(difference_type n) { k += int(n) * step; return *this; }
        friend KeyGen operator+(KeyGen a, difference_type n) { return a += n; }
        friend difference_type operator-(KeyGen a, KeyGen b) { return (a.k - b.k) / a.step; }
        friend bool operator==(KeyGen a, KeyGen b) { return a.k == b.k; }
        friend bool operator!=(KeyGen a, KeyGen b) { return a.k != b.k; }
        friend bool operator<(KeyGen a, KeyGen b) { return b - a > 0; }
    };
    u64 lo(int k) { return u64(std::lower_bound(m.begin(), m.end(), k) - m.begin()); }
    u64 hi(int k) { return u64(std::upper_bound(m.begin(), m.end(), k) - m.begin()); }
    void probe(int k)
    {
        const C& c = *p;
        ++checked;
        const u64 a = lo(k), b = hi(k);
        if (c.count(k) != b - a) fail("count() is %llu instead of %llu", c.count(k), b - a);
        if (c.contains(k) != (b > a)) fail("contains() is wrong with %llu elements", m.size());
        auto it = c.find(k);
        if ((it != c.end()) != (b > a) || (it != c.end() && key(*it) != k)) fail("find() is wrong with %llu elements", m.size());
        if (it != c.end()) { const u64 i = c.index_of(it); if (c.nth(i) != it || u64(it - c.begin()) != i) fail("index_of() and nth() disagree at %llu of %llu", i, m.size()); }
        if constexpr (ORD)
        {
            if (u64(c.lower_bound(k) - c.begin()) != a) fail("lower_bound() is at %llu instead of %llu", u64(c.lower_bound(k) - c.begin()), a);
            if (u64(c.upper_bound(k) - c.begin()) != b) fail("upper_bound() is at %llu instead of %llu", u64(c.upper_bound(k) - c.begin()), b);
            auto e = c.equal_range(k);
            if (u64(e.first - c.begin()) != a || u64(e.second - c.begin()) != b) fail("equal_range() is wrong with %llu elements", m.size());
        }
    }
    void verify(const char* what, u64 rnd)
    {
        const C& c = *p;
        biggest = std::max(biggest, u64(m.size()));
        if (c.size() != m.size() || c.empty() != m.empty() || u64(c.end() - c.begin()) != m.size()) fail((std::string("after ") + what + " size() is %llu, the model has %llu elements").c_str(), c.size(), m.size());
        if (c.capacity() < m.size()) fail("capacity() is %llu with %llu elements", c.capacity(), m.size());
        std::vector<int> got;
        got.reserve(m.size());
        for (auto it = c.begin(); it != c.end(); ++it) got.push_back(key(*it));
        if (!ORD) std::sort(got.begin(), got.end());
        if (got != m) { u64 i = 0; while (got[i] == m[i]) ++i; fail((std::string("after ") + what + " the contents differ at %llu of %llu").c_str(), i, m.size()); }
        checked += m.size();
        Rng g(rnd);
        for (int i = 0; i < (ORD ? 60 : 12); ++i) { probe(m.empty() || (i & 3) == 3 ? int(g.next() % 500000) : m[g.next() % m.size()]); }
        if (!m.empty()) { probe(m.front()); probe(m.back()); }
    }
    static u64 amount(u64 r)
    {
        static const u64 mid[] = {1u << 8, 1u << 15, 1u << 16, 1u << 12, 1u << 16};
        switch (r % 4) { case 0: return (r / 4) % 9; case 1: case 2: return mid[r / 4 % 5] + (r / 32) % 5 - 2; default: return (r / 4) % 3000; }
    }
    void add(int k) { auto it = std::lower_bound(m.begin(), m.end(), k); if (MULTI || it == m.end() || *it != k) m.insert(it, k); }
    void step(const Row& w)
    {
        C& c = *p;
        const u64 n = m.size(), room = limit > n ? limit - n : 0;
        const char* what = "";
        mix(w.op % 14); mix(n);
        ++ops_done;
        switch (w.op % 14)
        {
        case 0: case 1: case 2:
        {
            what = "insert of a range";
            u64 k = std::min(room, amount(w.b));
            if (!ORD && !MULTI) k = std::min<u64>(k, n > 10000 ? 500 : 70000);
            const int base = int(w.a % 200000), st = 1 + int(w.d % 3);
            if (ORD && !MULTI && n > 3000) k = std::min<u64>(k, 3000);
            if (ORD && MULTI && n > 3000 && k > 3000) k = 3000;
            say("insert %llu keys from %llu on (%llu present)\n", k, u64(base), n);
            KeyGen a{base, st}, b{base + int(k) * st, st};
            c.insert(a, b);
            std::vector<int> add_, z;
            for (u64 i = 0; i < k; ++i) add_.push_back(base + int(i) * st);
            if (MULTI) std::merge(m.begin(), m.end(), add_.begin(), add_.end(), std::back_inserter(z)); else std::set_union(m.begin(), m.end(), add_.begin(), add_.end(), std::back_inserter(z));
            m.swap(z);
            break;
        }
        case 3: case 4: { what = "insert"; if (!room) return; const int k = int(w.a % 300000); say("insert key %llu (%llu present)\n", u64(k), n); if constexpr (MULTI) { auto it = (w.b & 1) ? c.insert(mk(k)) : c.emplace(mk(k)); if (key(*it) != k) fail("insert returns a wrong position with %llu elements", n); } else { auto r = (w.b & 1) ? c.insert(mk(k)) : c.emplace(mk(k)); if (key(*r.first) != k || r.second != (lo(k) == hi(k))) fail("insert returns a wrong result with %llu elements", n); } add(k); break; }
        case 5: { what = "hinted insert"; if (!room) return; const int k = int(w.a % 300000); const u64 h = w.b % (n + 1); say("insert key %llu with hint %llu (%llu present)\n", u64(k), h, n); auto it = c.insert(c.nth(h), mk(k)); if (key(*it) != k) fail("insert with a hint returns a wrong position with %llu elements", n); add(k); break; }
        case 6: { what = "erase of a key"; const int k = n && (w.b & 1) ? m[w.a % n] : int(w.a % 300000); say("erase key %llu (%llu present)\n", u64(k), n); const u64 a = lo(k), b = hi(k); const u64 got = c.erase(k); if (got != b - a) fail("erase(key) returns %llu instead of %llu", got, b - a); m.erase(m.begin() + long(a), m.begin() + long(b)); break; }
        case 7: { what = "erase of one position"; if (!n) return; const u64 i = w.b & 1 ? n - 1 - w.a % std::min<u64>(n, 3) : w.a % n; const int k = key(*c.nth(i)); say("erase position %llu of %llu\n", i, n); auto it = c.erase(c.nth(i)); if (u64(it - c.begin()) != i) fail("erase(position) returns %llu instead of %llu", u64(it - c.begin()), i); m.erase(m.begin() + long(lo(k))); break; }
        case 8: { what = "erase of a range"; const u64 i = w.a % (n + 1), k = std::min(n - i, amount(w.b)); say("erase %llu positions at %llu of %llu\n", k, i, n); std::vector<int> gone; for (u64 j = 0; j < k; ++j) gone.push_back(key(*c.nth(i + j))); std::sort(gone.begin(), gone.end()); auto it = c.erase(c.nth(i), c.nth(i + k)); if (u64(it - c.begin()) != i) fail("erase(first, last) returns %llu instead of %llu", u64(it - c.begin()), i); std::vector<int> z; std::set_difference(m.begin(), m.end(), gone.begin(), gone.end(), std::back_inserter(z)); m.swap(z); break; }
        case 9: { what = "copying"; say("copy of %llu elements\n", n); std::unique_ptr<C> q(new C(static_cast<const C&>(c))); if (!(*q == c) || *q != c) fail("a copy of %llu elements does not compare equal", n); if (w.a & 1) c = std::move(*q); else if (w.a & 2) c.swap(*q); else { p.swap(q); } break; }
        case 10: { what = "move construction"; say("move construction of %llu elements\n", n); std::unique_ptr<C> q(new C(std::move(c))); p.swap(q); break; }
        case 11: if constexpr (decltype(has_reserve(std::declval<C&>(), 0))::value) { what = "reserve or shrink_to_fit"; if (w.a & 1) { const u64 k = n + amount(w.b); say("reserve %llu with %llu\n", k, n); c.reserve(k); if (c.capacity() < k) fail("capacity() is %llu after reserve(%llu)", c.capacity(), k); } else { say("shrink_to_fit with %llu\n", n); c.shrink_to_fit(); } } break;
        case 12: { what = "construction from a range"; u64 k = std::min(limit, amount(w.b)); if (!ORD && !MULTI) k = std::min<u64>(k, w.d % 8 ? 6000 : 70000); const int base = int(w.a % 200000); say("construction from %llu keys\n", k); KeyGen a{base, 1}, b{base + int(k), 1}; p.reset(new C(a, b)); m.clear(); for (u64 i = 0; i < k; ++i) m.push_back(base + int(i)); break; }
        default: { what = "erase_if"; if (ORD && n > 20000) return; const int d = 2 + int(w.a % 5); say("erase_if of every %llu-th key of %llu\n", u64(d), n); std::vector<int> z; for (int k : m) if (k % d) z.push_back(k); const u64 got = erase_if(c, [d](const V& v) { return key(v) % d == 0; }); if (got != n - z.size()) fail("erase_if returns %llu instead of %llu", got, n - z.size()); m.swap(z); }
        }
        verify(what, w.d);
    }
    static void run(const std::vector<Row>& rows)
    {
        Assoc s;
        s.p.reset(new C());
        s.limit = decltype(has_full(std::declval<C&>(), 0))::value ? s.p->capacity() : 100000;
        for (auto& r : rows) s.step(r);
    }
};

struct Subject { const char* name; void (*run)(const std::vector<Row>&); u32 rows; };
inline std::vector<Subject>& subjects() { static std::vector<Subject> v; return v; }
struct Reg { Reg(const char* n, void (*f)(const std::vector<Row>&), u32 rows) { subjects().push_back(Subject{n, f, rows}); } };

// huge run SUBJECT SEED INDEX [kept rows]: 0 holds, 1 violated
inline int main_(int argc, char** argv)
{
    if (argc < 5) { for (auto& s : subjects()) std::printf("%s\n", s.name); return 0; }
    verbose = std::getenv("HUGE_TRACE") != nullptr;
#ifndef NO_LIMIT // AddressSanitizer needs address space
    const struct rlimit lim = {22ull << 30, 22ull << 30};
    setrlimit(RLIMIT_AS, &lim);
#endif
    for (auto& s : subjects())
    {
        if (std::strcmp(s.name, argv[2]) != 0) continue;
        const u64 seed = std::strtoull(argv[3], nullptr, 10), from = std::strtoull(argv[4], nullptr, 10);
        u64 to = from + 1;
        if (std::strcmp(argv[1], "many") == 0) to = std::strtoull(argv[5], nullptr, 10);
        for (u64 idx = from; idx < to; ++idx)
        {
            Rng r(hash_name(s.name) ^ (seed * 0xD1342543DE82EF95ull) ^ (idx * 0x9E3779B97F4A7C15ull));
            r.next();
            std::vector<Row> rows;
            const u32 n = 1 + s.rows / 2 + u32(r.next() % (s.rows / 2 + 1));
            for (u32 i = 0; i < n; ++i) { Row w; w.op = r.next() >> 8; w.a = r.next() >> 8; w.b = r.next() >> 8; w.d = r.next() >> 8; rows.push_back(w); }
            if (std::strcmp(argv[1], "one") == 0 && argc > 5)
            {
                std::vector<Row> kept;
                for (char* q = std::strtok(argv[5], ","); q; q = std::strtok(nullptr, ",")) if (*q != 'x' && std::size_t(std::atoi(q)) < rows.size()) kept.push_back(rows[std::size_t(std::atoi(q))]);
                rows = kept;
            }
            digest = 0; ops_done = 0; checked = 0; biggest = 0;
            int rc = 0;
            std::printf("start %llu %u\n", idx, n); std::fflush(stdout);
            try { s.run(rows); }
            catch (const Stop&) { rc = 1; }
            catch (const Skip&) {}
            catch (const std::bad_alloc&) { std::printf("memory %llu\n", idx); std::fflush(stdout); continue; }
            catch (const std::exception& e) { failure = std::string("unexpected exception: ") + e.what(); rc = 1; }
            if (rc) { std::printf("FAIL %llu %s\n", idx, failure.c_str()); return 1; }
            std::printf("ok %llu %llu %llu %llu %016llx\n", idx, ops_done, checked, biggest, digest); std::fflush(stdout);
        }
        return 0;
    }
    return 2;
}
} // namespace hg
