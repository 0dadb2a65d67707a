// Standard algorithms on the containers' iterators, compared with the same algorithms on std::vector.
// C++20. Driven by the command line of huge.hpp.
#pragma once
#include "huge/huge.hpp"
#include <iterator>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <ranges>
#include <span>
#include <tuple>

namespace alg
{
using hg::Row;
using hg::Rng;
using hg::u64;
using hg::fail;
typedef std::ptrdiff_t D;

// k orders, t tells equivalent elements apart
struct E
{
    int k = 0, t = 0;
    E() {}
    E(int k_, int t_ = 0) : k(k_), t(t_) {}
    friend bool operator==(const E& a, const E& b) { return a.k == b.k && a.t == b.t; }
    friend bool operator<(const E& a, const E& b) { return a.k != b.k ? a.k < b.k : a.t < b.t; }
    friend bool operator>(const E& a, const E& b) { return b < a; }
    friend bool operator<=(const E& a, const E& b) { return !(b < a); }
    friend bool operator>=(const E& a, const E& b) { return !(a < b); }
    friend E operator+(const E& a, const E& b) { return E((a.k + b.k) % 1000, a.t ^ b.t); }
    friend E operator-(const E& a, const E& b) { return E((a.k - b.k) % 1000, a.t ^ b.t); }
    friend E operator*(const E& a, const E& b) { return E((a.k * b.k) % 1000, a.t); }
};
inline bool by_key(const E& a, const E& b) { return a.k < b.k; }
inline bool same_key(const E& a, const E& b) { return a.k == b.k; }
typedef std::vector<D> R; // what an algorithm returns, as offsets and values

inline D val(const E& e) { return D(e.k) * 100000 + e.t; }
inline D val(int e) { return e; }
template <class A, class B> D val(const std::pair<A, B>& p) { return val(p.first) * 1000003 + val(p.second); }

template <class It, class Cont> void concepts()
{
    typedef std::iterator_traits<It> T;
    static_assert(std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category>);
    static_assert(std::is_same_v<typename T::value_type, typename Cont::value_type>);
    static_assert(std::random_access_iterator<It>);
    static_assert(std::sized_sentinel_for<It, It>);
    static_assert(std::is_nothrow_copy_constructible_v<It> && std::is_default_constructible_v<It>);
    static_assert(std::is_same_v<decltype(*std::declval<It&>()), typename T::reference>);
}
template <class C> auto has_rbegin(C& c, int) -> decltype(c.rbegin(), std::true_type());
template <class C> std::false_type has_rbegin(C&, long);
template <class C> auto rb(C& c) { if constexpr (decltype(has_rbegin(c, 0))::value) return c.rbegin(); else return std::make_reverse_iterator(c.end()); }
template <class C> auto re(C& c) { if constexpr (decltype(has_rbegin(c, 0))::value) return c.rend(); else return std::make_reverse_iterator(c.begin()); }
template <class C> auto crb(C& c) { if constexpr (decltype(has_rbegin(c, 0))::value) return c.crbegin(); else return std::make_reverse_iterator(c.cend()); }
template <class C> auto cre(C& c) { if constexpr (decltype(has_rbegin(c, 0))::value) return c.crend(); else return std::make_reverse_iterator(c.cbegin()); }
template <class C> auto is_flat(C& c, int) -> decltype(c.data(), std::true_type());
template <class C> std::false_type is_flat(C&, long);
// value-initialized iterators are the same empty range for every algorithm
template <class It> void empty_range()
{
    typedef typename std::iterator_traits<It>::value_type V;
    const It z = It(), y{};
    const auto lt = [](const V& p, const V& q) { return &p < &q; };
    if (!(z == y) || z != y || z < y || z > y || !(z <= y) || !(z >= y) || z - y != 0 || std::distance(z, y) != 0 || z + 0 != y || std::next(z, 0) != y || std::ranges::distance(z, y) != 0) fail("value-initialized iterators are not an empty range (%llu)", 1);
    if (std::lower_bound(z, y, V(), lt) != y || std::is_sorted_until(z, y, lt) != y || std::rotate_copy(z, z, y, (V*)nullptr) != nullptr || std::copy(z, y, (V*)nullptr) != nullptr || std::copy_backward(z, y, (V*)nullptr) != nullptr || std::ranges::find_if(z, y, [](const V&) { return true; }) != y || std::equal(z, y, z, y, [](const V&, const V&) { return false; }) != true || std::vector<V>(z, y).size() != 0 || std::ranges::subrange(z, y).size() != 0) fail("an algorithm on value-initialized iterators gives a wrong result (%llu)", 2);
}
template <class C> void range_concepts()
{
    concepts<typename C::iterator, C>();
    concepts<typename C::const_iterator, C>();
    static_assert(std::is_convertible_v<typename C::iterator, typename C::const_iterator>);
    static_assert(std::sized_sentinel_for<typename C::iterator, typename C::const_iterator>);
    static_assert(std::is_same_v<std::iter_reference_t<typename C::const_iterator>, const typename C::value_type&>);
    static_assert(std::ranges::random_access_range<C> && std::ranges::random_access_range<const C>);
    static_assert(std::ranges::common_range<C> && std::ranges::sized_range<C>);
    // elements in one block: iterators of standard containers of that kind are contiguous; in several blocks they must not claim it
    static_assert(std::contiguous_iterator<typename C::iterator> == decltype(is_flat(std::declval<C&>(), 0))::value && std::contiguous_iterator<typename C::const_iterator> == decltype(is_flat(std::declval<C&>(), 0))::value);
    empty_range<typename C::iterator>(); empty_range<typename C::const_iterator>();
    if constexpr (decltype(has_rbegin(std::declval<C&>(), 0))::value) { empty_range<typename C::reverse_iterator>(); empty_range<typename C::const_reverse_iterator>(); }
    if constexpr (decltype(has_rbegin(std::declval<C&>(), 0))::value)
    {
        static_assert(std::is_same_v<typename C::reverse_iterator, std::reverse_iterator<typename C::iterator>>);
        static_assert(std::is_same_v<typename C::const_reverse_iterator, std::reverse_iterator<typename C::const_iterator>>);
    }
}

inline std::vector<std::string>& names() { static std::vector<std::string> v; return v; }

struct Args { u64 op; D n, a, b, m, dn, da, db; int k; u64 seed; }; // a <= m <= b: positions of the first, da <= db of the second

// Algorithms that do not write. [f, l): all; g: another range.
template <class It, class It2>
R reading(const Args& w, It f, It l, It2 g, It2 gl, const char*& what)
{
    It a = f + w.a, b = f + w.b, m = f + w.m;
    It2 ga = g + w.da, gb = g + w.db;
    typedef typename std::iterator_traits<It>::value_type V;
    const auto less = [](const V& x, const V& y) { return val(x) < val(y); };
    const auto eq = [](const V& x, const V& y) { return val(x) % 7 == val(y) % 7; };
    const auto odd = [](const V& x) { return val(x) & 1; };
    const V x = w.n ? *(f + w.m % w.n) : V();
    switch (w.op % 26)
    {
    case 0: what = "find"; return {std::find(a, b, x) - f};
    case 1: what = "find_if, find_if_not"; return {std::find_if(a, b, odd) - f, std::find_if_not(a, b, odd) - f};
    case 2: what = "adjacent_find"; return {std::adjacent_find(a, b, eq) - f};
    case 3: what = "search"; return {std::search(a, b, ga, gb, eq) - f};
    case 4: what = "find_end"; return {std::find_end(a, b, ga, gb, eq) - f};
    case 5: what = "find_first_of"; return {std::find_first_of(a, b, ga, gb, eq) - f};
    case 6: what = "count, count_if"; return {std::count(a, b, x), std::count_if(a, b, odd)};
    case 7: { what = "mismatch"; auto r = std::mismatch(a, b, ga, gb, eq); return {r.first - f, r.second - g}; }
    case 8: what = "equal"; return {std::equal(a, b, ga, gb, eq), std::equal(a, m, a)};
    case 9: what = "lexicographical_compare"; return {std::lexicographical_compare(a, b, ga, gb, less)};
    case 10: { what = "minmax_element"; auto r = std::minmax_element(a, b, less); return {r.first - f, r.second - f, std::min_element(a, b, less) - f, std::max_element(a, b, less) - f}; }
    case 11: what = "is_sorted_until"; return {std::is_sorted_until(a, b, less) - f, std::is_sorted(a, b, less)};
    case 12: what = "is_permutation"; return {std::is_permutation(a, b, ga, gb)};
    case 13: what = "search_n"; return {std::search_n(a, b, 2, x, eq) - f};
    case 14: what = "is_heap_until"; return {std::is_heap_until(a, b, less) - f};
    case 15: { what = "for_each"; R r; std::for_each(a, b, [&](const V& y) { r.push_back(val(y)); }); return r; }
    case 16: { what = "copy to an array"; std::vector<V> o(std::size_t(w.b - w.a)); auto e = std::copy(a, b, o.begin()); R r = {e - o.begin()}; for (auto& y : o) r.push_back(val(y)); return r; }
    case 17: { what = "copy_backward to an array"; std::vector<V> o(std::size_t(w.b - w.a)); auto e = std::copy_backward(a, b, o.end()); R r = {e - o.begin()}; for (auto& y : o) r.push_back(val(y)); return r; }
    case 18: { what = "reverse_copy, rotate_copy"; std::vector<V> o, p; std::reverse_copy(a, b, std::back_inserter(o)); std::rotate_copy(a, m, b, std::back_inserter(p)); R r; for (auto& y : o) r.push_back(val(y)); for (auto& y : p) r.push_back(val(y)); return r; }
    case 19: { what = "accumulate"; return {std::accumulate(a, b, D(0), [](D s, const V& y) { return s * 31 % 1000003 + val(y) % 1000; })}; }
    case 20: { what = "inner_product"; const D n = std::min(w.b - w.a, w.db - w.da); return {std::inner_product(a, a + n, ga, D(0), std::plus<>(), [](const V& p, const V& q) { return val(p) % 1000 * (val(q) % 1000); })}; }
    case 21: { what = "ranges::find and ranges::count_if"; return {std::ranges::find_if(a, b, odd) - f, std::ranges::count_if(std::ranges::subrange(a, b), odd), std::ranges::distance(a, b)}; }
    case 22: { what = "views"; R r; for (auto& y : std::ranges::subrange(a, b) | std::views::reverse | std::views::drop(1) | std::views::take(w.k % 20)) r.push_back(val(y)); for (D y : std::ranges::subrange(a, b) | std::views::filter(odd) | std::views::transform([](const V& z) { return val(z); })) r.push_back(y); return r; }
    case 23: { what = "ranges::equal and ranges::search"; auto s = std::ranges::search(std::ranges::subrange(a, b), std::ranges::subrange(ga, gb), eq); return {s.begin() - f, s.end() - f, std::ranges::equal(a, b, ga, gb), std::ranges::lexicographical_compare(a, b, ga, gb, less)}; }
    case 24: { what = "ranges::iter operations"; It p = a; std::ranges::advance(p, w.k % 50, b); It q = std::ranges::next(a, b); It s = std::ranges::prev(b, w.k % 7, a); return {p - f, q - f, s - f, std::ranges::distance(f, l)}; }
    default: { what = "iteration"; R r; for (It p = l; p != f;) r.push_back(val(*--p)); for (It p = f; p < l; p += std::min<D>(3, l - p)) r.push_back(val(*p)); return r; }
    }
}

// Algorithms that write.
template <class It, class It2>
R writing(const Args& w, It f, It l, It2 g, It2 gl, const char*& what)
{
    It a = f + w.a, b = f + w.b, m = f + w.m;
    It2 ga = g + w.da, gb = g + w.db;
    const D n = w.b - w.a, dn = w.db - w.da;
    const auto odd = [](const E& x) { return (x.k & 1) != 0; };
    switch (w.op % 44)
    {
    case 0: what = "sort"; std::sort(a, b); return {};
    case 1: what = "stable_sort"; std::stable_sort(a, b, by_key); return {};
    case 2: what = "partial_sort"; std::sort(a, b); std::reverse(a, b); std::partial_sort(a, m, b); std::sort(m, b); return {};
    case 3: { what = "nth_element"; if (m == b) return {}; std::nth_element(a, m, b); R r = {val(*m), std::all_of(a, m, [&](const E& x) { return !(*m < x); }), std::all_of(m, b, [&](const E& x) { return !(x < *m); })}; std::sort(a, b); return r; }
    case 4: what = "rotate"; return {std::rotate(a, m, b) - f};
    case 5: what = "reverse"; std::reverse(a, b); return {};
    case 6: what = "stable_partition"; { auto p = std::stable_partition(a, b, odd); return {p - f, std::partition_point(a, b, odd) - f, std::is_partitioned(a, b, odd)}; }
    case 7: { what = "partition"; auto p = std::partition(a, b, odd); R r = {p - f}; std::sort(a, p); std::sort(p, b); return r; }
    case 8: { what = "unique"; auto p = std::unique(a, b, same_key); R r = {p - f}; std::fill(p, b, E(1, 1)); return r; }
    case 9: { what = "remove_if"; auto p = std::remove_if(a, b, odd); R r = {p - f}; std::fill(p, b, E(2, 1)); return r; }
    case 10: { what = "remove"; auto p = std::remove(a, b, E(w.k % 5, 0)); R r = {p - f}; std::fill(p, b, E(2, 1)); return r; }
    case 11: { what = "copy"; const D c = std::min(n, dn); return {std::copy(ga, ga + c, a) - f}; }
    case 12: { what = "copy_backward"; const D c = std::min(n, dn); return {std::copy_backward(gb - c, gb, b) - f}; }
    case 13: what = "copy within the container to the left"; return {std::copy(m, b, a) - f};
    case 14: what = "copy within the container to the right"; return {std::copy_backward(a, m, b) - f};
    case 15: { what = "move"; const D c = std::min(n, dn); return {std::move(ga, ga + c, a) - f}; }
    case 16: { what = "move_backward"; const D c = std::min(n, dn); return {std::move_backward(gb - c, gb, b) - f}; }
    case 17: what = "move within the container"; return {std::move(m, b, a) - f};
    case 18: what = "move_backward within the container"; return {std::move_backward(a, m, b) - f};
    case 19: what = "fill"; std::fill(a, b, E(w.k % 9, 3)); return {};
    case 20: what = "fill_n"; return {std::fill_n(a, w.m - w.a, E(w.k % 9, 4)) - f};
    case 21: { what = "generate"; int i = w.k % 100; std::generate(a, b, [&] { return E(i++ % 9, 5); }); return {std::generate_n(a, w.m - w.a, [&] { return E(i++ % 7, 6); }) - f}; }
    case 22: { what = "swap_ranges"; const D c = std::min(n, dn); return {std::swap_ranges(a, a + c, ga) - g}; }
    case 23: what = "inplace_merge"; std::stable_sort(a, m, by_key); std::stable_sort(m, b, by_key); std::inplace_merge(a, m, b, by_key); return {std::is_sorted(a, b, by_key)};
    case 24: what = "heap operations"; std::make_heap(a, b); { R r = {std::is_heap(a, b)}; if (n) { std::pop_heap(a, b); std::push_heap(a, b); } std::sort_heap(a, b); return r; }
    case 25: { what = "next_permutation"; R r = {std::next_permutation(a, b)}; r.push_back(std::prev_permutation(a, m)); return r; }
    case 26: { what = "transform"; const D c = std::min(n, dn); auto p = std::transform(a, a + c, ga, a, std::plus<>()); return {p - f, std::transform(a, m, a, [](const E& x) { return E(x.k, x.t + 1); }) - f}; }
    case 27: what = "partial_sum"; return {std::partial_sum(a, b, a) - f};
    case 28: what = "adjacent_difference"; return {std::adjacent_difference(a, b, a) - f};
    case 29: what = "replace_if"; std::replace_if(a, b, odd, E(4, 4)); std::replace(a, m, E(0, 0), E(6, 6)); return {};
    case 30: { what = "shuffle"; std::mt19937 r(unsigned(w.seed)); std::shuffle(a, b, r); return {}; }
    case 31: what = "sort of the second range and set_union into the first"; { std::sort(ga, gb); std::vector<E> o(ga, gb); const D c = std::min(n, D(o.size())); return {std::merge(o.begin(), o.begin() + c / 2, o.begin() + c / 2, o.begin() + c, a) - f}; }
    case 32: { what = "lower_bound, upper_bound, equal_range, binary_search"; std::sort(a, b, by_key); const E x(w.k % 12); auto e = std::equal_range(a, b, x, by_key); R r = {std::lower_bound(a, b, x, by_key) - f, std::upper_bound(a, b, x, by_key) - f, e.first - f, e.second - f, std::binary_search(a, b, x, by_key)}; std::sort(a, b); return r; }
    case 33: { what = "includes and set operations"; std::sort(a, b); std::sort(ga, gb); std::vector<E> o; std::set_intersection(a, b, ga, gb, std::back_inserter(o)); std::set_difference(a, b, ga, gb, std::back_inserter(o)); std::set_symmetric_difference(ga, gb, a, b, std::back_inserter(o)); R r = {std::includes(a, b, ga, gb)}; for (auto& x : o) r.push_back(val(x)); return r; }
    case 34: what = "iota"; std::transform(a, b, a, [i = w.k % 50](const E&) mutable { return E(i++ % 13, 7); }); return {};
    case 35: what = "ranges::sort"; std::ranges::sort(a, b); return {};
    case 36: { what = "ranges::stable_sort with a projection"; auto e = std::ranges::stable_sort(std::ranges::subrange(a, b), std::greater<>(), &E::k); return {e - f}; }
    case 37: { what = "ranges::rotate and ranges::reverse"; auto s = std::ranges::rotate(a, m, b); std::ranges::reverse(std::ranges::subrange(a, b)); return {s.begin() - f}; }
    case 38: { what = "ranges::unique and ranges::remove"; auto s = std::ranges::unique(a, b, {}, &E::k); R r = {s.begin() - f}; std::fill(s.begin(), b, E(1, 2)); auto q = std::ranges::remove(a, b, w.k % 5, &E::k); r.push_back(q.begin() - f); std::fill(q.begin(), b, E(1, 3)); return r; }
    case 39: { what = "ranges::copy and ranges::move_backward"; const D c = std::min(n, dn); auto p = std::ranges::copy(ga, ga + c, a); auto q = std::ranges::move_backward(a, m, b); return {p.out - f, q.out - f, p.in - g}; }
    case 40: { what = "iter_swap and ranges::swap_ranges"; if (n > 1) std::iter_swap(a, b - 1); const D c = std::min(n, dn); auto p = std::ranges::swap_ranges(a, a + c, ga, ga + c); return {p.in1 - f, p.in2 - g}; }
    case 41: { what = "writing through views"; for (E& x : std::ranges::subrange(a, b) | std::views::reverse | std::views::take(w.k % 10)) x.t += 1; for (E& x : std::ranges::subrange(a, b) | std::views::drop(w.k % 4)) x.k = (x.k + 1) % 11; return {}; }
    case 42: { what = "shift_left and shift_right"; auto p = std::shift_left(a, b, w.m - w.a); R r = {p - f}; if (p != b) std::fill(p, b, E(8, 8)); auto q = std::shift_right(a, b, D(w.k % 4)); r.push_back(q - f); if (q != a) std::fill(a, q, E(8, 9)); return r; }
    default: { what = "writing in reverse"; int i = 0; for (It p = b; p != a;) { --p; p->t = i++ % 5; } return {}; }
    }
}

template <class C> auto has_front(C& c, int) -> decltype(c.push_front(E()), std::true_type());
template <class C> std::false_type has_front(C&, long);
template <class C> auto has_data(C& c, int) -> decltype(c.data(), std::true_type());
template <class C> std::false_type has_data(C&, long);
template <class C> auto has_full(C& c, int) -> decltype(c.full(), std::true_type());
template <class C> std::false_type has_full(C&, long);

inline Args args(const Row& w, D n, D dn)
{
    Args x;
    Rng g(w.a);
    auto below = [&](D k) { return D(g.next() >> 8) % k; };
    x.op = w.b; x.n = n; x.dn = dn;
    x.a = below(3) ? below(n + 1) : 0; x.b = below(3) ? below(n + 1) : n;
    if (x.a > x.b) std::swap(x.a, x.b);
    x.m = x.a + below(x.b - x.a + 1);
    x.da = below(2) ? below(dn + 1) : 0; x.db = below(2) ? below(dn + 1) : dn;
    if (x.da > x.db) std::swap(x.da, x.db);
    x.k = int(w.d % 1000); x.seed = w.d;
    return x;
}

template <class C>
struct Seq
{
    C c, d;
    std::vector<E> m, md;
    u64 limit;
    int tick = 0;
    E fresh(u64 r) { return E(int(r % 10), ++tick % 50); }
    static constexpr bool front = decltype(has_front(std::declval<C&>(), 0))::value;

    template <class It, class V> static R diff(const V&, It) { return {}; }
    void same(const C& x, const std::vector<E>& y, const char* what)
    {
        if (x.size() != y.size()) fail((std::string("after ") + what + " size() is %llu, std::vector has %llu").c_str(), x.size(), y.size());
        u64 i = 0;
        for (const E& e : x) { if (!(e == y[i])) fail((std::string("after ") + what + " element %llu of %llu differs from std::vector's").c_str(), i, y.size()); ++i; }
        hg::checked += i;
    }
    void step(const Row& w)
    {
        ++hg::ops_done;
        const char* what = "";
        Args x = args(w, D(m.size()), D(md.size()));
        R r, q;
        const u64 kind = w.op % 16;
        hg::mix(kind * 64 + w.b % 44); hg::mix(m.size()); hg::mix(u64(x.a * 4096 + x.b));
        switch (kind)
        {
        case 0: case 1: case 2: case 3: case 4: r = writing(x, c.begin(), c.end(), d.begin(), d.end(), what); q = writing(x, m.begin(), m.end(), md.begin(), md.end(), what); break;
        case 5: case 6: r = writing(x, c.rbegin(), c.rend(), d.begin(), d.end(), what); q = writing(x, m.rbegin(), m.rend(), md.begin(), md.end(), what); break;
        case 7: r = writing(x, c.begin(), c.end(), d.rbegin(), d.rend(), what); q = writing(x, m.begin(), m.end(), md.rbegin(), md.rend(), what); break;
        case 8: r = writing(x, c.begin(), c.end(), md.begin(), md.end(), what); { R z; std::vector<E> md2; for (auto& e : d) md2.push_back(e); q = writing(x, m.begin(), m.end(), md2.begin(), md2.end(), what); d.assign(md.begin(), md.end()); } break;
        case 9: r = reading(x, c.cbegin(), c.cend(), d.begin(), d.end(), what); q = reading(x, m.cbegin(), m.cend(), md.begin(), md.end(), what); break;
        case 10: r = reading(x, c.begin(), c.end(), d.cbegin(), d.cend(), what); q = reading(x, m.begin(), m.end(), md.cbegin(), md.cend(), what); break;
        case 11: r = reading(x, c.crbegin(), c.crend(), d.rbegin(), d.rend(), what); q = reading(x, m.crbegin(), m.crend(), md.rbegin(), md.rend(), what); break;
        case 12:
        {
            // insert iterators
            const u64 k = std::min<u64>(limit > m.size() ? limit - m.size() : 0, w.d % 7);
            std::vector<E> src; for (u64 i = 0; i < k; ++i) src.push_back(fresh(w.d / (i + 1)));
            if (front && w.a % 3 == 0) { what = "copy to a front_inserter"; if constexpr (front) std::copy(src.begin(), src.end(), std::front_inserter(c)); m.insert(m.begin(), src.rbegin(), src.rend()); }
            else if (w.a % 3 == 1) { what = "copy to an inserter"; std::copy(src.begin(), src.end(), std::inserter(c, c.begin() + x.a)); m.insert(m.begin() + x.a, src.begin(), src.end()); }
            else { what = "copy to a back_inserter"; std::ranges::copy(src, std::back_inserter(c)); m.insert(m.end(), src.begin(), src.end()); }
            break;
        }
        case 13:
        {
            // ranges made of the other container as source
            const u64 room = limit > m.size() ? limit - m.size() : 0;
            D k = std::min<D>(x.db - x.da, D(room));
            auto v = std::ranges::subrange(d.begin() + x.da, d.begin() + x.da + k) | std::views::transform([](const E& e) { return E(e.k + 1, e.t); }) | std::views::reverse | std::views::common;
            auto mv = std::ranges::subrange(md.begin() + x.da, md.begin() + x.da + k) | std::views::transform([](const E& e) { return E(e.k + 1, e.t); }) | std::views::reverse | std::views::common;
            // their iterators are input iterators in terms of C++11
            if (w.d % 5 == 4 && room >= 5)
            {
                what = "insert of a view of numbers";
                auto z = std::views::iota(3, 8);
                if (w.d & 16) { c.assign(z.begin(), z.end()); m.assign(z.begin(), z.end()); }
                else { auto it = c.insert(c.begin() + x.m, z.begin(), z.end()); r = {it - c.begin()}; q = {x.m}; m.insert(m.begin() + x.m, z.begin(), z.end()); }
            }
            else if (w.d & 1) { what = "insert of a view"; auto it = c.insert(c.begin() + x.m, v.begin(), v.end()); r = {it - c.begin()}; q = {x.m}; m.insert(m.begin() + x.m, mv.begin(), mv.end()); }
            else { what = "construction from a view"; C z(v.begin(), v.end()); std::vector<E> y(mv.begin(), mv.end()); c.swap(z); m.swap(y); }
            break;
        }
        case 14:
            if constexpr (decltype(has_data(c, 0))::value)
            {
                what = "std::span"; static_assert(std::ranges::sized_range<C>);
                std::span<E> s(c.data(), c.size());
                r = writing(x, s.begin(), s.end(), d.begin(), d.end(), what); q = writing(x, m.begin(), m.end(), md.begin(), md.end(), what);
            }
            else { r = reading(x, c.rbegin(), c.rend(), d.crbegin(), d.crend(), what); q = reading(x, m.rbegin(), m.rend(), md.crbegin(), md.crend(), what); }
            break;
        default:
        {
            // new contents
            const u64 k = std::min<u64>(limit, w.d % 3 ? w.d / 3 % 14 : w.d / 3 % 60);
            what = "assign"; m.clear(); for (u64 i = 0; i < k; ++i) m.push_back(fresh(w.a / (i + 1)));
            if (front && (w.b & 1)) { c.clear(); if constexpr (front) for (u64 i = 0; i < k; ++i) { const u64 h = k / 2; if (i < h) c.push_front(m[h - 1 - i]); else c.push_back(m[i]); } }
            else c.assign(m.begin(), m.end());
            if (w.b & 2) { c.swap(d); m.swap(md); }
        }
        }
        hg::say("%llu: ", kind); if (hg::verbose) std::printf("%s on [%td, %td) middle %td of %td, other [%td, %td) of %td\n", what, x.a, x.b, x.m, x.n, x.da, x.db, x.dn);
        if (r != q) { u64 i = 0; while (i < r.size() && i < q.size() && r[i] == q[i]) ++i; fail((std::string(what) + " returns something else than on std::vector (result %llu of %llu)").c_str(), i, q.size()); }
        same(c, m, what); same(d, md, what);
        hg::biggest = std::max<u64>(hg::biggest, m.size());
        if (m.size() > 150) { c.clear(); m.clear(); }
    }
    static void run(const std::vector<Row>& rows)
    {
        range_concepts<C>();
        Seq s;
        s.limit = decltype(has_full(std::declval<C&>(), 0))::value ? s.c.capacity() : 200;
        Row w = {15, 12345, 2, rows.empty() ? 0 : rows[0].a};
        s.step(w);
        w.b = 1; w.d = w.d / 7 + 3; s.step(w);
        for (auto& r : rows) s.step(r);
    }
};

// A map or a set: everything but the mapped values is read only.
template <class C, bool MAP>
struct Assoc
{
    C c, d;
    typedef typename C::value_type V;
    std::vector<V> m, md;
    u64 limit;
    static V mk(u64 r, int t) { if constexpr (MAP) return V(int(r % 37), t); else return V(int(r % 37)); }
    static std::vector<V> snap(const C& x) { std::vector<V> v; for (std::size_t i = 0; i < x.size(); ++i) v.push_back(*x.nth(i)); return v; }
    void step(const Row& w)
    {
        ++hg::ops_done;
        const char* what = "";
        Args x = args(w, D(m.size()), D(md.size()));
        R r, q;
        const u64 kind = w.op % 10;
        hg::mix(kind * 64 + w.b % 26); hg::mix(m.size()); hg::mix(u64(x.a * 4096 + x.b));
        switch (kind)
        {
        case 0: case 1: r = reading(x, c.cbegin(), c.cend(), d.begin(), d.end(), what); q = reading(x, m.cbegin(), m.cend(), md.begin(), md.end(), what); break;
        case 2: case 3: r = reading(x, c.begin(), c.end(), d.cbegin(), d.cend(), what); q = reading(x, m.begin(), m.end(), md.cbegin(), md.cend(), what); break;
        case 4: r = reading(x, rb(c), re(c), d.begin(), d.end(), what); q = reading(x, m.rbegin(), m.rend(), md.begin(), md.end(), what); break;
        case 5: r = reading(x, crb(c), cre(c), crb(d), cre(d), what); q = reading(x, m.crbegin(), m.crend(), md.crbegin(), md.crend(), what); break;
        case 6:
            if constexpr (MAP)
            {
                what = "writing mapped values through iterators and views";
                std::for_each(c.begin() + x.a, c.begin() + x.b, [&](auto& p) { p.second += 3; });
                std::for_each(m.begin() + x.a, m.begin() + x.b, [&](auto& p) { p.second += 3; });
                for (auto& p : std::ranges::subrange(rb(c), re(c)) | std::views::take(x.k % 5)) p.second ^= 1;
                for (auto& p : std::ranges::subrange(m.rbegin(), m.rend()) | std::views::take(x.k % 5)) p.second ^= 1;
                static_assert(std::is_assignable_v<decltype((c.begin()->second)), int> && !std::is_assignable_v<decltype((c.cbegin()->second)), int>);
            }
            else static_assert(!std::is_assignable_v<decltype(*c.begin()), V>);
            break;
        case 7:
        {
            what = "copy to an inserter";
            std::vector<V> src; const u64 k = std::min<u64>(limit > c.size() ? limit - c.size() : 0, w.d % 6); for (u64 i = 0; i < k; ++i) src.push_back(mk(w.d >> i, int(i)));
            C z(c); z.insert(src.begin(), src.end());
            std::copy(src.begin(), src.end(), std::inserter(c, c.begin() + x.m));
            if (!std::is_permutation(c.begin(), c.end(), z.begin(), z.end(), [](const V& p, const V& q_) { return val(std::pair<int, int>(key(p), 0)) == val(std::pair<int, int>(key(q_), 0)); })) fail("copying to an inserter is not like inserting one by one (%llu elements)", c.size());
            m = snap(c);
            break;
        }
        case 8:
        {
            what = "construction from a view";
            auto v = std::ranges::subrange(d.begin(), d.end()) | std::views::reverse | std::views::transform([](const V& p) { return p; }) | std::views::common;
            C z(v.begin(), v.end());
            if (!std::is_permutation(z.begin(), z.end(), d.begin(), d.end()) ) fail("a container built from a reversed view of another one has other elements (%llu)", d.size());
            break;
        }
        default:
        {
            what = "new contents";
            const u64 k = std::min<u64>(limit, w.d % 50);
            c.clear(); Rng g(w.a);
            for (u64 i = 0; i < k; ++i) c.insert(mk(g.next() >> 20, int(i)));
            m = snap(c);
            if (w.b & 1) { c.swap(d); m.swap(md); }
        }
        }
        if (hg::verbose) std::printf("%llu: %s on [%td, %td) middle %td of %td, other [%td, %td) of %td\n", kind, what, x.a, x.b, x.m, x.n, x.da, x.db, x.dn);
        if (r != q) { u64 i = 0; while (i < r.size() && i < q.size() && r[i] == q[i]) ++i; fail((std::string(what) + " returns something else than on std::vector (result %llu of %llu)").c_str(), i, q.size()); }
        if (snap(c) != m || snap(d) != md) fail((std::string("after ") + what + " the elements differ from std::vector's").c_str());
        hg::checked += m.size() + md.size();
        hg::biggest = std::max<u64>(hg::biggest, m.size());
    }
    static int key(int k) { return k; }
    template <class A, class B> static int key(const std::pair<A, B>& p) { return p.first; }
    static void run(const std::vector<Row>& rows)
    {
        range_concepts<C>();
        Assoc s;
        s.limit = decltype(has_full(std::declval<C&>(), 0))::value ? s.c.capacity() : 60;
        Row w = {9, 12345, 1, rows.empty() ? 0 : rows[0].a};
        s.step(w);
        w.b = 0; w.d = w.d / 7 + 3; s.step(w);
        for (auto& r : rows) s.step(r);
    }
};
} // namespace alg
