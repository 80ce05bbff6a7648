// The library's own classes, instantiated in full for the analyses of containers, memory resources, mazes and heuristics. Nothing here is ever run.
#include "params.hpp"

namespace sa {
    struct item final { uint32_t index; uint32_t score; friend bool operator<(const item& l, const item& r) noexcept { return l.score < r.score; } friend bool operator==(const item& l, const item& r) noexcept { return l.index == r.index; } };
    struct index_of final { template <typename T> constexpr size_t operator()(const T& v) const noexcept { return static_cast<size_t>(v.index); } };
    using mazes_grid2 = chdr::mazes::grid<cN<2>, char>; using mazes_grid3 = chdr::mazes::grid<cN<3>, bool>;
}
template class chdr::heap<sa::item>;
template class chdr::heap<sa::item, std::less<sa::item>, std::pmr::vector<sa::item>, 4U>;
template class chdr::heap<sa::item, std::less<sa::item>, std::pmr::vector<sa::item>, 5U>;
template class chdr::queue<sa::item>;
template class chdr::stack<sa::item>;
template class chdr::existence_set<char>;
template class chdr::existence_set<bool>;
template class chdr::existence_set<uint32_t>;
template class chdr::monotonic_pool<>;
template class chdr::heterogeneous_pool<>;
template class chdr::homogeneous_pool<>;
template class chdr::monotonic_pool<512U, 64U, 1024U>;
template class chdr::homogeneous_pool<512U, 64U, 1024U>;
template class chdr::heterogeneous_pool<4096U, std::numeric_limits<size_t>::max(), 65536U, false>;
template class chdr::mazes::grid<sa::cN<1>, char>;
template class chdr::mazes::grid<sa::cN<2>, char>;
template class chdr::mazes::grid<sa::cN<2>, bool>;
template class chdr::mazes::grid<sa::cN<3>, char>;
template class chdr::mazes::grid<sa::cN<3>, bool>;
template class chdr::mazes::grid<sa::cN<4>, char>;
template class chdr::mazes::graph<uint32_t, uint32_t>;
template class chdr::mazes::weighted_node<char>;
template class chdr::mazes::id_node<uint32_t>;
namespace sa {
    template <typename G, typename C> void use_grid(const G& g, const C& c, uint32_t i, void (*sink)(const void*)) {
        { auto v = g.template get_neighbours<false>(c); sink(&v); } { auto v = g.template get_neighbours<true>(c); sink(&v); }
        { auto v = g.template get_neighbours<false>(i); sink(&v); } { auto v = g.template get_neighbours<true>(i); sink(&v); }
        { auto v = g.check_neighbour(c, c); sink(&v); } { bool v = g.contains(c) || g.contains(i) || g.contains(size_t(i)); sink(&v); }
        { const auto& v = g[c]; sink(&v); } { const auto& v = g[i]; sink(&v); } { const auto& v = g[size_t(i)]; sink(&v); }
        { auto v = chdr::utils::to_1d(c, g.size()); sink(&v); } { auto v = chdr::utils::to_nd(i, g.size()); sink(&v); } { auto v = chdr::utils::product<size_t>(c); sink(&v); }
    }
    template <typename S, typename C> void use_heuristics(const C& a, const C& b, void (*sink)(const S&)) {
        using H = chdr::heuristics;
        sink(H::euclidean_distance<S>(a, b)); sink(H::sqr_euclidean_distance<S>(a, b)); sink(H::octile_distance<S>(a, b)); sink(H::manhattan_distance<S>(a, b)); sink(H::chebyshev_distance<S>(a, b));
        sink(H::cosine_distance<S>(a, b));
    }
    [[gnu::used]] void use_containers(const item& x, uint32_t n, item* p, chdr::mazes::graph<uint32_t, uint32_t>& g, void (*sink)(const void*)) {
        { chdr::heap<item> h; h.emplace(x); h.enqueue(item(x)); h.enqueue_nosort(item(x)); h.emplace_nosort(x); h.insert(p, p + n); sink(&h); }
        { chdr::heap<item, std::less<item>, std::pmr::vector<item>, 4U> h; h.emplace(x); h.emplace_nosort(x); h.insert(p, p + n); sink(&h); }
        { chdr::queue<item> q; q.emplace(x); q.emplace(item(x)); sink(&q); }
        { chdr::stack<item> q; q.emplace(x); q.emplace(item(x)); sink(&q); }
        { chdr::existence_set<char> s; s.push(size_t(n)); s.emplace(size_t(n)); sink(&s); }
        { chdr::existence_set<bool> s; s.push(size_t(n)); s.emplace(size_t(n)); sink(&s); }
        g.prune<true>(); g.prune<false>(); sink(&g.get_neighbours<false>(n)); sink(&g.get_neighbours<true>(n));
    }
    [[gnu::used]] void use_graph2(const mazes_grid2& m, void (*sink)(const void*)) { chdr::mazes::graph<uint32_t, uint32_t> g(m); sink(&g); }
    [[gnu::used]] void use_graph1(const mazes_grid2& m, void (*sink)(const void*)) { chdr::mazes::graph<uint16_t, uint32_t> g(m); sink(&g); } [[gnu::used]] void use_graph4(const mazes_grid2& m, void (*sink)(const void*)) { chdr::mazes::graph<uint64_t, float> g(m); sink(&g); }
    [[gnu::used]] void use_graph3(const mazes_grid3& m, void (*sink)(const void*)) { chdr::mazes::graph<uint32_t, float> g(m); sink(&g); }
#define USE(N, W) template void use_grid(const chdr::mazes::grid<cN<N>, W>&, const cN<N>&, uint32_t, void (*)(const void*));
    USE(1, char) USE(2, char) USE(2, bool) USE(3, char) USE(3, bool) USE(4, char) USE(4, bool) USE(5, char) USE(5, bool)
#define HEU(N, S) template void use_heuristics(const cN<N>&, const cN<N>&, void (*)(const S&));
    HEU(1, uint32_t) HEU(2, uint32_t) HEU(3, uint32_t) HEU(4, uint32_t) HEU(5, uint32_t) HEU(2, float) HEU(3, double) HEU(2, int32_t) HEU(2, uint64_t)
}
