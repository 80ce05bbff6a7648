// Uses every public member of the library with the documented parameter types. It only has to compile; nothing here is ever run.
#ifndef SOLVER
#include "lib.cpp"
template class chdr::heap<uint64_t, std::greater<uint64_t>, std::pmr::vector<uint64_t>, 3U>;
template class chdr::heap<std::pair<uint32_t, float>>;
template class chdr::queue<std::pair<uint32_t, float>>;
template class chdr::stack<std::pair<uint32_t, float>>;
template class chdr::existence_set<uint64_t>;
template class chdr::monotonic_pool<64U, 32U, 128U>;
template class chdr::heterogeneous_pool<64U, 32U, 128U, true>;
template class chdr::homogeneous_pool<64U, 32U, 128U>;
template class chdr::mazes::grid<sa::cN<2>, uint16_t>;
template class chdr::mazes::grid<sa::cN<2>, int>;
template class chdr::mazes::grid<sa::cN<5>, char>;
template class chdr::mazes::grid<sa::cN<5>, bool>;
template class chdr::mazes::grid<chdr::coord<uint64_t, 2>, char>;
template class chdr::mazes::grid<chdr::coord<size_t, 3>, bool>;
template class chdr::mazes::graph<uint32_t, double>;
template class chdr::mazes::graph<uint64_t, float>;
template class chdr::mazes::weighted_node<bool>;
template class chdr::mazes::weighted_node<uint16_t>;
template class chdr::mazes::weighted_node<int>;
template class chdr::mazes::id_node<uint64_t>;
namespace sa {
    template <typename N, typename W> [[gnu::used]] void node(W w, void (*sink)(const void*)) {
        N n(w); N o(std::move(n)); n = std::move(o); n.value(w); W v = n.value(); bool a = n.is_active(); sink(&v); sink(&a);
    }
    template void node<chdr::mazes::weighted_node<char>, char>(char, void (*)(const void*)); template void node<chdr::mazes::weighted_node<uint16_t>, uint16_t>(uint16_t, void (*)(const void*));
    [[gnu::used]] void ids(uint32_t i, void (*sink)(const void*)) { chdr::mazes::id_node<uint32_t> n(i); auto v = n.id(); bool a = n.is_active(); sink(&v); sink(&a); }
    template <typename H, typename T> void heaps(const T& x, T* p, size_t n, std::pmr::memory_resource* r, void (*sink)(const void*)) {
        H a, b(n), c(a), d(std::move(c)); a = b; b = std::move(d);
        a.enqueue(x); a.enqueue(T(x)); a.enqueue_nosort(x); a.enqueue_nosort(T(x)); a.emplace(x); a.emplace_nosort(x); a.insert(p, p + n); a.insert(a.begin(), x); a.insert(a.begin(), T(x)); a.erase(x); a.erase(a.begin()); a.erase(a.begin(), a.end());
        a.reserve(n); a.swap(b); a.shrink_to_fit(); a.wipe(); a.clear(); const H& k = a; T y(x);
        { bool v = k.empty() || a.contains(y); sink(&v); } { auto v = k.size() + k.capacity(); sink(&v); } { const auto& v = k.top(); sink(&v); } { const auto& v = k.front(); sink(&v); } { const auto& v = k.back(); sink(&v); } { const auto& v = k[n]; sink(&v); } { const auto& v = k.at(n); sink(&v); }
        { auto v = a.dequeue(); sink(&v); } a.pop(); { auto v = a.lower_bounds(x); sink(&v); } { auto v = a.upper_bounds(x); sink(&v); }
        for (auto& v : a) { sink(&v); } for (const auto& v : k) { sink(&v); } { auto v = std::distance(k.cbegin(), k.cend()) + std::distance(k.rbegin(), k.rend()) + std::distance(a.rbegin(), a.rend()) + std::distance(k.crbegin(), k.crend()); sink(&v); }
        static_cast<void>(r);
    }
    template void heaps<chdr::heap<item>, item>(const item&, item*, size_t, std::pmr::memory_resource*, void (*)(const void*));
    template void heaps<chdr::heap<uint64_t, std::greater<uint64_t>, std::pmr::vector<uint64_t>, 3U>, uint64_t>(const uint64_t&, uint64_t*, size_t, std::pmr::memory_resource*, void (*)(const void*));
    template <typename P> void pool(size_t n, void (*sink)(const void*)) {
        P p; std::pmr::memory_resource* r = &p; void* q = r->allocate(n); r->deallocate(q, n); q = p.allocate(n, 16U); p.deallocate(q, n, 16U); bool e = *r == p; sink(&e);
        std::pmr::vector<int> v(&p); v.push_back(1); sink(&v); P o(std::move(p)); p = std::move(o); p.reset(); p.release();
    }
    template void pool<chdr::monotonic_pool<>>(size_t, void (*)(const void*)); template void pool<chdr::heterogeneous_pool<>>(size_t, void (*)(const void*)); template void pool<chdr::homogeneous_pool<>>(size_t, void (*)(const void*));
    template <typename C> void distances(const C& a, const C& b, void (*sink)(const void*)) { using H = chdr::heuristics; auto x = H::canberra_distance<float>(a, b); sink(&x); auto y = H::cosine_distance<double>(a, b); sink(&y); }
    template void distances(const cN<2>&, const cN<2>&, void (*)(const void*)); template void distances(const cN<3>&, const cN<3>&, void (*)(const void*));
    template <typename I, typename S> void graphs(I i, S s, std::pmr::memory_resource* r, void (*sink)(const void*)) {
        using G = chdr::mazes::graph<I, S>; using E = std::pair<I, S>;
        G g, h(r), k({{E(i, s)}, {E(i, s), E(i, s)}}), l({{E(i, s)}}, r); g.add(i); g.add(i, E(i, s)); g.remove(i, E(i, s)); g.prune(); g.template prune<true>(); g.template prune<false>();
        const G& c = g; { const auto& v = c.get_neighbours(i); sink(&v); } { auto v = c.contains(i); sink(&v); } { auto v = c.count(); sink(&v); } { const auto& v = c[i]; sink(&v); }
        for (const auto& v : c) { sink(&v); } { auto v = std::distance(c.cbegin(), c.cend()); sink(&v); } G m(std::move(g)); h = std::move(m);
    }
    template void graphs<uint32_t, uint32_t>(uint32_t, uint32_t, std::pmr::memory_resource*, void (*)(const void*)); template void graphs<uint64_t, float>(uint64_t, float, std::pmr::memory_resource*, void (*)(const void*));
    template <typename G, typename C, typename W> void grids(const C& c, const std::vector<W>& w, void (*sink)(const void*)) {
        G g(c), h(c, w), k(c, std::vector<W>(w)), l(std::move(g)); l = std::move(h); const G& m = k;
        use_grid(m, c, typename C::value_type(0), sink); { auto v = m.count(); sink(&v); } { const auto& v = m.nodes(); sink(&v); } { auto v = m.size(); sink(&v); } { auto v = m.is_transitory(typename C::value_type(0)); sink(&v); }
        for (const auto& v : m) { sink(&v); } { auto v = std::distance(m.cbegin(), m.cend()); sink(&v); }
    }
#define GR(T, N, W) template void grids<chdr::mazes::grid<chdr::coord<T, N>, W>, chdr::coord<T, N>, W>(const chdr::coord<T, N>&, const std::vector<W>&, void (*)(const void*));
    GR(uint32_t, 1, char) GR(uint32_t, 2, char) GR(uint32_t, 2, bool) GR(uint32_t, 3, char) GR(uint32_t, 3, bool) GR(uint32_t, 4, bool) GR(uint32_t, 5, char) GR(uint32_t, 2, uint16_t) GR(uint32_t, 2, int)
}
#else
#include "params.hpp"
namespace sa {
    using S = chdr::solvers::solver<chdr::solvers::SOLVER, CFG>;
    [[gnu::used]] auto by_object(const CFG& p) { return S::solve(p); }
    [[gnu::used]] auto by_parts(const CFG& p) { return S::solve(p.maze, p.start, p.end, p.size, p.h, p.monotonic_pmr, p.heterogeneous_pmr, p.homogeneous_pmr, p.weight, p.capacity, p.memory_limit); }
    [[gnu::used]] auto call_object(const CFG& p) { S s; return s(p); }
    [[gnu::used]] auto call_parts(const CFG& p) { S s; return s(p.maze, p.start, p.end, p.size, p.h, p.monotonic_pmr, p.heterogeneous_pmr, p.homogeneous_pmr, p.weight, p.capacity, p.memory_limit); }
    static_assert(std::is_same_v<decltype(S::solve(std::declval<const CFG&>())), std::vector<CFG::coord_type>>);
}
#endif
