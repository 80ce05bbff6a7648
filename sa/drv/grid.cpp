// Grids, coordinates and heuristics, one root function per question: everything is inlined and each answer is stored separately. Nothing here is ever run.
#include "params.hpp"
namespace sa {
    template <typename T, size_t N> using cT = std::array<T, N>;
    template <typename T, size_t N> [[gnu::always_inline]] inline void put(T* __restrict out, const cT<T, N>& c) { for (size_t k = 0U; k < N; ++k) { out[k] = c[k]; } }
}
using namespace sa;
#define CONV(T, N) \
    void root_to1d_##T##_##N(const cT<T, N>& c, const cT<T, N>& s, uint64_t* __restrict out) { out[0] = chdr::utils::to_1d(c, s); } \
    void root_tond_##T##_##N(const T& i, const cT<T, N>& s, T* __restrict out) { const auto r = chdr::utils::to_nd(i, s); put<T, N>(out, r); } \
    void root_product_##T##_##N(const cT<T, N>& s, size_t* __restrict out) { out[0] = chdr::utils::product<size_t>(s); }
#define GRID(T, N, W) \
    void root_size_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, T* __restrict out) { put<T, N>(out, g.size()); } \
    void root_count_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, size_t* __restrict out) { out[0] = g.count(); } \
    void root_nodes_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, const void** __restrict out) { out[0] = &g.nodes(); } \
    void root_axis_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, const cT<T, N>& c, T* __restrict out, bool* __restrict flag) { \
        const auto r = g.template get_neighbours<false>(c); for (size_t i = 0U; i < chdr::mazes::grid<cT<T, N>, W>::s_neighbour_count; ++i) { flag[i] = r[i].first; put<T, N>(out + i * N, r[i].second); } } \
    void root_diag_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, const cT<T, N>& c, T* __restrict out, bool* __restrict flag) { \
        const auto r = g.template get_neighbours<true>(c); for (size_t i = 0U; i < chdr::mazes::grid<cT<T, N>, W>::s_neighbour_count; ++i) { flag[i] = r[i].first; put<T, N>(out + i * N, r[i].second); } } \
    void root_check_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, const cT<T, N>& c, const cT<T, N>& d, T* __restrict out, bool* __restrict flag) { \
        const auto r = g.check_neighbour(c, d); flag[0] = r.first; put<T, N>(out, r.second); } \
    void root_hascoord_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, const cT<T, N>& c, bool* __restrict out) { out[0] = g.contains(c); } \
    void root_hasindex_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, T i, bool* __restrict out) { out[0] = g.contains(i); } \
    void root_hassize_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, size_t i, bool* __restrict out) { out[0] = g.contains(i); } \
    void root_opencoord_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, const cT<T, N>& c, bool* __restrict out) { out[0] = g[c].is_active(); } \
    void root_openindex_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, T i, bool* __restrict out) { out[0] = g[i].is_active(); } \
    void root_opensize_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, size_t i, bool* __restrict out) { out[0] = g[i].is_active(); } \
    void root_make_##T##_##N##_##W(chdr::mazes::grid<cT<T, N>, W>* g, const cT<T, N>& s) { new (g) chdr::mazes::grid<cT<T, N>, W>(s); } \
    void root_makecopy_##T##_##N##_##W(chdr::mazes::grid<cT<T, N>, W>* g, const cT<T, N>& s, const std::vector<W>& v) { new (g) chdr::mazes::grid<cT<T, N>, W>(s, v); } \
    void root_makemove_##T##_##N##_##W(chdr::mazes::grid<cT<T, N>, W>* g, const cT<T, N>& s, std::vector<W>& v) { new (g) chdr::mazes::grid<cT<T, N>, W>(s, std::move(v)); } \
    void root_value_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, size_t i, W* __restrict out) { out[0] = g[i].value(); }
#define BYID(T, N, W) \
    void root_axisid_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, T c, T* __restrict out, bool* __restrict flag) { \
        const auto r = g.template get_neighbours<false>(c); for (size_t i = 0U; i < chdr::mazes::grid<cT<T, N>, W>::s_neighbour_count; ++i) { flag[i] = r[i].first; put<T, N>(out + i * N, r[i].second); } } \
    void root_diagid_##T##_##N##_##W(const chdr::mazes::grid<cT<T, N>, W>& g, T c, T* __restrict out, bool* __restrict flag) { \
        const auto r = g.template get_neighbours<true>(c); for (size_t i = 0U; i < chdr::mazes::grid<cT<T, N>, W>::s_neighbour_count; ++i) { flag[i] = r[i].first; put<T, N>(out + i * N, r[i].second); } }
#define BOTH(N) GRID(uint32_t, N, char) GRID(uint32_t, N, bool)
#if PART == 0
CONV(uint32_t, 1) CONV(uint32_t, 2) CONV(uint32_t, 3) CONV(uint32_t, 4) CONV(uint32_t, 5) CONV(uint32_t, 6) CONV(uint64_t, 2) CONV(uint64_t, 3) CONV(uint64_t, 4) CONV(uint64_t, 5)
#elif PART == 1
BOTH(1) BYID(uint32_t, 1, char) BYID(uint32_t, 1, bool)
#elif PART == 2
BOTH(2) GRID(uint32_t, 2, uint16_t) BYID(uint32_t, 2, char) BYID(uint32_t, 2, bool)
#elif PART == 3
BOTH(3) BYID(uint32_t, 3, char) BYID(uint32_t, 3, bool)
#elif PART == 4
GRID(uint32_t, 4, char) BYID(uint32_t, 4, char)
#elif PART == 5
GRID(uint32_t, 4, bool) BYID(uint32_t, 4, bool)
#elif PART == 6
GRID(uint32_t, 5, char)
#elif PART == 7
GRID(uint32_t, 5, bool)
#elif PART == 9
#define HEU(F, T, N, S) void root_##F##_##T##_##N##_##S(const cT<T, N>& a, const cT<T, N>& b, S* __restrict out) { out[0] = chdr::heuristics::F##_distance<S>(a, b); }
#define ALL(T, N, S) HEU(euclidean, T, N, S) HEU(sqr_euclidean, T, N, S) HEU(octile, T, N, S) HEU(manhattan, T, N, S) HEU(chebyshev, T, N, S) HEU(canberra, T, N, S) HEU(cosine, T, N, S)
#define SCALARS(T, N) ALL(T, N, uint32_t) ALL(T, N, float) ALL(T, N, double) ALL(T, N, int32_t)
SCALARS(uint32_t, 1) SCALARS(uint32_t, 2) SCALARS(uint32_t, 3) SCALARS(uint32_t, 4) SCALARS(uint32_t, 5) SCALARS(int32_t, 2) SCALARS(int32_t, 3) SCALARS(uint64_t, 2) SCALARS(uint64_t, 3) SCALARS(uint16_t, 2)
#endif
