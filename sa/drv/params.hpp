// Instantiations of the library that the analyses look at. Nothing here is ever run.
#pragma once
#include <chdr.hpp>

namespace sa {

    template <bool B> using bc = std::bool_constant<B>;

    template <typename maze_t, typename coord_t, typename weight_t, typename scalar_t, bool Lazy, bool NoClean, bool Rev, bool Oct>
    struct params final {
        using weight_type = weight_t; using scalar_type = scalar_t; using index_type = uint32_t; using coord_type = coord_t;
        using lazy_sorting = bc<Lazy>; using no_cleanup = bc<NoClean>; using reverse_equivalence = bc<Rev>; using octile_neighbours = bc<Oct>;
        const maze_t& maze; const coord_type start; const coord_type end; const coord_type size;
        scalar_type (*h)(const coord_type&, const coord_type&) noexcept;
        chdr::monotonic_pool<>* monotonic_pmr; chdr::heterogeneous_pool<>* heterogeneous_pmr; chdr::homogeneous_pool<>* homogeneous_pmr;
        const scalar_type weight = 1; const size_t capacity = 0; const size_t memory_limit = 90U;
    };

    // A memory resource of the caller's own making, whose reset and release may fail.
    struct own_resource final : std::pmr::memory_resource {
        void reset(); void release();
        void* do_allocate(size_t _bytes, size_t _alignment) override; void do_deallocate(void* _p, size_t _bytes, size_t _alignment) override; bool do_is_equal(const std::pmr::memory_resource& _other) const noexcept override;
    };
    template <typename maze_t, typename coord_t, typename weight_t, typename scalar_t, bool Lazy, bool NoClean, bool Rev, bool Oct>
    struct own_params final {
        using weight_type = weight_t; using scalar_type = scalar_t; using index_type = uint32_t; using coord_type = coord_t;
        using lazy_sorting = bc<Lazy>; using no_cleanup = bc<NoClean>; using reverse_equivalence = bc<Rev>; using octile_neighbours = bc<Oct>;
        const maze_t& maze; const coord_type start; const coord_type end; const coord_type size;
        scalar_type (*h)(const coord_type&, const coord_type&) noexcept;
        own_resource* monotonic_pmr; own_resource* heterogeneous_pmr; own_resource* homogeneous_pmr;
        const scalar_type weight = 1; const size_t capacity = 0; const size_t memory_limit = 90U;
    };

    template <size_t N> using cN = chdr::coord<uint32_t, N>;

    using gridA = chdr::mazes::grid<cN<2>, char>;
    using gridB = chdr::mazes::grid<cN<3>, bool>;
    using gridD = chdr::mazes::grid<cN<2>, char>;
    using graphC = chdr::mazes::graph<uint32_t, uint32_t>;

    //                    maze    coord  weight scalar    lazy   noclean rev    octile
    using PA = params<gridA,  cN<2>, char,  uint32_t, false, false, true,  false>;
    using PB = params<gridB,  cN<3>, bool,  uint32_t, true,  false, false, true >;
    using PC = params<graphC, cN<2>, char,  uint32_t, true,  false, true,  false>;
    using PE = own_params<gridA, cN<2>, char, uint32_t, false, false, true, false>;
    using PF = params<graphC, cN<2>, char,  uint32_t, false, true,  false, false>;
    using PG = params<gridD,  cN<2>, char,  float,    true,  false, false, true >;
    using PD = params<gridD,  cN<2>, char,  double,   false, true,  false, true >;
}
