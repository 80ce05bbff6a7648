From 03b59026b49ecfd2f30ac59a0e4a50fe9ee79bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 01/43] fix: let eidastar, eidbest_first, eiddfs and iddfs
 compile for graphs (neighbour counter is size_t, as in idastar)

---
 include/solvers/eidastar.hpp      | 4 ++--
 include/solvers/eidbest_first.hpp | 4 ++--
 include/solvers/eiddfs.hpp        | 4 ++--
 include/solvers/iddfs.hpp         | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index 4973aff..ac25aee 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -106,8 +106,8 @@ namespace chdr::solvers {
 
             node curr;
 
-                     neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            neighbours_t neighbours;
+            size_t       neighbours_idx;
 
             [[nodiscard]] state(node& _curr, const params_t& _params) :
                 curr(_curr.m_index, _curr.m_gScore, _curr.m_fScore),
diff --git a/include/solvers/eidbest_first.hpp b/include/solvers/eidbest_first.hpp
index 9a40b7f..3bea134 100644
--- a/include/solvers/eidbest_first.hpp
+++ b/include/solvers/eidbest_first.hpp
@@ -99,8 +99,8 @@ namespace chdr::solvers {
 
             node curr;
 
-                     neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            neighbours_t neighbours;
+            size_t       neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 curr(_curr.m_index, _curr.m_hScore),
diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 831296d..5d6fb6a 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -97,8 +97,8 @@ namespace chdr::solvers {
         template <typename neighbours_t>
         struct state final {
 
-                     neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            neighbours_t neighbours;
+            size_t       neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 neighbours(_params.maze.template get_neighbours<params_t::octile_neighbours::value>(_curr.m_index)),
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index bbde518..1ddc1bd 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -98,8 +98,8 @@ namespace chdr::solvers {
         template <typename neighbours_t>
         struct state final {
 
-                     neighbours_t            neighbours;
-            typename neighbours_t::size_type neighbours_idx;
+            neighbours_t neighbours;
+            size_t       neighbours_idx;
 
             [[nodiscard]] state(const node& _curr, const params_t& _params) :
                 neighbours(_params.maze.template get_neighbours<params_t::octile_neighbours::value>(_curr.m_index)),
-- 
2.43.0


From 1c643acce8656da5ff93401544c9400bdf5f1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 02/43] fix: to_nd of three and four dimensions uses the same
 strides as to_1d (non-cubic mazes got wrong coordinates)

---
 include/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 55350c9..cab6c37 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -216,19 +216,19 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[1U],
-                    w2 / _sizes[1U],
+                    w2 % _sizes[0U],
+                    w2 / _sizes[0U],
                     _index / w1
                 };
             }
             else if constexpr (Kd == 4U) {
-                const auto w1 = _sizes[2U] * _sizes[1U];
-                const auto w2 = w1 * _sizes[0U];
+                const auto w1 = _sizes[0U] * _sizes[1U];
+                const auto w2 = w1 * _sizes[2U];
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[2U],
-                    (w3 % w1) / _sizes[2U],
+                    (w3 % w1) % _sizes[0U],
+                    (w3 % w1) / _sizes[0U],
                      w3 / w1,
                     _index / w2,
                 };
-- 
2.43.0


From 639683e297c9651c54ba508d5435d3ae1779e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 03/43] fix: rbacktrack_noreverse with a known depth no longer
 puts that many empty coordinates before the path

---
 include/solvers/base/solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 0218432..49a04f9 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -647,7 +647,8 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
 
-                std::vector<coord_t> result(_depth);
+                std::vector<coord_t> result{};
+                result.reserve(_depth);
 
                 for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
                     result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
-- 
2.43.0


From eaffee19b2819014dae1d671e3c40219a6e5e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 04/43] fix: size the backtracked path by its nodes where
 distance is not node count (graphs, jump-point search)

---
 include/solvers/base/solver.hpp | 8 ++++++++
 include/solvers/gjps.hpp        | 4 ++--
 include/solvers/jps.hpp         | 4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 49a04f9..f7a6156 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -616,6 +616,10 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack(const node_t& _node, const coord_t& _size, size_t _depth) {
 
+                if constexpr (is_graph_v<decltype(std::declval<params_t>().maze)>) {
+                    return rbacktrack(_node, _size); // The edges of a graph may have any length: their sum is not the depth.
+                }
+
                 std::vector<coord_t> result(_depth);
 
                 size_t i = 0U;
@@ -647,6 +651,10 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
 
+                if constexpr (is_graph_v<decltype(std::declval<params_t>().maze)>) {
+                    return rbacktrack_noreverse(_node, _size); // The edges of a graph may have any length: their sum is not the depth.
+                }
+
                 std::vector<coord_t> result{};
                 result.reserve(_depth);
 
diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index c9cceee..1dc20a9 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -370,10 +370,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index ec4f83a..82ed34d 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -386,10 +386,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
-- 
2.43.0


From e161df6c237f566dd4813dd834e43a93d6aeee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 05/43] fix: idbest_first keeps its root when an iteration ends
 (it popped the last open node and then read past the front)

---
 include/solvers/idbest_first.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/solvers/idbest_first.hpp b/include/solvers/idbest_first.hpp
index eb853d3..29850e1 100644
--- a/include/solvers/idbest_first.hpp
+++ b/include/solvers/idbest_first.hpp
@@ -172,13 +172,17 @@ namespace chdr::solvers {
                             }
                         }
                         else {
-                            _open.pop_back();
+                            if (_open.size() > 1U) {
+                                _open.pop_back();
+                            }
                             stack.pop();
                         }
                     }
                     else {
                         min = utils::min(min, curr.m_hScore);
-                        _open.pop_back();
+                        if (_open.size() > 1U) {
+                            _open.pop_back();
+                        }
                         stack.pop();
                     }
                 }
-- 
2.43.0


From 77e248d9b42665b91fa3ae697324105073b09b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 06/43] fix: astar starts from and stops at the same endpoints
 its heuristic uses when it searches in reverse

---
 include/solvers/astar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 7c113bd..a4dad97 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -124,8 +124,8 @@ namespace chdr::solvers {
             const auto&   end = do_reverse ? _params.start : _params.end;
             const auto& start = do_reverse ? _params.end   : _params.start;
 
-            const auto s = utils::to_1d(_params.start, _params.size);
-            const auto e = utils::to_1d(_params.end,   _params.size);
+            const auto s = utils::to_1d(start, _params.size);
+            const auto e = utils::to_1d(end,   _params.size);
 
               _open.emplace_nosort(s, static_cast<scalar_t>(0), _params.h(start, end) * _params.weight);
             _closed.emplace(s);
-- 
2.43.0


From 7eb5fda996832ce23f850355772a18ab290cf41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 07/43] fix: iddfs and eiddfs no longer reset the resource
 under the stack that lives in it

---
 include/solvers/eiddfs.hpp | 13 +++++++------
 include/solvers/iddfs.hpp  | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 5d6fb6a..607784c 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -127,10 +127,15 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
-
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
+                // The previous iteration's stack is gone: recycle its memory.
+                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
+                    _params.monotonic_pmr->reset();
+                }
+
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
+
                 stack.emplace(_open.back(), _params);
 
                 // Main loop:
@@ -168,10 +173,6 @@ namespace chdr::solvers {
                         _closed.erase(curr.m_index);
                     }
                 }
-
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
-                }
             }
 
             return std::vector<coord_t>{};
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index 1ddc1bd..f336000 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -128,10 +128,15 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
-
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
+                // The previous iteration's stack is gone: recycle its memory.
+                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
+                    _params.monotonic_pmr->reset();
+                }
+
+                stack<state<neighbours_t>> stack(_params.monotonic_pmr);
+
                 stack.emplace(_open.back(), _params);
 
                 // Main loop:
@@ -164,10 +169,6 @@ namespace chdr::solvers {
                         stack.pop();
                     }
                 }
-
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
-                }
             }
 
             return std::vector<coord_t>{};
-- 
2.43.0


From bc67bc431656e6c92d7c48e8bcd3e8e536142bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 08/43] fix: eiddfs marks the start as visited, and unmarks a
 cell before (not after) dropping it

---
 include/solvers/eiddfs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 607784c..d094c02 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -137,6 +137,7 @@ namespace chdr::solvers {
                 stack<state<neighbours_t>> stack(_params.monotonic_pmr);
 
                 stack.emplace(_open.back(), _params);
+                solver_t::solver_utils::preallocate_emplace(_closed, s, _capacity, _params.maze.count());
 
                 // Main loop:
                 while (!stack.empty()) {
@@ -166,11 +167,11 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        _closed.erase(curr.m_index);
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
                         stack.pop();
-                        _closed.erase(curr.m_index);
                     }
                 }
             }
-- 
2.43.0


From ec9d0ac4f6c1bf2bc816a091f7fa5d8d2711feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 09/43] fix: gjps allocates predecessors from the resource it
 frees them to

---
 include/solvers/gjps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index 1dc20a9..74f47f4 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -342,7 +342,7 @@ namespace chdr::solvers {
                                     solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
 
                                     if (curr_ptr == nullptr) {
-                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
+                                        curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
 
                                     if constexpr (params_t::lazy_sorting::value) {
-- 
2.43.0


From bfa7c801ff9dbcf1bb63e6b9cdfbfe827d0fbcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 10/43] fix: queue::push and stack::push compile

---
 include/types/containers/queue.hpp | 4 ++--
 include/types/containers/stack.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index fbfac29..61ead62 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -203,13 +203,13 @@ namespace chdr {
          * @brief Adds an element to the queue.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the queue, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the queue.
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index 6db33cb..e4df76e 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -213,13 +213,13 @@ namespace chdr {
          * @brief Adds an element to the stack.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the stack, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the stack.
-- 
2.43.0


From fafb984bc814a80e753a96c1831231d0fb37b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 11/43] fix: heap positions of parent and children agree for
 every arity

---
 include/types/containers/heap.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a715c37..b6e33eb 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -74,6 +74,10 @@ namespace chdr {
             return static_cast<size_t>(&(_item) - &(c[0U]));
         }
 
+        // The super element has index 0 and the root has index 1.
+        [[nodiscard]] HOT static constexpr size_t parent_of     (size_t _index) noexcept { return ((_index - 2U) / Kd) + 1U; }
+        [[nodiscard]] HOT static constexpr size_t first_child_of(size_t _index) noexcept { return ((_index - 1U) * Kd) + 2U; }
+
     public:
 
         /**
@@ -191,7 +195,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = size(); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -216,7 +220,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = size(); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -441,7 +445,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i], c[i / Kd])) {
+                        if (i > 1U && comp(c[parent_of(i)], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -538,7 +542,7 @@ namespace chdr {
                 auto value_to_insert = std::move(c[i]);
 
                 while (i > 1U) {
-                    const auto p = i / Kd;
+                    const auto p = parent_of(i);
 
                     if (comp(c[p], value_to_insert)) {
                         c[i] = std::move(c[p]);
@@ -573,8 +577,8 @@ namespace chdr {
 
                 while (true) {
 
-                    const size_t c0 = i * Kd;         // First child index
-                    const size_t cn = c0 + (Kd - 1U); // Last child index in range
+                    const size_t c0 = first_child_of(i); // First child index
+                    const size_t cn = c0 + (Kd - 1U);    // Last child index in range
 
                     if (c0 < c.size()) {
 
@@ -757,7 +761,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -802,7 +806,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -872,7 +876,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start], c[distance_from_start / Kd])) {
+                        if (distance_from_start > 1U && comp(c[parent_of(distance_from_start)], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
-- 
2.43.0


From c56385c881f6c31542033c96ead0557927089831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 12/43] fix: heap erase and insert act on the element they are
 given, and keep the heap ordered

---
 include/types/containers/heap.hpp | 46 ++++++++++++++-----------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index b6e33eb..4e36342 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -433,9 +433,9 @@ namespace chdr {
 
             assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
-            if (i < size()) {
+            if (i <= size()) {
 
-                if (i == size() - 1U) {
+                if (i == size()) {
                     c.pop_back(); // If the item to remove is the last item, just remove it.
                 }
                 else {
@@ -474,12 +474,7 @@ namespace chdr {
 
             T result(std::move(top()));
 
-            if (size() > 0U) {
-                c[1U] = std::move(c.back());
-            }
-            c.pop_back();
-
-            sort_down(c[1U]);
+            pop();
 
             return result;
         }
@@ -531,11 +526,11 @@ namespace chdr {
          * @param _item [in] The item to be sorted upwards within the heap. The item's new position
          *                    will adhere to the heap's rules after execution.
          */
-        HOT constexpr void sort_up(const T& _item) noexcept {
+        HOT constexpr size_t sort_up(const T& _item) noexcept {
 
-            if (size() > 1U) {
+            auto i = index_of(_item);
 
-                auto i = index_of(_item);
+            if (size() > 1U) {
 
                 assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
@@ -555,6 +550,8 @@ namespace chdr {
 
                 c[i] = std::move(value_to_insert);
             }
+
+            return i;
         }
 
         /**
@@ -834,11 +831,9 @@ namespace chdr {
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
-        constexpr iterator_t insert(iterator_t _position, const T& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, _value);
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+        constexpr iterator_t insert([[maybe_unused]] iterator_t _position, const T& _value) {
+            c.push_back(_value);
+            return c.begin() + sort_up(c.back()); // Return iterator to inserted element
         }
 
         /**
@@ -848,11 +843,9 @@ namespace chdr {
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
-        constexpr iterator_t insert(iterator_t _position, T&& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, std::move(_value));
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+        constexpr iterator_t insert([[maybe_unused]] iterator_t _position, T&& _value) {
+            c.push_back(std::move(_value));
+            return c.begin() + sort_up(c.back()); // Return iterator to inserted element
         }
 
         /**
@@ -864,7 +857,6 @@ namespace chdr {
         constexpr iterator_t erase(iterator_t _position) {
 
             const auto distance_from_start = static_cast<unsigned>(std::distance(c.begin(), _position));
-            const auto size_before = size();
 
             if (distance_from_start < size() + 1U) { // Offset for super element.
 
@@ -875,7 +867,7 @@ namespace chdr {
 
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
-                    if (size_before > 1U) {
+                    if (size() > 1U) {
                         if (distance_from_start > 1U && comp(c[parent_of(distance_from_start)], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
@@ -911,8 +903,12 @@ namespace chdr {
          * @param _last Iterator to the element past the last one to erase.
          */
         constexpr void erase(iterator_t _first, iterator_t _last) {
-            for (auto it = _first; it != _last;) {
-                it = erase(it); // Keep erasing until the last element is removed.
+
+            c.erase(_first, _last);
+
+            // Restore heap property:
+            for (size_t i = size(); i >= 1U; --i) {
+                sort_down(c[i]);
             }
         }
 
-- 
2.43.0


From a9c9442075f4ae436cc8d0aed63e5dfe17b404bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 13/43] fix: heap::top and heap::back refer to the first and
 last element, also for pointers

---
 include/types/containers/heap.hpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 4e36342..1cbf531 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -271,12 +271,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -288,12 +283,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -305,12 +295,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
@@ -322,12 +307,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
-- 
2.43.0


From 6542a79ae52e25778766f192e3ff534e463926bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 14/43] fix: heap stays usable after it was wiped or moved
 from, and its reverse range ends before the super element

---
 include/types/containers/heap.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 1cbf531..0a6a067 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -74,6 +74,9 @@ namespace chdr {
             return static_cast<size_t>(&(_item) - &(c[0U]));
         }
 
+        // Wiping the heap, or moving from it, takes the super element away.
+        HOT constexpr void restore_super_element() { if (UNLIKELY(c.empty())) { c.emplace_back(); } }
+
         // The super element has index 0 and the root has index 1.
         [[nodiscard]] HOT static constexpr size_t parent_of     (size_t _index) noexcept { return ((_index - 2U) / Kd) + 1U; }
         [[nodiscard]] HOT static constexpr size_t first_child_of(size_t _index) noexcept { return ((_index - 1U) * Kd) + 2U; }
@@ -330,6 +333,7 @@ namespace chdr {
          * @param [in] _item Item to add to the heap.
          */
         [[maybe_unused]] HOT constexpr void push(const T& _item) {
+            restore_super_element();
             c.push_back(_item);
             sort_up(c.back());
         }
@@ -339,6 +343,7 @@ namespace chdr {
          * @param [in] _item Item to move into the heap.
          */
         [[maybe_unused]] HOT constexpr void push(T&& _item) {
+            restore_super_element();
             c.push_back(std::move(_item));
             sort_up(c.back());
         }
@@ -351,6 +356,7 @@ namespace chdr {
          */
         template <class... Args>
         [[maybe_unused]] HOT constexpr void emplace(Args&&... _args) {
+            restore_super_element();
             c.emplace_back(std::forward<Args>(_args)...);
             sort_up(c.back());
         }
@@ -377,14 +383,14 @@ namespace chdr {
          * @param [in] _item Item to add to the heap.
          * @warning Not sorting the heap may violate the heap property.
          */
-        [[maybe_unused]] HOT constexpr void push_nosort(const T& _item) { c.push_back(_item); }
+        [[maybe_unused]] HOT constexpr void push_nosort(const T& _item) { restore_super_element(); c.push_back(_item); }
 
         /**
          * @brief Adds a new element to the heap container using move semantics.
          * @param [in] _item Item to move into the heap.
          * @warning Not sorting the heap may violate the heap property.
          */
-        [[maybe_unused]] HOT constexpr void push_nosort(T&& _item) { c.push_back(std::move(_item)); }
+        [[maybe_unused]] HOT constexpr void push_nosort(T&& _item) { restore_super_element(); c.push_back(std::move(_item)); }
 
         /**
          * @brief Adds a new element to the heap container using perfect forwarding. Does not sort the heap.
@@ -394,7 +400,7 @@ namespace chdr {
          * @warning Not sorting the heap may violate the heap property.
          */
         template <class... Args>
-        [[maybe_unused]] HOT constexpr void emplace_nosort(Args&&... _args) { c.emplace_back(std::forward<Args>(_args)...); }
+        [[maybe_unused]] HOT constexpr void emplace_nosort(Args&&... _args) { restore_super_element(); c.emplace_back(std::forward<Args>(_args)...); }
 
         /**
          * @brief Removes a specified item from the heap, restoring the heap property after removal.
@@ -812,6 +818,7 @@ namespace chdr {
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert([[maybe_unused]] iterator_t _position, const T& _value) {
+            restore_super_element();
             c.push_back(_value);
             return c.begin() + sort_up(c.back()); // Return iterator to inserted element
         }
@@ -824,6 +831,7 @@ namespace chdr {
          * @return iterator_t An iterator pointing to the inserted element.
          */
         constexpr iterator_t insert([[maybe_unused]] iterator_t _position, T&& _value) {
+            restore_super_element();
             c.push_back(std::move(_value));
             return c.begin() + sort_up(c.back()); // Return iterator to inserted element
         }
@@ -871,6 +879,7 @@ namespace chdr {
         template <typename InputIt>
         constexpr void insert(InputIt _first, InputIt _last) {
             for (InputIt it = _first; it != _last; ++it) {
+                restore_super_element();
                 c.push_back(*it);
                 sort_up(c.back());
             }
@@ -899,9 +908,9 @@ namespace chdr {
             return c;
         }
 
-        [[maybe_unused, nodiscard]] constexpr iterator_t        begin()       noexcept { return c.begin()  + 1U; }
-        [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin()  + 1U; }
-        [[maybe_unused, nodiscard]] constexpr const_iterator_t cbegin() const noexcept { return c.cbegin() + 1U; }
+        [[maybe_unused, nodiscard]] constexpr iterator_t        begin()       noexcept { return c.begin()  + (c.empty() ? 0U : 1U); }
+        [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin()  + (c.empty() ? 0U : 1U); }
+        [[maybe_unused, nodiscard]] constexpr const_iterator_t cbegin() const noexcept { return c.cbegin() + (c.empty() ? 0U : 1U); }
 
         [[maybe_unused, nodiscard]] constexpr iterator_t        end()       noexcept { return c.end();  }
         [[maybe_unused, nodiscard]] constexpr const_iterator_t  end() const noexcept { return c.end();  }
@@ -911,9 +920,9 @@ namespace chdr {
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rbegin() const noexcept { return c.rbegin();  }
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crbegin() const noexcept { return c.crbegin(); }
 
-        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend(); }
+        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend()  - (c.empty() ? 0U : 1U); }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend()  - (c.empty() ? 0U : 1U); }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend() - (c.empty() ? 0U : 1U); }
 
     };
 
-- 
2.43.0


From 1d2f5cfe06cd44972af86a49546a21d7a0a35c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 15/43] fix: octile_distance looks at every dimension, not the
 first one only, to see whether a move is straight

---
 include/utils/heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/heuristics.hpp b/include/utils/heuristics.hpp
index 9798c0c..a26cf11 100644
--- a/include/utils/heuristics.hpp
+++ b/include/utils/heuristics.hpp
@@ -102,7 +102,7 @@ namespace chdr {
             bool straight = false;
             for (size_t i = 0U; i < Kd; ++i) {
 
-                if (_a[0] == _b[0]) {
+                if (_a[i] == _b[i]) {
                     straight = true;
 
                     if constexpr (Kd > 4U) { break; }
-- 
2.43.0


From 257f2f330d0d941948b95e60e891f294aae29849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 16/43] fix: existence_set's iterator types are those of its
 container (begin, end and the rest did not compile)

---
 include/types/containers/existence_set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index eb4d009..447f95b 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -410,10 +410,10 @@ namespace chdr {
          */
         [[maybe_unused, nodiscard]] constexpr auto capacity() const noexcept { return c.capacity(); }
 
-        using iterator_t               = typename std::vector<width_t>::              iterator;
-        using const_iterator_t         = typename std::vector<width_t>::        const_iterator;
-        using reverse_iterator_t       = typename std::vector<width_t>::      reverse_iterator;
-        using const_reverse_iterator_t = typename std::vector<width_t>::const_reverse_iterator;
+        using iterator_t               = typename decltype(c)::              iterator;
+        using const_iterator_t         = typename decltype(c)::        const_iterator;
+        using reverse_iterator_t       = typename decltype(c)::      reverse_iterator;
+        using const_reverse_iterator_t = typename decltype(c)::const_reverse_iterator;
 
         [[maybe_unused, nodiscard]] constexpr       iterator_t  begin()       noexcept { return c.begin();  }
         [[maybe_unused, nodiscard]] constexpr const_iterator_t  begin() const noexcept { return c.begin();  }
-- 
2.43.0


From 26b940f08d9d6a45c7bf18a4952b8dd3f91a8332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 17/43] fix: solve() and the call operator accept arguments for
 the parameters instead of calling themselves

---
 include/solvers/base/solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index f7a6156..a6293b6 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -856,7 +856,8 @@ namespace chdr::solvers {
         constexpr
 #endif // __cplusplus >= 202003L
         static auto solve(Args&&... _args) {
-            return solve(std::forward<Args>(_args)...);
+            const params_t params { std::forward<Args>(_args)... };
+            return solve(params);
         }
 
         /**
-- 
2.43.0


From 2969af244290f26074ff096850090768617d8623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 18/43] fix: grid::contains(coord) compiles, and grid::nodes
 checks the value it is given

---
 include/mazes/grid.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 7eba226..ddd2f22 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -176,7 +176,7 @@ namespace chdr::mazes {
          * @warning The number of nodes provided must match the number of cells in the grid.
          */
         constexpr void nodes(const std::vector<weight_t>& _value) noexcept {
-            assert(m_nodes.size() == m_count && "The number of nodes must match the number of cells in the grid.");
+            assert(_value.size() == m_count && "The number of nodes must match the number of cells in the grid.");
             m_nodes = _value;
         }
 
@@ -298,7 +298,13 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            bool result = true;
+            for (size_t i = 0U; i < s_rank; ++i) {
+                result = result && _id[i] < m_size[i];
+            }
+
+            return result;
         }
 
         /**
@@ -759,7 +765,13 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            bool result = true;
+            for (size_t i = 0U; i < s_rank; ++i) {
+                result = result && _id[i] < m_size[i];
+            }
+
+            return result;
         }
 
         /**
-- 
2.43.0


From 572c382a67798f249325c5a515532681c1176a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 19/43] fix: a graph built from a grid keeps the corridors of
 one cell out of the edges of another

---
 include/mazes/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a9f83a0..b794d57 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -193,6 +193,7 @@ namespace chdr::mazes {
                                         const auto nIdx1 = static_cast<index_t>(utils::to_1d(nCoord1, size));
 
                                         local_closed.clear();
+                                        thread_connections[nIdx1].clear();
                                         stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
 
                                         while (!stack.empty()) {
-- 
2.43.0


From 62f9550c533dcccbfb00926761af6dc43a262221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 20/43] fix: a graph built from a grid connects junctions that
 are direct neighbours

---
 include/mazes/graph.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index b794d57..f72bdcc 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -203,7 +203,15 @@ namespace chdr::mazes {
 
                                             if (local_closed.find(currIdx) == local_closed.end()) {
 
-                                                 local_closed.insert(currIdx);
+                                                local_closed.insert(currIdx);
+
+                                                // The corridor ends here:
+                                                if (!_grid.is_transitory(currIdx)) {
+                                                    thread_connections[nIdx1].emplace_back(currIdx, currDistance);
+                                                    stack.clear();
+                                                    break;
+                                                }
+
                                                 global_closed.insert(currIdx);
 
                                                 for (const auto& n3 : _grid.get_neighbours(currIdx)) {
@@ -214,16 +222,7 @@ namespace chdr::mazes {
                                                             global_closed.find(s) == global_closed.end()
                                                         ) {
 
-                                                            const edge_t next = std::make_pair(s, currDistance + static_cast<scalar_t>(1));
-
-                                                            if (_grid.is_transitory(s)) {
-                                                                stack.emplace(std::move(next));
-                                                            }
-                                                            else {
-                                                                thread_connections[nIdx1].emplace_back(std::move(next));
-                                                                stack.clear();
-                                                                break;
-                                                            }
+                                                            stack.emplace(s, currDistance + static_cast<scalar_t>(1));
                                                         }
                                                     }
                                                 }
-- 
2.43.0


From 98a8a281fa97de8c3fee70f594d149e6eaf85cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 21/43] fix: pruning a graph leaves no edge to a removed node

---
 include/mazes/graph.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index f72bdcc..43dd5fa 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -374,8 +374,6 @@ namespace chdr::mazes {
 
                         if (auto& [node, neighbours] = entry; neighbours.size() == 2U) {
 
-                            dirty = ConsolidateAfterPrune;
-
                             auto it = neighbours.begin();
 
                             auto& [n1_id, n1_cost] = *it;
@@ -384,6 +382,18 @@ namespace chdr::mazes {
                             auto s1 = m_entries.find(n1_id);
                             auto s2 = m_entries.find(n2_id);
 
+                            const auto leads_back = [this, node = node](const auto& _search, const scalar_t& _cost) {
+                                return _search != m_entries.end() && _search->first != node &&
+                                       std::find(_search->second.begin(), _search->second.end(), std::make_pair(node, _cost)) != _search->second.end();
+                            };
+
+                            // Keep the current node if there is an edge to it that could not be replaced:
+                            if (n1_id == n2_id || !leads_back(s1, n1_cost) || !leads_back(s2, n2_cost)) {
+                                continue;
+                            }
+
+                            dirty = ConsolidateAfterPrune;
+
                             // Merge the connections from the current node with its neighbours:
 
                             if (s1 != m_entries.end() && n1_id != n2_id) {
@@ -391,10 +401,9 @@ namespace chdr::mazes {
                                 auto  sn  = std::find(set.begin(), set.end(), std::make_pair(node, n1_cost));
 
                                 if (sn != set.end()) {
-
-                                    if (neighbour_t new_vertex { n2_id, sn->second + n2_cost };
-                                        std::find(set.begin(), set.end(), new_vertex) == set.end()
-                                    ) {
+                                    neighbour_t new_vertex{n2_id, sn->second + n2_cost};
+                                    set.erase(sn);
+                                    if (std::find(set.begin(), set.end(), new_vertex) == set.end()) {
                                         set.emplace_back(new_vertex);
                                     }
                                 }
-- 
2.43.0


From 60438492da2695655fb0209a9197578d830cdcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 22/43] fix: a node of an adjacency list that has no outgoing
 edges still belongs to the graph

---
 include/mazes/graph.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 43dd5fa..62daf11 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -109,6 +109,8 @@ namespace chdr::mazes {
 
             for (const auto& entry : _adjacency_list) {
 
+                add(index); // A node may have no outgoing edges.
+
                 for (const auto& edge : entry) {
                     add(index, edge);
                 }
-- 
2.43.0


From 3fdcc3500fc1cd69bbd50a588c719b01a5f650ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 23/43] fix: heterogeneous_pool keeps free blocks of equal size
 apart (a remainder was recorded with the wrong size or start, or was lost)

---
 include/types/pmr/heterogeneous_pool.hpp | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 94b075b..f65cb36 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -104,7 +104,7 @@ namespace chdr {
         size_t m_block_width;         // Size of the current block.
 
         std::vector<block> m_blocks;
-        std::map<size_t, block> m_free;
+        std::multimap<size_t, block> m_free; // Several free blocks may be of the same size.
 
         HOT uint8_t* expand(size_t _bytes, size_t _alignment) noexcept {
 
@@ -129,23 +129,7 @@ namespace chdr {
                     remaining_size != 0U
                 ) {
 
-                    /*
-                     * Attempt to insert new block into free list.
-                     * Repeat with a smaller key upon collision.
-                     * If insertion is impossible, throw.
-                     */
-                    bool success = false;
-                    for (size_t i = 0U; i < remaining_size; ++i) {
-
-                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + utils::max(_bytes, _alignment)).second) {
-                            success = true;
-                            break;
-                        }
-                    }
-
-                    if (UNLIKELY(!success)) {
-                        throw std::bad_alloc();
-                    }
+                    m_free.emplace(remaining_size, block { remaining_size, _alignment, result + _bytes });
                 }
 
                 m_block_width = utils::min((m_block_width * 3U) / 2U, s_max_heap_block_size);
@@ -178,7 +162,7 @@ namespace chdr {
             if (it != m_free.end() && it->second.size >= _bytes) {
 
                 // Extract the matching block without performing a full tree rebalance:
-                typename std::map<size_t, block>::node_type node = m_free.extract(it);
+                auto node = m_free.extract(it);
 
                 result = node.mapped().data;
 
@@ -351,7 +335,7 @@ namespace chdr {
                         }
                     }
 
-                    m_free.try_emplace(_bytes, _bytes, _alignment, static_cast<uint8_t*>(_p));
+                    m_free.emplace(_bytes, block { _bytes, _alignment, static_cast<uint8_t*>(_p) });
                 }
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From 9066184114887b7c7465113b07ecba2bbe545ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 24/43] fix: heterogeneous_pool aligns by address and stays
 within the block it serves an allocation from

---
 include/types/pmr/heterogeneous_pool.hpp | 53 +++++++++++++++---------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index f65cb36..1aa0e69 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -150,32 +150,42 @@ namespace chdr {
             return result;
         }
 
-        HOT uint8_t* allocate_from_free(size_t _bytes) {
+        HOT uint8_t* allocate_from_free(size_t _bytes, size_t _alignment) {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
 
             uint8_t* result = nullptr;
 
-            // Find the smallest free block that fits:
-            auto it = m_free.lower_bound(_bytes);
+            // Find the smallest free block that fits, once its start has been aligned:
+            for (auto it = m_free.lower_bound(_bytes); it != m_free.end(); ++it) {
 
-            if (it != m_free.end() && it->second.size >= _bytes) {
+                const size_t padding = (_alignment - (reinterpret_cast<uintptr_t>(it->second.data) & (_alignment - 1U))) & (_alignment - 1U);
 
-                // Extract the matching block without performing a full tree rebalance:
-                auto node = m_free.extract(it);
+                if (it->second.size >= padding && it->second.size - padding >= _bytes) {
 
-                result = node.mapped().data;
+                    // Keep the space ahead of the aligned start:
+                    if (padding != 0U) {
+                        m_free.emplace(padding, block { padding, 1U, it->second.data });
+                    }
+
+                    // Extract the matching block without performing a full tree rebalance:
+                    auto node = m_free.extract(it);
 
-                // Consume block or adjust the remaining size:
-                size_t remaining_size = node.mapped().size - _bytes;
-                if (remaining_size != 0U) {
+                    result = node.mapped().data + padding;
 
-                    // Update with adjusted size:
-                    node.key() = remaining_size;
-                    node.mapped().size = remaining_size;
-                    node.mapped().data += utils::max(_bytes, node.mapped().alignment);
+                    // Consume block or adjust the remaining size:
+                    const size_t remaining_size = node.mapped().size - padding - _bytes;
+                    if (remaining_size != 0U) {
 
-                    m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                        // Update with adjusted size:
+                        node.key() = remaining_size;
+                        node.mapped().size = remaining_size;
+                        node.mapped().data = result + _bytes;
+
+                        m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
+                    }
+
+                    break;
                 }
             }
 
@@ -236,21 +246,24 @@ namespace chdr {
                 return nullptr; // No-op. (See C++17 standard.)
             }
             else {
-                const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
 
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
+                if (_bytes < MaxStackAllocationSize && _bytes <= s_stack_block_size) {
+
+                    const size_t padding = (_alignment - (reinterpret_cast<uintptr_t>(m_stack_block + m_stack_write) & (_alignment - 1U))) & (_alignment - 1U);
 
-                    aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                    m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    if (const size_t available = s_stack_block_size - m_stack_write; available >= padding && available - padding >= _bytes) {
+                        aligned_ptr    = m_stack_block + (m_stack_write + padding);
+                        m_stack_write += padding + _bytes;
+                    }
                 }
 
                 if (aligned_ptr == nullptr) {
 
                     // Attempt to find a free block, or create one otherwise:
-                    aligned_ptr = allocate_from_free(aligned_bytes);
+                    aligned_ptr = allocate_from_free(_bytes, _alignment);
                     if (UNLIKELY(aligned_ptr == nullptr)) {
                         aligned_ptr = expand(_bytes, _alignment);
                     }
-- 
2.43.0


From 1dfd5b824407bf320638074db11b505efdd9f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 25/43] fix: heterogeneous_pool drops only the block that
 failed, and frees its blocks when a reset cannot record them

---
 include/types/pmr/heterogeneous_pool.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 1aa0e69..aefd4f5 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -142,9 +142,13 @@ namespace chdr {
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
-                    result = nullptr;
 
-                    m_blocks.pop_back();
+                    // The block may not have been recorded yet:
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
+                    result = nullptr;
                 }
             }
             return result;
@@ -491,6 +495,7 @@ namespace chdr {
             }
             catch (...) {
                   m_free.clear();
+                 cleanup();
                 m_blocks.clear();
             }
 
-- 
2.43.0


From f2d35e195a59925ee8213ca7557526ec541ddbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 26/43] fix: heterogeneous_pool::deallocate returns memory to
 the pool (its condition was inverted, nothing was ever recycled)

---
 include/types/pmr/heterogeneous_pool.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index aefd4f5..6207cc4 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -317,14 +317,13 @@ namespace chdr {
          */
         virtual HOT void do_deallocate(void* _p, size_t _bytes, size_t _alignment) override {
 
-            assert(_bytes > 0U && "Allocation size must be greater than zero.");
             assert((_alignment & (_alignment - 1U)) == 0U && "Alignment must be a power of two.");
 
-            if (_bytes != 0U) {
+            if (_bytes == 0U) {
                 // No-op. (See C++17 standard.)
             }
             else {
-                if (((m_stack_write + (_bytes + _alignment - 1U)) & ~(_alignment - 1U)) > s_stack_block_size) {
+                try {
 
                     if constexpr (Coalescing) {
 
@@ -354,6 +353,7 @@ namespace chdr {
 
                     m_free.emplace(_bytes, block { _bytes, _alignment, static_cast<uint8_t*>(_p) });
                 }
+                catch (...) {} // NOLINT(*-empty-catch) The memory becomes available again upon reset.
 
 #if CHDR_DIAGNOSTICS == 1
 
-- 
2.43.0


From 0d4efe80bfe6fbe45f86f0492e85865ca633341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 27/43] fix: a moved heterogeneous_pool hands out no memory of
 the stack block it left behind

---
 include/types/pmr/heterogeneous_pool.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 6207cc4..999627c 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -16,6 +16,8 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <functional>
+#include <iterator>
 #include <limits>
 #include <map>
 #include <new>
@@ -208,6 +210,14 @@ namespace chdr {
          *          It is intended to be called as part of the pool's release and
          *          destruction mechanisms.
          */
+        // The stack block of another pool stays behind when its contents are moved.
+        void discard_free_within(const uint8_t* _stack_block) noexcept {
+            for (auto it = m_free.begin(); it != m_free.end();) {
+                const auto* const data = it->second.data;
+                it = (!std::less<const uint8_t*>()(data, _stack_block) && std::less<const uint8_t*>()(data, _stack_block + s_stack_block_size)) ? m_free.erase(it) : std::next(it);
+            }
+        }
+
         void cleanup() noexcept {
             for (const auto& item : m_blocks) {
                 operator delete(item.data, static_cast<std::align_val_t>(item.alignment));
@@ -433,12 +443,13 @@ namespace chdr {
 #endif
         heterogeneous_pool(heterogeneous_pool&& _other) noexcept :
             m_stack_block        (                            ),
-            m_stack_write        (_other.m_stack_write        ),
+            m_stack_write        (0U                          ),
             m_initial_block_width(_other.m_initial_block_width),
             m_block_width        (_other.m_block_width        ),
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            discard_free_within(_other.m_stack_block);
             _other.release();
         }
 
@@ -451,12 +462,14 @@ namespace chdr {
 
                 cleanup();
 
-                m_stack_write         = _other.m_stack_write;
+                m_stack_write         = 0U;
                 m_initial_block_width = _other.m_initial_block_width;
                 m_block_width         = _other.m_block_width;
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                discard_free_within(_other.m_stack_block);
+
                 _other.release();
             }
             return *this;
-- 
2.43.0


From fdbd16a451baa23f1d88556f6ba67069a21039bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 28/43] fix: monotonic_pool aligns by address and stays within
 its stack block

---
 include/types/pmr/monotonic_pool.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 5bc8286..fa014dd 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -207,12 +207,12 @@ namespace chdr {
                 // Attempt to allocate from the stack block:
                 if (m_stack_write < StackSize) {
 
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize &&
-                        m_stack_write + aligned_bytes <= s_stack_block_size
-                    ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    const size_t padding   = (_alignment - (reinterpret_cast<uintptr_t>(m_stack_block + m_stack_write) & (_alignment - 1U))) & (_alignment - 1U);
+                    const size_t available = s_stack_block_size - m_stack_write;
+
+                    if (_bytes < MaxStackAllocationSize && available >= padding && available - padding >= _bytes) {
+                        aligned_ptr    = m_stack_block + (m_stack_write + padding);
+                        m_stack_write += padding + _bytes;
                     }
                 }
 
-- 
2.43.0


From 684d31eeacd44537f8bddef1f9ee1c8db368fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 29/43] fix: monotonic_pool drops only the block that failed

---
 include/types/pmr/monotonic_pool.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index fa014dd..a2c9e35 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -141,9 +141,13 @@ namespace chdr {
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
-                    result = nullptr;
 
-                    m_blocks.pop_back();
+                    // The block may not have been recorded yet:
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
+                    result = nullptr;
                 }
             }
 
-- 
2.43.0


From 1bdde2dc2ab379481fc06c5e60c9c8670aad4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 30/43] fix: monotonic_pool throws bad_alloc before it touches
 a block it does not have

---
 include/types/pmr/monotonic_pool.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index a2c9e35..94c13ae 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -242,16 +242,16 @@ namespace chdr {
                         aligned_ptr = expand(_bytes, _alignment);
                     }
 
+                    // ReSharper disable once CppDFAConstantConditions
+                    if (UNLIKELY(aligned_ptr == nullptr)) {
+                        // ReSharper disable once CppDFAUnreachableCode
+                        throw std::bad_alloc();
+                    }
+
                     // Update write position.
                     m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
                 }
 
-                // ReSharper disable once CppDFAConstantConditions
-                if (UNLIKELY(aligned_ptr == nullptr)) {
-                    // ReSharper disable once CppDFAUnreachableCode
-                    throw std::bad_alloc();
-                }
-
                 PREFETCH(aligned_ptr, 1, 1);
 
 #if CHDR_DIAGNOSTICS == 1
-- 
2.43.0


From 43c19dc4bb4134689ac964e2d42833be7a6ac027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 31/43] fix: homogeneous_pool aligns by address and stays
 within its stack block

---
 include/types/pmr/homogeneous_pool.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bbe3c76..139fedd 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <functional>
 #include <limits>
 #include <new>
 #include <utility>
@@ -226,11 +227,12 @@ namespace chdr {
                 // Attempt to allocate from the stack block:
                 if (m_stack_write < StackSize) {
 
-                    if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size
-                    ) {
-                        aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
-                        m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
+                    const size_t padding   = (_alignment - (reinterpret_cast<uintptr_t>(m_stack_block + m_stack_write) & (_alignment - 1U))) & (_alignment - 1U);
+                    const size_t available = s_stack_block_size - m_stack_write;
+
+                    if (_bytes < MaxStackAllocationSize && available >= padding && available - padding >= _bytes) {
+                        aligned_ptr    = m_stack_block + (m_stack_write + padding);
+                        m_stack_write += padding + _bytes;
                     }
                 }
 
-- 
2.43.0


From fadb49d54639b06474a376145de0ccc35cbc2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 32/43] fix: homogeneous_pool drops only the block that failed,
 and frees its blocks when a reset cannot record them

---
 include/types/pmr/homogeneous_pool.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 139fedd..89503bf 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -150,9 +150,13 @@ namespace chdr {
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
-                    result = nullptr;
 
-                    m_blocks.pop_back();
+                    // The block may not have been recorded yet:
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
+                    result = nullptr;
                 }
             }
 
@@ -465,6 +469,7 @@ namespace chdr {
                 }
             }
             catch (...) {
+                 cleanup();
                 m_blocks.clear();
                   m_free.clear();
             }
-- 
2.43.0


From dff2a7e22634ebcb0c93cf68d8225cc31f15dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 33/43] fix: homogeneous_pool::reset keeps the chunks it cuts
 aligned

---
 include/types/pmr/homogeneous_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 89503bf..e01d1da 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -457,14 +457,15 @@ namespace chdr {
                 for (auto& [size, data] : m_blocks) {
 
                     // Divide the block into chunks; all chunks are guaranteed aligned.
-                    const auto chunk_size = size / m_block_width;
+                    const auto chunk_width = (m_block_width + m_alignment - 1U) & ~(m_alignment - 1U);
+                    const auto chunk_size  = size / chunk_width;
 
                     const auto current_size = m_free.size();
                     m_free.resize(current_size + chunk_size);
 
                     IVDEP
                     for (size_t j = 0U; j < chunk_size; ++j) {
-                        m_free[j + current_size] = data + j * m_block_width;
+                        m_free[j + current_size] = data + j * chunk_width;
                     }
                 }
             }
-- 
2.43.0


From 8bcf3643d5a89183f66443cfce45d55f92458c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 34/43] fix: a moved homogeneous_pool hands out no memory of
 the stack block it left behind

---
 include/types/pmr/homogeneous_pool.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index e01d1da..33c702b 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -181,6 +181,16 @@ namespace chdr {
             }
         }
 
+        // The stack block of another pool stays behind when its contents are moved.
+        void discard_free_within(const uint8_t* _stack_block) noexcept {
+            m_free.erase(
+                std::remove_if(m_free.begin(), m_free.end(), [_stack_block](const uint8_t* _p) {
+                    return !std::less<const uint8_t*>()(_p, _stack_block) && std::less<const uint8_t*>()(_p, _stack_block + s_stack_block_size);
+                }),
+                m_free.end()
+            );
+        }
+
     protected:
 
         /**
@@ -391,12 +401,14 @@ namespace chdr {
         homogeneous_pool(homogeneous_pool&& _other) noexcept :
             m_stack_block        (                            ),
             m_alignment          (_other.m_alignment          ),
-            m_stack_write        (_other.m_stack_write        ),
+            m_stack_write        (0U                          ),
             m_initial_block_width(_other.m_initial_block_width),
             m_block_width        (_other.m_block_width        ),
             m_blocks             (std::move(_other.m_blocks)  ),
             m_free               (std::move(_other.m_free  )  )
         {
+            discard_free_within(_other.m_stack_block);
+
             _other.m_stack_write = 0U;
             _other.m_blocks.clear();
             _other.m_free.clear();
@@ -412,12 +424,14 @@ namespace chdr {
                 cleanup();
 
                 m_alignment           = _other.m_alignment;
-                m_stack_write         = _other.m_stack_write;
+                m_stack_write         = 0U;
                 m_initial_block_width = _other.m_initial_block_width;
                 m_block_width         = _other.m_block_width;
                 m_blocks              = std::move(_other.m_blocks);
                 m_free                = std::move(_other.m_free  );
 
+                discard_free_within(_other.m_stack_block);
+
                 _other.m_stack_write = 0U;
                 _other.m_blocks.clear();
                 _other.m_free.clear();
-- 
2.43.0


From 5cd0cb0eba85445f66496c8f2770ffd464cbff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 35/43] fix: homogeneous_pool::deallocate does not throw out of
 the destructors that call it

---
 include/types/pmr/homogeneous_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 33c702b..da9c931 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -317,7 +317,10 @@ namespace chdr {
             }
             else {
 
-                m_free.push_back(static_cast<uint8_t*>(_p));
+                try {
+                    m_free.push_back(static_cast<uint8_t*>(_p));
+                }
+                catch (...) {} // NOLINT(*-empty-catch) The memory becomes available again upon reset.
 
 #if CHDR_DIAGNOSTICS == 1
 
-- 
2.43.0


From 1f4f1790e8d45c63bc3e2805b6e4a680cfa54c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 36/43] fix: refuse endpoints outside the grid whose flattened
 index aliases a cell inside it

---
 include/solvers/base/solver.hpp | 22 ++++++++++++++++++++++
 include/solvers/flood.hpp       |  1 +
 2 files changed, 23 insertions(+)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index a6293b6..48e8055 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -379,6 +379,27 @@ namespace chdr::solvers {
                 }
             }
 
+            /**
+             * @brief Determines whether a coordinate lies within the bounds of the maze.
+             *
+             * @details A coordinate outside a grid may share its flattened index with a cell that lies within it.
+             *          A graph has no bounds other than those of its indices.
+             *
+             * @param [in] _coord The coordinate to test.
+             * @param [in] _params An object containing parameters for the maze-solving process.
+             *
+             * @return true, if the coordinate may be converted to the index of a node in the maze. Otherwise, false.
+             */
+            [[nodiscard]] static constexpr bool in_bounds([[maybe_unused]] const typename params_t::coord_type& _coord, [[maybe_unused]] const params_t& _params) {
+
+                if constexpr (is_graph_v<decltype(_params.maze)>) {
+                    return true;
+                }
+                else {
+                    return _params.maze.contains(_coord);
+                }
+            }
+
             /**
              * @brief Preallocates resources and inserts a value into the specified collection.
              *
@@ -896,6 +917,7 @@ namespace chdr::solvers {
 
                 if (_params.maze.contains(s) && _params.maze[s].is_active() &&
                     _params.maze.contains(e) && _params.maze[e].is_active()
+                    && solver_utils::in_bounds(_params.start, _params) && solver_utils::in_bounds(_params.end, _params)
                 ) {
                     result = s != e ?
                         solver_t<params_t>::invoke(_params) :
diff --git a/include/solvers/flood.hpp b/include/solvers/flood.hpp
index 79813f9..3c72273 100644
--- a/include/solvers/flood.hpp
+++ b/include/solvers/flood.hpp
@@ -118,6 +118,7 @@ namespace chdr::solvers {
 
             if (_params.maze.contains(s) && _params.maze[s].is_active() &&
                 _params.maze.contains(e) && _params.maze[e].is_active()
+                && solver_t::solver_utils::in_bounds(_params.start, _params) && solver_t::solver_utils::in_bounds(_params.end, _params)
             ) {
 
                 bool success { s == e };
-- 
2.43.0


From a4ad1aa89e6ca2aef9b0ecec4adc617b1fd8e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 37/43] fix: SMA*/OSMA* only forget leaves, never a node that
 others refer to as their parent

---
 include/solvers/osmastar.hpp | 34 ++++++++++++++++++++++++++++------
 include/solvers/smastar.hpp  | 34 ++++++++++++++++++++++++++++------
 2 files changed, 56 insertions(+), 12 deletions(-)

diff --git a/include/solvers/osmastar.hpp b/include/solvers/osmastar.hpp
index d61b899..f25a1c8 100644
--- a/include/solvers/osmastar.hpp
+++ b/include/solvers/osmastar.hpp
@@ -127,14 +127,36 @@ namespace chdr::solvers {
             }
         };
 
+        template <typename all_nodes_t>
+        [[nodiscard]] HOT static bool has_successors(const node& _node, const all_nodes_t& _all_nodes, const params_t& _params) noexcept {
+
+            for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(_node.m_index)) {
+
+                if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
+
+                    if (auto child_it = _all_nodes.find(n.index); child_it != _all_nodes.end() && child_it->second.m_parent == _node.m_index) {
+                        return true;
+                    }
+                }
+            }
+
+            return false;
+        }
+
         template<typename open_set_t, typename all_nodes_t>
-        HOT static void remove_worst(open_set_t& _open, all_nodes_t& _all_nodes, const params_t& _params) noexcept {
+        HOT static void remove_worst(open_set_t& _open, all_nodes_t& _all_nodes, const node& _curr, const params_t& _params) noexcept {
             assert(!_open.empty() && "_open cannot be empty.");
 
-            auto worst_node = std::prev(_open.end());
-            backup_f_values(*worst_node, _all_nodes, _params);
-            _all_nodes.erase(worst_node->m_index);
-                 _open.erase(worst_node);
+            // Only leaves may be removed: a node that is the parent of another is needed to reconstruct the path.
+            for (auto worst_node = _open.end(); worst_node != _open.begin();) {
+
+                if (--worst_node; worst_node->m_index != _curr.m_index && !has_successors(*worst_node, _all_nodes, _params)) {
+                    backup_f_values(*worst_node, _all_nodes, _params);
+                    _all_nodes.erase(worst_node->m_index);
+                         _open.erase(worst_node);
+                    break;
+                }
+            }
         }
 
         template <typename all_nodes_t>
@@ -283,7 +305,7 @@ namespace chdr::solvers {
 
                                     // Attempt to clear space for a new node:
                                     if (!_open.empty() && memory_usage() >= _params.memory_limit - 1U) {
-                                        remove_worst(_open, all_nodes, _params);
+                                        remove_worst(_open, all_nodes, curr, _params);
                                     }
 
                                     // Only instantiate if there is room in memory. Otherwise, break.
diff --git a/include/solvers/smastar.hpp b/include/solvers/smastar.hpp
index 8bffa96..c2bfb55 100644
--- a/include/solvers/smastar.hpp
+++ b/include/solvers/smastar.hpp
@@ -130,14 +130,36 @@ namespace chdr::solvers {
             }
         };
 
+        template <typename all_nodes_t>
+        [[nodiscard]] HOT static bool has_successors(const node& _node, const all_nodes_t& _all_nodes, const params_t& _params) noexcept {
+
+            for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(_node.m_index)) {
+
+                if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
+
+                    if (auto child_it = _all_nodes.find(n.index); child_it != _all_nodes.end() && child_it->second.m_parent == _node.m_index) {
+                        return true;
+                    }
+                }
+            }
+
+            return false;
+        }
+
         template<typename open_set_t, typename all_nodes_t>
-        HOT static void remove_worst(open_set_t& _open, all_nodes_t& _all_nodes, const params_t& _params) noexcept {
+        HOT static void remove_worst(open_set_t& _open, all_nodes_t& _all_nodes, const node& _curr, const params_t& _params) noexcept {
             assert(!_open.empty() && "_open cannot be empty.");
 
-            auto worst_node = std::prev(_open.end());
-            backup_f_values(*worst_node, _all_nodes, _params);
-            _all_nodes.erase(worst_node->m_index);
-                 _open.erase(worst_node);
+            // Only leaves may be removed: a node that is the parent of another is needed to reconstruct the path.
+            for (auto worst_node = _open.end(); worst_node != _open.begin();) {
+
+                if (--worst_node; worst_node->m_index != _curr.m_index && !has_successors(*worst_node, _all_nodes, _params)) {
+                    backup_f_values(*worst_node, _all_nodes, _params);
+                    _all_nodes.erase(worst_node->m_index);
+                         _open.erase(worst_node);
+                    break;
+                }
+            }
         }
 
         template <typename all_nodes_t>
@@ -284,7 +306,7 @@ namespace chdr::solvers {
 
                                     // Attempt to clear space for a new node:
                                     if (!_open.empty() && memory_usage() >= _params.memory_limit - 1U) {
-                                        remove_worst(_open, all_nodes, _params);
+                                        remove_worst(_open, all_nodes, curr, _params);
                                     }
 
                                     // Only instantiate if there is room in memory. Otherwise, break.
-- 
2.43.0


From 1205452d0ab601ade2b385cd4c588e2d4f6b8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 38/43] fix: the graph's constructor from a grid cannot be
 constexpr, as it starts threads

---
 include/mazes/graph.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 62daf11..beb8461 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -139,9 +139,6 @@ namespace chdr::mazes {
          */
         template <typename coord_t, typename weight_t, const bool Prune = true, const bool ConsolidateAfterPrune = true>
         [[maybe_unused]]
-#if defined(__cpp_constexpr_dynamic_alloc) && (__cpp_constexpr_dynamic_alloc >= 201907L)
-        constexpr
-#endif // defined(__cpp_constexpr_dynamic_alloc) && (__cpp_constexpr_dynamic_alloc >= 201907L)
         explicit graph(const grid<coord_t, weight_t>& _grid, std::pmr::memory_resource* _resource = std::pmr::get_default_resource()) : m_entries(_resource) {
 
             const auto size = _grid.size();
-- 
2.43.0


From c18633f8ed0bbf9dd652d0fbc5e3288c10c47bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 39/43] fix: adding the largest possible key to an existence
 set no longer writes ahead of its storage

---
 include/types/containers/existence_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/types/containers/existence_set.hpp b/include/types/containers/existence_set.hpp
index 447f95b..5abdc94 100644
--- a/include/types/containers/existence_set.hpp
+++ b/include/types/containers/existence_set.hpp
@@ -110,7 +110,7 @@ namespace chdr {
         constexpr void enable(size_t _hash) {
 
             if (_hash >= c.size()) {
-                resize(_hash + 1U);
+                resize(utils::min(_hash, std::numeric_limits<size_t>::max() - 1U) + 1U);
             }
 
             /*
-- 
2.43.0


From 13291b4770d91504644de678eb665e3b6931502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 40/43] fix: erasing from a heap through an iterator no longer
 truncates the position to 32 bits

---
 include/types/containers/heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 0a6a067..86669bc 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -844,7 +844,7 @@ namespace chdr {
          */
         constexpr iterator_t erase(iterator_t _position) {
 
-            const auto distance_from_start = static_cast<unsigned>(std::distance(c.begin(), _position));
+            const auto distance_from_start = static_cast<size_t>(std::distance(c.begin(), _position));
 
             if (distance_from_start < size() + 1U) { // Offset for super element.
 
-- 
2.43.0


From 7987b61665d9b52db9b10fa365ee57cfc3ccc3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:27 +0000
Subject: [PATCH 41/43] fix: the ranges of cells handed to the graph's threads
 no longer wrap around in narrow index types

---
 include/mazes/graph.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index beb8461..a77c739 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -166,7 +166,7 @@ namespace chdr::mazes {
                 // TODO: Add support for directed graphs.
                 std::mutex mtx;
 
-                const auto worker = [&](index_t _start, index_t _end) ALWAYS_INLINE {
+                const auto worker = [&](size_t _start, size_t _end) ALWAYS_INLINE {
 
                     std::pmr::unsynchronized_pool_resource pool;
                     stack<edge_t> stack(&pool);
@@ -176,7 +176,9 @@ namespace chdr::mazes {
 
                     std::pmr::unordered_map<index_t, neighbours_t> thread_connections(&pool);
 
-                    for (auto index = _start; index < _end; ++index) {
+                    for (auto cell = _start; cell < _end; ++cell) {
+
+                        const auto index = static_cast<index_t>(cell);
 
                         if (const auto& element = _grid[index]; element.is_active()) {
 
@@ -243,15 +245,16 @@ namespace chdr::mazes {
                 const size_t count      = _grid.count();
                 const size_t numThreads = utils::clamp(std::thread::hardware_concurrency(), 1U, 6U);
 
-                const auto chunkSize = static_cast<index_t>((count + numThreads - 1U) / numThreads);
+                const size_t chunkSize = (count + numThreads - 1U) / numThreads;
 
                 std::array<std::future<void>, 6U> futures;
 
                 for (size_t i = 0U; i < numThreads; ++i) {
                     assert(i < numThreads && "Error: Index 'i' exceeds the number of initialised threads.");
 
-                    const index_t start = static_cast<index_t>(i) * chunkSize;
-                    const index_t end   = utils::min(start + chunkSize, static_cast<index_t>(count));
+                    // The number of cells may be one more than the largest index.
+                    const size_t start = i * chunkSize;
+                    const size_t end   = utils::min(start + chunkSize, count);
 
                     futures[i] = std::async(std::launch::async, worker, start, end);
                 }
-- 
2.43.0


From 3bb65e2cebc3c3f604ecb26ce834aeac351ccd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 42/43] fix: keep every block of a homogeneous pool usable
 after a reset

A block smaller than the initial width rounded up to the alignment was divided
into no chunks, so it was never used again and each solve obtained another.
---
 include/types/pmr/homogeneous_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index da9c931..4662a5a 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -475,7 +475,7 @@ namespace chdr {
 
                     // Divide the block into chunks; all chunks are guaranteed aligned.
                     const auto chunk_width = (m_block_width + m_alignment - 1U) & ~(m_alignment - 1U);
-                    const auto chunk_size  = size / chunk_width;
+                    const auto chunk_size  = utils::max(size / chunk_width, static_cast<size_t>(1U));
 
                     const auto current_size = m_free.size();
                     m_free.resize(current_size + chunk_size);
-- 
2.43.0


From af4bb0ab39169b8d87eb98ff585ea3233f0f5fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 43/43] fix: count every successor of a pooled node, not only
 255 of them

---
 include/solvers/base/managed_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/managed_node.hpp b/include/solvers/base/managed_node.hpp
index a1ccda5..0f356cb 100644
--- a/include/solvers/base/managed_node.hpp
+++ b/include/solvers/base/managed_node.hpp
@@ -48,7 +48,7 @@ namespace chdr::solvers {
     private:
 
         using  node_t = std::conditional_t<std::is_void_v<derived>, managed_node<index_t>, derived>;
-        using count_t = uint8_t;
+        using count_t = index_t; // A node may have any other node as a successor.
 
     public:
 
-- 
2.43.0

