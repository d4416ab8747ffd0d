From b4ed7370304a2fe71ee3c9163413eb8f7377018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 01/23] fix: joined dimensions can be queried and traversed

The joined dimension had no length (unless it reused the name of one of the
originals) and the signature still listed one of the two original dimensions,
so a joined structure could not be traversed.
---
 include/noarr/structures/structs/views.hpp | 23 +++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index eaf336f..a44c2dd 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -600,7 +600,8 @@ private:
 
 public:
 	using signature = function_sig<Dim, typename dim_a::arg_length,
-	                               typename T::signature::template replace<sig_remove_first, DimA, DimB>>;
+	                               typename T::signature::template replace<sig_remove_first, DimA>::template replace<
+									   sig_remove_first, DimB>>;
 
 	template<IsState State>
 	[[nodiscard]]
@@ -660,14 +661,30 @@ public:
 	requires IsDim<decltype(QDim)>
 	[[nodiscard]]
 	static consteval bool has_length() noexcept {
-		return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		if constexpr (QDim == Dim) {
+			if constexpr (state_contains<State, index_in<Dim>>) {
+				return false;
+			} else {
+				return sub_structure_t::template has_length<DimA, sub_state_t<State>>() &&
+				       sub_structure_t::template has_length<DimB, sub_state_t<State>>();
+			}
+		} else if constexpr (QDim == DimA || QDim == DimB) {
+			// This dimension is consumed by join
+			return false;
+		} else {
+			return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		}
 	}
 
 	template<auto QDim, IsState State>
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(sub_state(state));
+		if constexpr (QDim == Dim) {
+			return sub_structure().template length<DimA>(sub_state(state));
+		} else {
+			return sub_structure().template length<QDim>(sub_state(state));
+		}
 	}
 };
 
-- 
2.43.0


From a8ee6263f6c619123de25753c9d602c9cb53bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:43 +0000
Subject: [PATCH 02/23] fix: z-curve index mask is computed in the width of the
 index

The mask of the bits handled by the power-of-two part was computed as a 32-bit
unsigned shift, which is undefined once (log2 alignment) * (number of
dimensions) reaches 32, e.g. for two dimensions aligned to 65536.
---
 include/noarr/structures/structs/zcurve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index 969296f..fab0014 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -195,7 +195,7 @@ private:
 			if constexpr (state_contains<State, index_in<Dim>>) {
 				const std::size_t index = state.template get<index_in<Dim>>();
 				const auto index_general = index >> SpecialLevel * sizeof...(Dims);
-				const auto index_special = index & ((1U << SpecialLevel * sizeof...(Dims)) - 1U);
+				const auto index_special = index & ((static_cast<std::size_t>(1U) << SpecialLevel * sizeof...(Dims)) - 1U);
 				const auto indices = helpers::zc_general<GeneralLevel - SpecialLevel>(
 					index_general, (sub_structure.template length<Dims>(tmp_state) >> SpecialLevel)...);
 				return tmp_state.template with<index_in<Dims>...>(
-- 
2.43.0


From 6d42c678eda8fb2e1d5f325237d9c957171fc578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 03/23] fix: tuples of differently aligned structures can be
 nested in a tuple

The alignment of a tuple was computed by std::max over integral constants of
different types, so any tuple whose elements differ in alignment failed to
build as soon as its alignment was needed.
---
 include/noarr/structures/base/utility.hpp    | 7 +++++++
 include/noarr/structures/structs/layouts.hpp | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/base/utility.hpp b/include/noarr/structures/base/utility.hpp
index e66fcfb..0d71b9f 100644
--- a/include/noarr/structures/base/utility.hpp
+++ b/include/noarr/structures/base/utility.hpp
@@ -548,6 +548,13 @@ constexpr make_const<0> operator%(make_const<0> /*lhs*/, T /*rhs*/) noexcept {
 	return {};
 }
 
+template<std::size_t A, std::size_t B>
+constexpr make_const<(A < B ? B : A)> larger_of(make_const<A> /*lhs*/, make_const<B> /*rhs*/) noexcept {
+	return {};
+}
+
+constexpr std::size_t larger_of(std::size_t lhs, std::size_t rhs) noexcept { return lhs < rhs ? rhs : lhs; }
+
 } // namespace constexpr_arithmetic
 
 } // namespace noarr
diff --git a/include/noarr/structures/structs/layouts.hpp b/include/noarr/structures/structs/layouts.hpp
index 4dc6a86..eb0f01e 100644
--- a/include/noarr/structures/structs/layouts.hpp
+++ b/include/noarr/structures/structs/layouts.hpp
@@ -188,7 +188,8 @@ private:
 	template<IsState State, std::size_t I, std::size_t... IS>
 	[[nodiscard]]
 	constexpr auto align_inner(std::index_sequence<I, IS...> /*is*/, State sub_state) const noexcept {
-		return std::max(sub_structure<I>().align(sub_state), align_inner(std::index_sequence<IS...>(), sub_state));
+		using namespace constexpr_arithmetic;
+		return larger_of(sub_structure<I>().align(sub_state), align_inner(std::index_sequence<IS...>(), sub_state));
 	}
 };
 
-- 
2.43.0


From 49bd3e40f19cf0b8a8221c9886ee318079d25b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 04/23] fix: striped structures can be tuple elements

A misplaced parenthesis made the alignment of a striped structure fail to build.
---
 include/noarr/structures/interop/cuda_striped.cuh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/cuda_striped.cuh b/include/noarr/structures/interop/cuda_striped.cuh
index 7af3f9f..2fae4c9 100644
--- a/include/noarr/structures/interop/cuda_striped.cuh
+++ b/include/noarr/structures/interop/cuda_striped.cuh
@@ -139,7 +139,7 @@ public:
 	[[nodiscard]]
 	constexpr auto align(State state) const noexcept {
 		using namespace constexpr_arithmetic;
-		return std::max(sub_structure().align(sub_state(state), make_const<BankWidth>()));
+		return larger_of(sub_structure().align(sub_state(state)), make_const<BankWidth>());
 	}
 
 	template<class Sub, IsState State>
-- 
2.43.0


From 3c5968c482eb86c4a9b1897a5a95c13214a507f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:50 +0000
Subject: [PATCH 05/23] fix: general z-curve stays in bounds for any declared
 maximum length

---
 include/noarr/structures/structs/zcurve.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index fab0014..8ae63b6 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -78,7 +78,9 @@ constexpr std::tuple<SizeTs...> zc_general(std::size_t z, SizeTs... sizes) noexc
 				}
 			});
 			const std::size_t half_volume = facet << level::v;
-			if (z >= half_volume) {
+			// the upper half is empty unless the rest of this dimension exceeds the lower half
+			// (and in that case `half_volume` cannot overflow)
+			if (std::get<i::v>(size) - std::get<i::v>(result) > small_tile_size::v && z >= half_volume) {
 				z -= half_volume;
 				std::get<i::v>(result) += small_tile_size::v;
 			}
-- 
2.43.0


From 176b0b312bb3ebda068ca5b1181fdf1688d33525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:54 +0000
Subject: [PATCH 06/23] fix: reverse translates the index when another
 dimension's length depends on it

---
 include/noarr/structures/structs/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index 4a62f74..fb6120b 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -791,7 +791,7 @@ public:
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(state);
+		return sub_structure().template length<QDim>(sub_state(state));
 	}
 };
 
-- 
2.43.0


From b813fc67de373b6a49aeb37eacce9019079e2a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:12 +0000
Subject: [PATCH 07/23] fix: adding and subtracting states respects static item
 values

---
 include/noarr/structures/base/state.hpp | 59 +++++++++++++++++--------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/include/noarr/structures/base/state.hpp b/include/noarr/structures/base/state.hpp
index 335f858..0cca805 100644
--- a/include/noarr/structures/base/state.hpp
+++ b/include/noarr/structures/base/state.hpp
@@ -342,17 +342,42 @@ constexpr state<StateItems...> operator+(state<StateItems...> state_a) noexcept
 	return state_a;
 }
 
-template<class... StateItems>
-constexpr state<StateItems...> operator-([[maybe_unused]] state<StateItems...> state_a) noexcept {
+namespace helpers {
+
+// creates a state with the tags of the given items and with the given values (which may be static)
+template<class... StateItems, class... ValueTypes>
+constexpr auto state_with_values(state_items_pack<StateItems...> /*items*/, ValueTypes... values) noexcept {
+	return state<state_item<typename StateItems::tag, ValueTypes>...>(values...);
+}
+
+template<class... StateItems, class StateA, class StateB>
+constexpr auto state_add(state_items_pack<StateItems...> items, [[maybe_unused]] StateA state_a,
+                         [[maybe_unused]] StateB state_b) noexcept {
+	using namespace noarr::constexpr_arithmetic;
+	return state_with_values(items, (state_a.template get<typename StateItems::tag>() +
+	                                 state_b.template get<typename StateItems::tag>())...);
+}
+
+template<class... StateItems, class StateA, class StateB>
+constexpr auto state_subtract(state_items_pack<StateItems...> items, [[maybe_unused]] StateA state_a,
+                              [[maybe_unused]] StateB state_b) noexcept {
 	using namespace noarr::constexpr_arithmetic;
-	return state<StateItems...>(-state_a.template get<typename StateItems::tag>()...);
+	return state_with_values(items, (state_a.template get<typename StateItems::tag>() -
+	                                 state_b.template get<typename StateItems::tag>())...);
 }
 
+} // namespace helpers
+
 template<class... StateItems>
-constexpr state<StateItems...> operator+(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
+constexpr auto operator-([[maybe_unused]] state<StateItems...> state_a) noexcept {
 	using namespace noarr::constexpr_arithmetic;
-	return state<StateItems...>(
-		(state_a.template get<typename StateItems::tag>() + state_b.template get<typename StateItems::tag>())...);
+	return helpers::state_with_values(helpers::state_items_pack<StateItems...>(),
+	                                  (make_const<0>() - state_a.template get<typename StateItems::tag>())...);
+}
+
+template<class... StateItems>
+constexpr auto operator+(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
+	return helpers::state_add(helpers::state_items_pack<StateItems...>(), state_a, state_b);
 }
 
 template<class... StateItems>
@@ -379,20 +404,17 @@ constexpr auto operator+(state<StateItemsA...> state_a, state<StateItemsB...> st
 	return [=]<class... StateItems>(state<StateItems...> base) constexpr noexcept {
 		// items that are in both states
 		const auto added =
-			state_a.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result()) +
-			state_b.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result());
+			helpers::state_add(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
+		                                                            typename StateItems::tag...>::result(),
+		                       state_a, state_b);
 
 		return added & base;
 	}(base);
 }
 
 template<class... StateItems>
-constexpr state<StateItems...> operator-(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
-	using namespace noarr::constexpr_arithmetic;
-	return state<StateItems...>(state_a.template get<typename StateItems::tag>() -
-	                            state_b.template get<typename StateItems::tag>()...);
+constexpr auto operator-(state<StateItems...> state_a, state<StateItems...> state_b) noexcept {
+	return helpers::state_subtract(helpers::state_items_pack<StateItems...>(), state_a, state_b);
 }
 
 template<class... StateItems>
@@ -401,7 +423,7 @@ constexpr state<StateItems...> operator-(state<StateItems...> state_a, state<> /
 }
 
 template<class... StateItems>
-constexpr state<StateItems...> operator-(state<> /*state_a*/, state<StateItems...> state_b) noexcept {
+constexpr auto operator-(state<> /*state_a*/, state<StateItems...> state_b) noexcept {
 	return -state_b;
 }
 
@@ -417,10 +439,9 @@ constexpr auto operator-(state<StateItemsA...> state_a, state<StateItemsB...> st
 
 	return [=]<class... StateItems>(state<StateItems...> base) constexpr noexcept {
 		const auto added =
-			state_a.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result()) -
-			state_b.items_restrict(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
-		                                                                typename StateItems::tag...>::result());
+			helpers::state_subtract(typename helpers::state_remove_items<helpers::state_items_pack<StateItemsA...>,
+		                                                                 typename StateItems::tag...>::result(),
+		                            state_a, state_b);
 
 		return added & base;
 	}(base);
-- 
2.43.0


From 9ad8d0fb7ab7d10037ca2780633f8ae2afcc7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:33 +0000
Subject: [PATCH 08/23] fix: planners can iterate over tuple dimensions

The recursion over the branches of a tuple-like dimension had no bottom case, so
executing a planner over any structure with a tuple did not compile.
---
 include/noarr/structures/extra/planner.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 5c2a1e2..8f58268 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -397,6 +397,11 @@ private:
 		for_each_impl_dep<Dim, Branches...>(state, std::index_sequence<Is...>());
 	}
 
+	// the bottom case
+	template<auto Dim>
+	requires IsDim<decltype(Dim)>
+	constexpr void for_each_impl_dep(auto /*state*/, std::index_sequence<> /*is*/) const {}
+
 	template<auto Dim, class... Branches, IsState State>
 	constexpr void for_each_impl(dim_tree<Dim, Branches...> /*dt*/, State state) const {
 		if constexpr (helpers::is_activated_v<decltype(get_ending().order(
-- 
2.43.0


From 4cd682ebafe8fad9fdabfe89cf35b9cfbcb907b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:31 +0000
Subject: [PATCH 09/23] fix: planners can be executed by TBB

A planner range lacked the splitting constructor that tbb::parallel_for requires,
so planner_tbb_execute() did not compile for any planner.
---
 include/noarr/structures/interop/planner_iter.hpp |  4 ++++
 include/noarr/structures/interop/tbb.hpp          | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/noarr/structures/interop/planner_iter.hpp b/include/noarr/structures/interop/planner_iter.hpp
index b6ad63e..ae19e6b 100644
--- a/include/noarr/structures/interop/planner_iter.hpp
+++ b/include/noarr/structures/interop/planner_iter.hpp
@@ -190,6 +190,10 @@ struct planner_range_t<Dim, union_t<Structs...>, Order, Ending> : flexible_conta
 	constexpr planner_range_t(const planner_t<union_t<Structs...>, Order, Ending> &planner, std::size_t length)
 		: base(static_cast<const base &>(planner)), begin_idx(0), end_idx(length) {}
 
+	// TBB splitting constructor
+	template<class Split>
+	constexpr planner_range_t(planner_range_t &, Split) noexcept; // defined in tbb.hpp
+
 	template<class NewOrder>
 	[[nodiscard("Returns a new planner")]]
 	constexpr auto order(NewOrder new_order) const noexcept {
diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index e0ed07e..f0fd295 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -27,6 +27,16 @@ constexpr traverser_range_t<Dim, Struct, Order>::traverser_range_t(traverser_ran
 	orig.end_idx = begin_idx;
 }
 
+// declared in planner_iter.hpp
+template<IsDim auto Dim, class... Structs, class Order, class Ending>
+template<class Split>
+constexpr planner_range_t<Dim, union_t<Structs...>, Order, Ending>::planner_range_t(planner_range_t &orig,
+                                                                                    Split /*unused*/) noexcept
+	: base(orig), begin_idx(orig.begin_idx + (orig.end_idx - orig.begin_idx) / 2), end_idx(orig.end_idx) {
+	static_assert(std::is_same_v<Split, tbb::split>, "Invalid constructor call");
+	orig.end_idx = begin_idx;
+}
+
 template<IsTraverser Traverser, class F>
 inline void tbb_for_each(const Traverser &t, const F &f) {
 	tbb::parallel_for(t.range(), [&f](const auto &subrange) { subrange.for_each(f); });
-- 
2.43.0


From c6326342f13106add197ee32602a02aa95aab089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:37 +0000
Subject: [PATCH 10/23] fix: planners can be executed by std::execution

planner_std_execute() used begin()/end() members that planners do not have.
---
 include/noarr/structures/interop/std_para.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/std_para.hpp b/include/noarr/structures/interop/std_para.hpp
index 1da5d63..af3f15a 100644
--- a/include/noarr/structures/interop/std_para.hpp
+++ b/include/noarr/structures/interop/std_para.hpp
@@ -27,7 +27,7 @@ constexpr planner_std_execute_t planner_std_execute() noexcept { return {}; }
 
 template<IsPlanner Planner>
 inline void operator|(const Planner &planner, planner_std_execute_t /*unused*/) {
-	std::for_each(std::execution::par, planner.begin(), planner.end(),
+	std::for_each(std::execution::par, begin(planner), end(planner),
 	              [](const auto &inner_planner) { inner_planner.execute(); });
 }
 
-- 
2.43.0


From 49623a0ff18dd2f35d899fc8f11bda15f283c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:23 +0000
Subject: [PATCH 11/23] fix: tbb_for_sections works with tuples,
 planner_std_execute with capturing functions

---
 include/noarr/structures/interop/std_para.hpp | 7 +++++--
 include/noarr/structures/interop/tbb.hpp      | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/noarr/structures/interop/std_para.hpp b/include/noarr/structures/interop/std_para.hpp
index af3f15a..9effebd 100644
--- a/include/noarr/structures/interop/std_para.hpp
+++ b/include/noarr/structures/interop/std_para.hpp
@@ -27,8 +27,11 @@ constexpr planner_std_execute_t planner_std_execute() noexcept { return {}; }
 
 template<IsPlanner Planner>
 inline void operator|(const Planner &planner, planner_std_execute_t /*unused*/) {
-	std::for_each(std::execution::par, begin(planner), end(planner),
-	              [](const auto &inner_planner) { inner_planner.execute(); });
+	// the iterators of a planner are not assignable if its functions are not (e.g. capturing lambdas)
+	const auto t = traverser(planner.get_union()).order(planner.get_order());
+	std::for_each(std::execution::par, t.begin(), t.end(), [&planner](const auto &t_inner) {
+		make_planner(planner.get_union(), t_inner.get_order(), planner.get_ending()).execute();
+	});
 }
 
 } // namespace noarr
diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index f0fd295..165920d 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -45,8 +45,9 @@ inline void tbb_for_each(const Traverser &t, const F &f) {
 template<IsTraverser Traverser, class F>
 inline void tbb_for_sections(const Traverser &t, const F &f) {
 	tbb::parallel_for(t.range(), [&f](const auto &subrange) {
-		constexpr auto top_dim = helpers::traviter_top_dim<decltype(subrange.get_struct() ^ subrange.get_order())>;
-		subrange.as_traverser().template for_sections<top_dim>(f);
+		for (auto t_inner : subrange) {
+			f(t_inner);
+		}
 	});
 }
 
-- 
2.43.0


From f23edc4a7bee2673a869aaf28bdffdf9055a56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:57 +0000
Subject: [PATCH 12/23] fix: planners visit only the elements present in
 dynamic blocks

---
 include/noarr/structures/extra/planner.hpp | 25 ++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 8f58268..058f580 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -30,6 +30,11 @@ using is_activated = is_activated_impl<std::remove_cvref_t<Ending>>;
 template<class Ending>
 constexpr bool is_activated_v = is_activated<Ending>::value;
 
+// true for the endings called for each element (as opposed to sections); these have to wait until all dimensions are
+// iterated, including those that do not correspond to any index in the original structures
+template<class Ending>
+constexpr bool is_element_ending_v = false;
+
 } // namespace helpers
 
 template<class Sig, class F>
@@ -82,6 +87,9 @@ template<class Sig, class F>
 struct helpers::is_activated_impl<planner_ending_elem_t<Sig, F>>
 	: std::integral_constant<bool, planner_ending_elem_t<Sig, F>::activated> {};
 
+template<class Sig, class F>
+constexpr bool helpers::is_element_ending_v<planner_ending_elem_t<Sig, F>> = true;
+
 template<class Sig, class F>
 struct planner_ending_t : flexible_contain<F> {
 	using base = flexible_contain<F>;
@@ -121,6 +129,9 @@ template<class Sig, class F>
 struct helpers::is_activated_impl<planner_ending_t<Sig, F>>
 	: std::integral_constant<bool, planner_ending_t<Sig, F>::activated> {};
 
+template<class Sig, class F>
+constexpr bool helpers::is_element_ending_v<planner_ending_t<Sig, F>> = true;
+
 template<class... Endings>
 struct planner_endings;
 
@@ -184,6 +195,16 @@ struct planner_endings : flexible_contain<Endings...> {
 		return activated_index(std::index_sequence_for<Endings...>());
 	}
 
+	[[nodiscard]]
+	static constexpr bool activated_section() noexcept {
+		if constexpr (activated) {
+			return !helpers::is_element_ending_v<
+				std::remove_cvref_t<decltype(std::declval<planner_endings>().template get<activated_index()>())>>;
+		} else {
+			return false;
+		}
+	}
+
 	template<std::size_t... Is>
 	[[nodiscard]]
 	static constexpr std::size_t activated_index(std::index_sequence<Is...> /*is*/) noexcept
@@ -404,8 +425,8 @@ private:
 
 	template<auto Dim, class... Branches, IsState State>
 	constexpr void for_each_impl(dim_tree<Dim, Branches...> /*dt*/, State state) const {
-		if constexpr (helpers::is_activated_v<decltype(get_ending().order(
-						  fix(state_at<union_struct>(top_struct(), state))))>) {
+		if constexpr (decltype(get_ending().order(
+						  fix(state_at<union_struct>(top_struct(), state))))::activated_section()) {
 			get_ending()(order(fix(state)));
 		} else {
 			using dim_sig = sig_find_dim<Dim, State, typename decltype(top_struct())::signature>;
-- 
2.43.0


From daffbaf592e825694d99210c7a4a573d47b620de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:07 +0000
Subject: [PATCH 13/23] fix: offset_along is not available for a renamed
 dimension under its old name

---
 .../structures/introspection/offset_along.hpp      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/noarr/structures/introspection/offset_along.hpp b/include/noarr/structures/introspection/offset_along.hpp
index 5b7639e..031cb51 100644
--- a/include/noarr/structures/introspection/offset_along.hpp
+++ b/include/noarr/structures/introspection/offset_along.hpp
@@ -179,7 +179,11 @@ private:
 		helpers::rename_dim<QDim, typename Structure::external, typename Structure::internal>::dim;
 
 	static constexpr bool get_value() noexcept {
-		return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::value;
+		if constexpr (Structure::internal::template contains<QDim> && !Structure::external::template contains<QDim>) {
+			return false;
+		} else {
+			return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::value;
+		}
 	}
 
 public:
@@ -189,12 +193,8 @@ public:
 	static constexpr auto offset(Structure structure, State state) noexcept
 	requires value
 	{
-		if constexpr (Structure::internal::template contains<QDim> && !Structure::external::template contains<QDim>) {
-			return false;
-		} else {
-			return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::offset(structure.sub_structure(),
-			                                                                       structure.sub_state(state));
-		}
+		return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::offset(structure.sub_structure(),
+		                                                                       structure.sub_state(state));
 	}
 };
 
-- 
2.43.0


From 31cfc2a2ad0758268acefc1eb748a83b8501534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:05 +0000
Subject: [PATCH 14/23] fix: lower_bound_at of a shifted structure searches up
 to the end of the structure

---
 include/noarr/structures/introspection/lower_bound_along.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 21fd02e..6efdd4c 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -595,7 +595,7 @@ public:
 			const auto sub_state = structure.sub_state(state);
 			const auto start = structure.start();
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state) - start) -
+					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state)) -
 			       start;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
-- 
2.43.0


From 29bf54fa7b58782d3636dd22dd65934befa615c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:05 +0000
Subject: [PATCH 15/23] fix: lower_bound_along of a reversed structure passes
 on the whole range

---
 .../noarr/structures/introspection/lower_bound_along.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 6efdd4c..466c776 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -827,12 +827,11 @@ public:
 
 		if constexpr (QDim == Dim) {
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
-			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state,
-			                                                                             in_min, in_max);
+			                                                                             in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state, min,
 			                                                                              end);
@@ -867,10 +866,10 @@ public:
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
 			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return sub_last - has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-								  sub_structure, sub_state, in_min, in_max);
+								  sub_structure, sub_state, in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(sub_structure, sub_state,
 			                                                                                 min, end);
-- 
2.43.0


From 0df1a83168adaacd9aecd357b782be9397b3d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:31 +0000
Subject: [PATCH 16/23] fix: ranged lower_bound_along works below a tuple
 dimension

The requirement on a static range concerns the tuple dimension only.
---
 .../noarr/structures/introspection/lower_bound_along.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 466c776..35eab6c 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -179,12 +179,12 @@ public:
 	}
 
 	static constexpr auto lower_bound(Structure structure, State state, auto min, auto end) noexcept
-	requires value && requires {
+	requires value && (QDim != Dim || requires {
 		decltype(min)::value;
 		requires ((decltype(min)::value) < sizeof...(Ts));
 		decltype(end)::value;
 		requires ((decltype(min)::value) < decltype(end)::value);
-	}
+	})
 	{
 		if constexpr (state_contains<State, index_in<Dim>>) {
 			// QDim != Dim
@@ -220,12 +220,12 @@ public:
 	}
 
 	static constexpr auto lower_bound_at(Structure structure, State state, auto min, auto end) noexcept
-	requires value && requires {
+	requires value && (QDim != Dim || requires {
 		decltype(min)::value;
 		requires ((decltype(min)::value) < sizeof...(Ts));
 		decltype(end)::value;
 		requires ((decltype(min)::value) < decltype(end)::value);
-	}
+	})
 	{
 		if constexpr (state_contains<State, index_in<Dim>>) {
 			// QDim != Dim
-- 
2.43.0


From 946606a65edb992aab27674bfe2f8f0651ac1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:17 +0000
Subject: [PATCH 17/23] fix: serialization lets stream exceptions propagate

Streams configured to throw terminated the program because (de)serialize_data was noexcept.
---
 include/noarr/structures/interop/serialize_data.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/noarr/structures/interop/serialize_data.hpp b/include/noarr/structures/interop/serialize_data.hpp
index 794495f..771534f 100644
--- a/include/noarr/structures/interop/serialize_data.hpp
+++ b/include/noarr/structures/interop/serialize_data.hpp
@@ -7,25 +7,25 @@
 namespace noarr {
 
 template<class Istream, class Struct>
-constexpr decltype(auto) deserialize_data(Istream &&in, Struct s, void *data) noexcept {
-	traverser(s).for_each([&in, s, data]<IsState State>(State state) noexcept { in >> (s | get_at(data, state)); });
+constexpr decltype(auto) deserialize_data(Istream &&in, Struct s, void *data) {
+	traverser(s).for_each([&in, s, data]<IsState State>(State state) { in >> (s | get_at(data, state)); });
 	return std::forward<Istream>(in);
 }
 
 template<class Istream, class Bag>
-constexpr decltype(auto) deserialize_data(Istream &&in, Bag &bag) noexcept {
+constexpr decltype(auto) deserialize_data(Istream &&in, Bag &bag) {
 	return deserialize_data(std::forward<Istream>(in), bag.structure(), bag.data());
 }
 
 template<class Ostream, class Struct>
-constexpr decltype(auto) serialize_data(Ostream &&out, Struct s, const void *data) noexcept {
+constexpr decltype(auto) serialize_data(Ostream &&out, Struct s, const void *data) {
 	traverser(s).for_each(
-		[&out, s, data]<IsState State>(State state) noexcept { out << (s | get_at(data, state)) << '\n'; });
+		[&out, s, data]<IsState State>(State state) { out << (s | get_at(data, state)) << '\n'; });
 	return std::forward<Ostream>(out);
 }
 
 template<class Ostream, class Bag>
-constexpr decltype(auto) serialize_data(Ostream &&out, const Bag &bag) noexcept {
+constexpr decltype(auto) serialize_data(Ostream &&out, const Bag &bag) {
 	return serialize_data(std::forward<Ostream>(out), bag.structure(), bag.data());
 }
 
-- 
2.43.0


From 7667d6d1bbdfdf9edc7bfa598d07f9aa8ae9fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:31 +0000
Subject: [PATCH 18/23] fix: mangling of negative integers and of large
 literals

The sign was counted out of the digits, and literals over INT_MAX did not build.
---
 include/noarr/structures/extra/mangle.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 0a6b74a..7aaf250 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -110,13 +110,13 @@ struct scalar_name<std::integral_constant<std::size_t, L>> {
 		integer_sequence_concat<std::integer_sequence<char, 's', 't', 'd', ':', ':', 'i', 'n', 't', 'e', 'g', 'r', 'a',
 	                                                  'l', '_', 'c', 'o', 'n', 's', 't', 'a', 'n', 't', '<'>,
 	                            typename scalar_name<std::size_t>::type, std::integer_sequence<char, ','>,
-	                            mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                            mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 template<std::size_t L>
 struct scalar_name<lit_t<L>> {
 	using type = integer_sequence_concat<std::integer_sequence<char, 'l', 'i', 't', '_', 't', '<'>,
-	                                     mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                                     mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 /**
@@ -178,6 +178,7 @@ struct mangle_expr_helpers {
 		} while (u /= 10);
 		if (neg) {
 			*--ptr = '-';
+			sz++;
 		}
 		out.append(ptr, sz);
 	}
-- 
2.43.0


From 203b3b3a2c87daa8fbb8e83fe6baca0036d2c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 19/23] fix: proto-structures can be applied to owning bags

The data were copied instead of moved, which does not build for unique bags.
---
 include/noarr/structures/interop/bag.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/bag.hpp b/include/noarr/structures/interop/bag.hpp
index 61df9e5..8790234 100644
--- a/include/noarr/structures/interop/bag.hpp
+++ b/include/noarr/structures/interop/bag.hpp
@@ -245,7 +245,8 @@ public:
 	[[nodiscard("Returns a new bag")]]
 	friend constexpr auto operator^(bag_t &&s, ProtoStruct p) {
 		using new_structure_t = std::remove_cvref_t<decltype(s.structure() ^ p)>;
-		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p, std::move(std::move(s).template get<1>()));
+		// `get` returns a const reference, but the bag is a non-const rvalue: the data can be moved from it
+		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p, std::move(const_cast<data_t &>(s.template get<1>())));
 	}
 
 	template<IsProtoStruct ProtoStruct>
-- 
2.43.0


From c26aaaac136e20380ae52b26a0b281481b8d574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 20/23] fix: cuda_striped keeps elements aligned in every
 stripe

---
 include/noarr/structures/interop/cuda_striped.cuh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/interop/cuda_striped.cuh b/include/noarr/structures/interop/cuda_striped.cuh
index 2fae4c9..f01e1ef 100644
--- a/include/noarr/structures/interop/cuda_striped.cuh
+++ b/include/noarr/structures/interop/cuda_striped.cuh
@@ -84,12 +84,14 @@ struct cuda_striped_t : strict_contain<T> {
 
 private:
 	static constexpr std::size_t elem_size = decltype(std::declval<ElemType>().size(state<>()))::value;
+	static constexpr std::size_t elem_align = decltype(std::declval<ElemType>().align(state<>()))::value;
 	// the stripe width in bytes, forbidding bank conflicts
 	static constexpr std::size_t tmp_stripe_padded_width = (BankCount / NumStripes) * BankWidth;
-	// if the stripe is too narrow for even a single element, enlarge stripe just enough (at the cost of conflicts)
+	// if the stripe is too narrow for even a single element, enlarge stripe just enough (at the cost of conflicts);
+	// otherwise, cut the stripe to keep the following stripes properly aligned
 	static constexpr std::size_t stripe_padded_width =
 		(tmp_stripe_padded_width < elem_size ? helpers::pad_to_multiple<elem_size, BankWidth>
-	                                         : tmp_stripe_padded_width);
+	                                         : tmp_stripe_padded_width / elem_align * elem_align);
 	// how many successive elements fit in the stripe width
 	static constexpr std::size_t stripe_width_elems = stripe_padded_width / elem_size;
 	// stripe width, in bytes, without stripe padding --- i.e. how many successive bytes of the original structure will
-- 
2.43.0


From f095ef240bb85bddf16c5ac30fbc86d711839a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 21/23] fix: signature of span takes the start into account

---
 include/noarr/structures/structs/slice.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index fb6120b..b494542 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -386,7 +386,17 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<EndT>, RetSig>;
+		template<class S, class E>
+		struct subtract {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t S, std::size_t E>
+		struct subtract<std::integral_constant<std::size_t, S>, std::integral_constant<std::size_t, E>> {
+			using type = static_arg_length<E - S>;
+		};
+
+		using type = function_sig<Dim, typename subtract<StartT, EndT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
-- 
2.43.0


From 237f8f67cc70536c4d940c1864e615bbdee97728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 22/23] fix: signature of step has the length, not the stride

---
 include/noarr/structures/structs/slice.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index b494542..0e376a3 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -549,7 +549,18 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<StrideT>, RetSig>;
+		template<class L, class S, class K>
+		struct divide {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t L, std::size_t S, std::size_t K>
+		struct divide<static_arg_length<L>, std::integral_constant<std::size_t, S>,
+		              std::integral_constant<std::size_t, K>> {
+			using type = static_arg_length<(L + K - S - 1) / K>;
+		};
+
+		using type = function_sig<Dim, typename divide<ArgLength, StartT, StrideT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
-- 
2.43.0


From 00f2a7b2acd5591ef34b739d42e74818b5ab2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:35 +0000
Subject: [PATCH 23/23] fix: contain_cat keeps a contain that is the only item
 of the result

---
 include/noarr/structures/base/contain.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/base/contain.hpp b/include/noarr/structures/base/contain.hpp
index 65e9b51..b3acea4 100644
--- a/include/noarr/structures/base/contain.hpp
+++ b/include/noarr/structures/base/contain.hpp
@@ -164,7 +164,9 @@ template<class C1, std::size_t... Idxs1, class C2, std::size_t... Idxs2, class..
 constexpr auto contain_cat_impl(C1 &&c1, std::index_sequence<Idxs1...> /*unused*/, C2 &&c2,
                                 std::index_sequence<Idxs2...> /*unused*/, Contains &&...contains) noexcept {
 	return contain_cat(
-		contain(std::forward<C1>(c1).template get<Idxs1>()..., std::forward<C2>(c2).template get<Idxs2>()...),
+		contain<std::remove_cvref_t<decltype(std::forward<C1>(c1).template get<Idxs1>())>...,
+	            std::remove_cvref_t<decltype(std::forward<C2>(c2).template get<Idxs2>())>...>(
+			std::forward<C1>(c1).template get<Idxs1>()..., std::forward<C2>(c2).template get<Idxs2>()...),
 		std::forward<Contains>(contains)...);
 }
 
-- 
2.43.0

