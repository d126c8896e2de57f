From 04ff3de64ce436803a0048f8fbfc63a3bb679429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 01/38] fix: post* saturation kept a dangling reference to its
 early-termination callback

---
 src/include/pdaaal/internal/PdaSaturation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3c1c1a9..18adf93 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -355,7 +355,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 48)
 
         p_automaton_t& _automaton;
-        const early_termination_fn<W>& _early_termination;
+        const early_termination_fn<W> _early_termination; // By value: the argument is typically a temporary.
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
@@ -525,7 +525,7 @@ namespace pdaaal::internal {
 
     private:
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination; // By value: the argument is typically a temporary.
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
-- 
2.43.0


From 350610f077bce6fabbd7ab6b5e205095c5269da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 02/38] fix: fixed-point path extraction asserted that no path
 contains an epsilon edge (post* paths to the empty stack do)

---
 src/include/pdaaal/internal/PAutomatonAlgorithms.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomatonAlgorithms.h b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
index 4fb2725..b13f229 100644
--- a/src/include/pdaaal/internal/PAutomatonAlgorithms.h
+++ b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
@@ -129,7 +129,6 @@ namespace pdaaal::internal {
             AutomatonPath path(state_map(_min_accepting_state));
             size_t state = _min_accepting_state;
             while (_states[state].predecessor != no_state) {
-                assert(_states[state].label != std::numeric_limits<uint32_t>::max());
                 path.emplace(state_map(_states[state].predecessor), _states[state].label);
                 state = _states[state].predecessor;
                 assert(path.edges_size() <= _states.size()); // There should be no loop here - covered elsewhere.
@@ -163,7 +162,6 @@ namespace pdaaal::internal {
                     _current_state = _states[_current_state].predecessor;
                 }
                 if (_current_state == no_state) return std::nullopt; // Done searching.
-                assert(label != std::numeric_limits<uint32_t>::max());
                 assert(_current_state != uninitialized_state);
                 _path.emplace(_state_map(_current_state), label);
                 return label;
-- 
2.43.0


From 265e1f6f6781afc728245fc316bdd438a49d598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:28 +0000
Subject: [PATCH 03/38] fix: shortest-trace pre*/dual* gave wrong answers
 (weights of accepting control states, traces of improved edges,
 non-early-terminating runs, uninitialised product weights, solutions heavier
 than the last workset element)

---
 src/include/pdaaal/Solver.h                 | 11 +++++------
 src/include/pdaaal/internal/PAutomaton.h    |  2 +-
 src/include/pdaaal/internal/PdaSaturation.h | 16 ++++++++++++----
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 8ab4ed5..e12c7ed 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -83,7 +83,7 @@ namespace pdaaal {
 
         template <Trace_Type trace_type,typename pda_t, typename automaton_t, typename W>
         static bool dual_search_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            if (instance.template initialize_product<true>()) {
+            if (instance.template initialize_product<true,true,trace_type>()) {
                 return true;
             }
             // we could *probably* avoid some dupplication here if the pre/post* algorithms
@@ -105,8 +105,7 @@ namespace pdaaal {
                         auto w = internal::solver_weight<W,trace_type>::add(latest_poststar_queue_weight, latest_prestar_queue_weight);*/
                         return instance.template add_initial_edge<trace_type>(from, label, to, trace, /*std::move(w)*/ et_param);
                     }
-                );
-                return false;
+                ) || instance.product_automaton().has_accepting_state(); // A solution may be heavier than the last element of the workset.
             }
             else
             {
@@ -181,14 +180,14 @@ namespace pdaaal {
         template <Trace_Type trace_type, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            return instance.initialize_product() ||
+            return instance.template initialize_product<false,true,trace_type>() ||
                    pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest)
                             return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                         else
                             return instance.add_edge_product(from, label, to, trace);
 
-                   });
+                   }) || instance.product_automaton().has_accepting_state(); // A solution may be heavier than the last element of the workset.
             }
 
         template <Trace_Type trace_type, typename W, bool ET=false>
@@ -221,7 +220,7 @@ namespace pdaaal {
                     [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                     });
-                return saturation.run();
+                return saturation.run() || instance.product_automaton().has_accepting_state(); // A solution may be heavier than the last element of the workset.
             } else if constexpr (trace_type == Trace_Type::Any ||
                                  trace_type == Trace_Type::None) { // TODO: Implement faster no-trace option.
                 internal::PostStarSaturation<W,true> saturation(instance.automaton(),
diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 1e765f1..24f5454 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -175,7 +175,7 @@ namespace pdaaal::internal {
             // TODO: Move this out to sub-class IncrementalPAutomaton
             size_t _back_edge_state = std::numeric_limits<size_t>::max(); // Use the back_edge_state to check for existence of a back_edge.
             uint32_t _back_edge_label = std::numeric_limits<uint32_t>::max()-1; // The null value should not equal epsilon (defensive defaults)
-            weight_or_bool_t _best_weight;
+            weight_or_bool_t _best_weight{}; // Initial states are reached at no cost.
 
             state_t(bool accepting, size_t id) : _accepting(accepting), _id(id) {};
 
diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 18adf93..fbc9511 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -104,7 +104,7 @@ namespace pdaaal::internal {
                 : _automaton(automaton), _early_termination(early_termination), _pda_states(_automaton.pda().states()),
                   _n_pda_states(_pda_states.size()), _n_automaton_states(_automaton.states().size()),
                   _n_pda_labels(_automaton.number_of_labels()), _rel(_n_automaton_states),
-                  _delta_prime(_n_automaton_states),_popped(_n_pda_states) {
+                  _delta_prime(_n_automaton_states),_popped(_n_automaton_states) {
             initialize();
         };
 
@@ -176,7 +176,15 @@ namespace pdaaal::internal {
                         } else throw std::logic_error("Shortest traces for void-weights is not supported.");
                     }
                 }
-                if(from->_accepting) add_pop(from->_id);
+            }
+            // We need to add_pop after going through the original automaton.
+            for (const auto& from : _automaton.states()) {
+                if (from->_accepting) {
+                    if constexpr (W::is_weight && SHORTEST) {
+                        _minpath[from->_id] = solver_weight::zero(); // The empty stack is accepted here at no cost.
+                    }
+                    add_pop(from->_id);
+                }
             }
         }
 
@@ -194,7 +202,7 @@ namespace pdaaal::internal {
                     _workset.emplace(from, label, to, std::move(res), trace);
                 } else {
                     if(solver_weight::less(weight, it->second.second)) {
-                        it->second.second = std::move(weight);
+                        it->second = std::make_pair(trace, std::move(weight)); // The trace must match the weight.
                         _workset.emplace(from, label, to, std::move(res), trace);
                     }
                 }
@@ -222,7 +230,7 @@ namespace pdaaal::internal {
 
         weight_t get_pautomata_edge_weight(auto from, auto label, auto to)
         {
-            if constexpr (ET && W::is_weight)
+            if constexpr (SHORTEST && W::is_weight)
                 return  _automaton.get_edge(from, label, to)->second;
             return weight_t{};
         }
-- 
2.43.0


From fb9af91c79172b8c158b2e9ab831ed64efafe25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:08 +0000
Subject: [PATCH 04/38] fix: P-automaton membership ignored that post*
 represents <p,epsilon> by an epsilon edge, and shortest accept_path dropped
 the control state when following one

---
 src/include/pdaaal/Solver.h              | 16 +++++++++----
 src/include/pdaaal/internal/PAutomaton.h | 29 ++++++++++++++++++++----
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index e12c7ed..abb399e 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -334,10 +334,10 @@ namespace pdaaal {
             auto stack_native = pda.encode_pre(stack);
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _accept_path(path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _accept_path(path, stack_native));
             }
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename T, typename W, typename = std::enable_if_t<!std::is_same_v<T,uint32_t>>>
@@ -345,14 +345,22 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _accept_path(path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _accept_path(path, stack_native));
             }
         }
 
     private:
+        static AutomatonPath<> _accept_path(const std::vector<size_t>& path, std::vector<uint32_t> stack) {
+            if (path.empty()) return AutomatonPath<>(); // Not accepted.
+            if (path.size() == stack.size() + 2) { // Empty stack accepted by an epsilon-edge.
+                stack.insert(stack.begin(), std::numeric_limits<uint32_t>::max());
+            }
+            return AutomatonPath<>(path, stack);
+        }
+
         template <typename T, typename W, typename S, bool ssm>
         static typename PDA<T,W,fut::type::vector,S,ssm>::tracestate_t
         _decode_edges(const PDA<T,W,fut::type::vector,S,ssm> &pda, const AutomatonPath<>& path) {
diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 24f5454..8a23aa9 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -509,7 +509,7 @@ namespace pdaaal::internal {
             //Equivalent to (but hopefully faster than): return !_accept_path(state, stack).empty();
 
             if (stack.empty()) {
-                return _states[state]->_accepting;
+                return _states[state]->_accepting || epsilon_accepting(state).first != nullptr;
             }
             // DFS search.
             std::stack<std::pair<size_t, size_t>> search_stack;
@@ -532,6 +532,7 @@ namespace pdaaal::internal {
             return false;
         }
 
+        // For an empty stack that is accepted by an epsilon-edge the path is {state, target of the epsilon-edge}.
         template<Trace_Type trace_type = Trace_Type::Any>
         [[nodiscard]] typename std::conditional_t<trace_type == Trace_Type::Shortest && is_weighted<W>,
                 std::pair<std::vector<size_t>, typename W::type>, std::vector<size_t>>
@@ -540,6 +541,8 @@ namespace pdaaal::internal {
                 if (stack.empty()) {
                     if (_states[state]->_accepting) {
                         return std::make_pair(std::vector<size_t>{state}, W::zero());
+                    } else if (auto [to, weight] = epsilon_accepting(state); to != nullptr) {
+                        return std::make_pair(std::vector<size_t>{state, to->_id}, weight);
                     } else {
                         return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
                     }
@@ -604,10 +607,6 @@ namespace pdaaal::internal {
                                 search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, label->second), to, current._stack_index + 1, pointer);
                             }
                         }
-                        auto eps_label = labels.get(epsilon);
-                        if (eps_label != nullptr) {
-                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer->_back_pointer);
-                        }
                     }
                 }
                 return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
@@ -615,6 +614,8 @@ namespace pdaaal::internal {
                 if (stack.empty()) {
                     if (_states[state]->_accepting) {
                         return std::vector<size_t>{state};
+                    } else if (auto to = epsilon_accepting(state).first; to != nullptr) {
+                        return std::vector<size_t>{state, to->_id};
                     } else {
                         return std::vector<size_t>();
                     }
@@ -889,6 +890,24 @@ namespace pdaaal::internal {
             }
         }
     private:
+        // post* represents that <state, epsilon> is accepted by an epsilon-edge to an accepting state. Finds the best such edge.
+        [[nodiscard]] std::pair<const state_t*, weight_or_bool_t> epsilon_accepting(size_t state) const {
+            std::pair<const state_t*, weight_or_bool_t> best{nullptr, weight_or_bool_t{}};
+            for (const auto& [to,labels] : _states[state]->_edges) {
+                if (!_states[to]->_accepting) continue;
+                if (auto anno = labels.get(epsilon); anno != nullptr) {
+                    if constexpr (W::is_weight) {
+                        if (best.first == nullptr || solver_weight<W,Trace_Type::Shortest>::less(anno->second, best.second)) {
+                            best = std::make_pair(_states[to].get(), anno->second);
+                        }
+                    } else {
+                        best.first = _states[to].get();
+                    }
+                }
+            }
+            return best;
+        }
+
         std::vector<std::unique_ptr<state_t>> _states;
         std::vector<state_t *> _initial;
         std::vector<state_t *> _accepting;
-- 
2.43.0


From c7b174c038e0bf046923605c950b8db55cfb42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:35 +0000
Subject: [PATCH 05/38] fix: rule traces without rules read the first rule of
 an empty vector, and swapped the accepting paths after post*

---
 src/include/pdaaal/Solver.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index abb399e..ef44271 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -318,13 +318,13 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths), weight);
+                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton()), weight);
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
             } else {
                 auto paths = instance.template find_path<trace_type, true>();
-                return _get_rule_trace_and_paths(instance.automaton(), paths);
+                return _get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton());
             }
         }
 
@@ -406,7 +406,8 @@ namespace pdaaal {
                 std::vector<size_t>, // Path in initial PAutomaton (accepting initial stack)
                 std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
                 > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type>& automaton, // The PAutomaton that has been build up (either A_pre* or A_post*)
-                                            const AutomatonPath<true>& paths) {
+                                            const AutomatonPath<true>& paths,
+                                            bool is_post) { // Whether @automaton is A_post*. (Not visible from a trace without rules.)
             using rule_t = user_rule_t<W>;
 
             if (paths.is_null()) {
@@ -426,9 +427,9 @@ namespace pdaaal {
             // Get accepting path of initial stack (and the initial stack itself - for post*)
             auto [start_path, start_stack] = tb.path().get_path_and_stack();
 
-            if (tb.post()) { // post* was used
+            if (is_post) { // post* was used
                 std::reverse(trace.begin(), trace.end());
-                return std::make_tuple(trace[0].from(), std::move(trace),
+                return std::make_tuple(tb.path().front_state(), std::move(trace),
                                        std::move(start_stack), std::move(goal_stack),
                                        std::move(start_path), std::move(goal_path));
             } else { // pre* was used
@@ -448,20 +449,21 @@ namespace pdaaal {
         std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
         > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type1>& initial_automaton,
                                     const internal::PAutomaton<W,trace_info_type2>& final_automaton,
-                                    const std::optional<AutomatonPath<true>>& paths) {
+                                    const AutomatonPath<true>& paths) {
             using rule_t = user_rule_t<W>;
 
-            if (!paths.has_value()) {
+            if (paths.is_null()) {
                 return std::make_tuple(std::numeric_limits<size_t>::max(), std::vector<rule_t>(), std::vector<uint32_t>(), std::vector<uint32_t>(), std::vector<size_t>(), std::vector<size_t>());
             }
             // The paths was retrieved from the product automaton. First number is the state in initial_automaton, second number is state in final_automaton.
-            auto [initial_automaton_path, final_automaton_path] = paths.value().split();
+            auto [initial_automaton_path, final_automaton_path] = paths.split();
             final_automaton_path.remove_epsilon(); // post* may add an epsilon-edge as first. this edge is not in pre* automaton (final_automaton), so remove it from f_path.
             auto [trace, initial_stack, initial_path] = _get_trace_stack_path(initial_automaton, std::move(initial_automaton_path));
             auto [trace2, final_stack, final_path] = _get_trace_stack_path(final_automaton, std::move(final_automaton_path));
             // Concat traces
             trace.insert(trace.end(), trace2.begin(), trace2.end());
-            return std::make_tuple(trace[0].from(), std::move(trace),
+            auto initial_state = initial_path.front(); // Note: There might not be any rules in the trace.
+            return std::make_tuple(initial_state, std::move(trace),
                                    std::move(initial_stack), std::move(final_stack),
                                    std::move(initial_path), std::move(final_path));
         }
-- 
2.43.0


From 4e9d7f3446c1a24ac2953ddf82126004e30f4a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:16 +0000
Subject: [PATCH 06/38] fix: fixed-point saturation could stop in the middle of
 its last round and mark or miss transitions

---
 src/include/pdaaal/utils/workset.h | 188 ++++++++++++++---------------
 1 file changed, 94 insertions(+), 94 deletions(-)

diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index e694f3c..5b44b18 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -1,94 +1,94 @@
-/* 
- * This program is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- * 
- * This program is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- * 
- * You should have received a copy of the GNU General Public License
- * along with this program.  If not, see <http://www.gnu.org/licenses/>.
- */
-
-/*
- *  Copyright Morten K. Schou
- */
-
-/* 
- * File:   workset.h
- * Author: Morten K. Schou <morten@h-schou.dk>
- *
- * Created on 23-08-2021.
- */
-
-#ifndef PDAAAL_WORKSET_H
-#define PDAAAL_WORKSET_H
-
-#include <cassert>
-#include <stack>
-#include <queue>
-
-namespace pdaaal {
-
-    template<typename Derived, typename Elem, bool enforce_set = true>
-    class fixed_point_workset {
-        bool _done = false;
-        size_t _round_limit;
-        size_t _rounds = 0;
-        std::vector<Elem> _workset;
-        std::vector<Elem> _next_workset;
-    public:
-        explicit fixed_point_workset(size_t round_limit = 0) : _round_limit(round_limit) { };
-
-        template<bool change_is_bottom = false>
-        bool step() {
-            if (_workset.empty()) {
-                ++_rounds;
-                if (_next_workset.empty()) {
-                    _done = true;
-                    return false;
-                }
-                if constexpr (enforce_set) { // Remove duplicates, if this is not ensured somewhere else.
-                    std::sort(_next_workset.begin(), _next_workset.end());
-                    _next_workset.erase(std::unique(_next_workset.begin(), _next_workset.end()), _next_workset.end());
-                }
-                std::swap(_workset, _next_workset);
-            }
-
-            auto current = _workset.back();
-            _workset.pop_back();
-
-            if (!static_cast<Derived*>(this)->template step_with<change_is_bottom>(std::move(current))) {
-                _done = true;
-                return false;
-            }
-            return true;
-        }
-        void finalize() {
-            _rounds = 0; // Reset _round count and run again, this time changes gives -inf weight.
-            while (!done()) {
-                step<true>();
-            }
-        }
-        [[nodiscard]] bool done() const {
-            return _done || _rounds == _round_limit;
-        }
-        void run() {
-            while(!done()) {
-                step();
-            }
-            finalize();
-        }
-    protected:
-        template<typename... Args>
-        auto emplace(Args&&... args){
-            return _next_workset.emplace_back(std::forward<Args>(args)...);
-        }
-        void set_round_limit(size_t new_round_limit) { _round_limit = new_round_limit; }
-    };
-}
-
-#endif //PDAAAL_WORKSET_H
+/* 
+ * This program is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ * 
+ * This program is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ * 
+ * You should have received a copy of the GNU General Public License
+ * along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+/*
+ *  Copyright Morten K. Schou
+ */
+
+/* 
+ * File:   workset.h
+ * Author: Morten K. Schou <morten@h-schou.dk>
+ *
+ * Created on 23-08-2021.
+ */
+
+#ifndef PDAAAL_WORKSET_H
+#define PDAAAL_WORKSET_H
+
+#include <cassert>
+#include <stack>
+#include <queue>
+
+namespace pdaaal {
+
+    template<typename Derived, typename Elem, bool enforce_set = true>
+    class fixed_point_workset {
+        bool _done = false;
+        size_t _round_limit;
+        size_t _rounds = 0;
+        std::vector<Elem> _workset;
+        std::vector<Elem> _next_workset;
+    public:
+        explicit fixed_point_workset(size_t round_limit = 0) : _round_limit(round_limit) { };
+
+        template<bool change_is_bottom = false>
+        bool step() {
+            if (_workset.empty()) {
+                ++_rounds;
+                if (_next_workset.empty()) {
+                    _done = true;
+                    return false;
+                }
+                if constexpr (enforce_set) { // Remove duplicates, if this is not ensured somewhere else.
+                    std::sort(_next_workset.begin(), _next_workset.end());
+                    _next_workset.erase(std::unique(_next_workset.begin(), _next_workset.end()), _next_workset.end());
+                }
+                std::swap(_workset, _next_workset);
+            }
+
+            auto current = _workset.back();
+            _workset.pop_back();
+
+            if (!static_cast<Derived*>(this)->template step_with<change_is_bottom>(std::move(current))) {
+                _done = true;
+                return false;
+            }
+            return true;
+        }
+        void finalize() {
+            _rounds = 0; // Reset _round count and run again, this time changes gives -inf weight.
+            while (!done()) {
+                step<true>();
+            }
+        }
+        [[nodiscard]] bool done() const {
+            return _done || (_workset.empty() && _rounds >= _round_limit); // Only stop between rounds: the last round must be completed.
+        }
+        void run() {
+            while(!done()) {
+                step();
+            }
+            finalize();
+        }
+    protected:
+        template<typename... Args>
+        auto emplace(Args&&... args){
+            return _next_workset.emplace_back(std::forward<Args>(args)...);
+        }
+        void set_round_limit(size_t new_round_limit) { _round_limit = new_round_limit; }
+    };
+}
+
+#endif //PDAAAL_WORKSET_H
-- 
2.43.0


From 2c63aa9d59a18a173cc2b81340b5945d22f41445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:59 +0000
Subject: [PATCH 07/38] fix: pre* skipped push rules with a negative weight
 (lookup key compared the default weight)

---
 src/include/pdaaal/internal/PDA.h           | 4 ++++
 src/include/pdaaal/internal/PdaSaturation.h | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PDA.h b/src/include/pdaaal/internal/PDA.h
index 1f0f8c3..f47293f 100644
--- a/src/include/pdaaal/internal/PDA.h
+++ b/src/include/pdaaal/internal/PDA.h
@@ -262,6 +262,10 @@ namespace pdaaal::internal {
         std::vector<state_t>& states_mutable() {
             return _states;
         }
+        // Rules are sorted by _to first. Compare only that, since weights may be less than the default weight.
+        static auto first_rule_to(const decltype(state_t::_rules)& rules, size_t to) {
+            return std::lower_bound(rules.begin(), rules.end(), to, [](const auto& elem, size_t s){ return elem.first._to < s; });
+        }
         void clear_state(size_t s) {
             _states[s]._rules.clear();
             for (auto& p : _states[s]._pre_states) {
diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index fbc9511..0c6650e 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -139,7 +139,7 @@ namespace pdaaal::internal {
             if(_popped[state]) return;
             for (auto pre_state : _pda_states[state]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                auto lb = PDA<W>::first_rule_to(rules, state);
                 while (lb != rules.end() && lb->first._to == state) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -274,7 +274,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = PDA<W>::first_rule_to(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -808,7 +808,7 @@ namespace pdaaal::internal {
                 _added_pop[state] = true;
                 for (auto pre_state : _pda_states[state]._pre_states) {
                     const auto &rules = _pda_states[pre_state]._rules;
-                    auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                    auto lb = PDA<W>::first_rule_to(rules, state);
                     while (lb != rules.end() && lb->first._to == state) {
                         const auto& [rule, labels] = *lb;
                         size_t rule_id = lb - rules.begin();
@@ -860,7 +860,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return true; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto &rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = PDA<W>::first_rule_to(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto &[rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
-- 
2.43.0


From bc748043d5546f65174e050d0fa0551400ffd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:33 +0000
Subject: [PATCH 08/38] fix: floating-point weights used the smallest positive
 number as the least weight

---
 src/include/pdaaal/Weight.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 668dfd6..313940f 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -114,8 +114,8 @@ namespace pdaaal {
             static constexpr bool is_signed = parent_t::is_signed;
         private:
             static constexpr type bottom_val = maximize ? std::numeric_limits<type>::max() - (is_signed ? 0 : 1)
-                                                        : std::numeric_limits<type>::min();
-            static constexpr type max_val = (maximize && is_signed) ? std::numeric_limits<type>::min()
+                                                        : std::numeric_limits<type>::lowest();
+            static constexpr type max_val = (maximize && is_signed) ? std::numeric_limits<type>::lowest()
                                                                     : std::numeric_limits<type>::max();
         public:
             static constexpr auto bottom = []() -> type { return bottom_val; };
-- 
2.43.0


From 2272f2dd42fd3acedb27780b21a164e15fefe69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:33 +0000
Subject: [PATCH 09/38] fix: adding weights could overflow (fixed-point
 iterates of diverging systems double every round)

---
 src/include/pdaaal/Weight.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 313940f..9e66caa 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -136,6 +136,14 @@ namespace pdaaal {
                 if constexpr (bottom_val != 0) {
                     if (lhs == bottom_val || rhs == bottom_val) return bottom_val;
                 }
+                if constexpr (std::is_integral_v<type>) { // Saturate instead of overflowing; and a finite sum is never max_val.
+                    constexpr type lowest = std::numeric_limits<type>::lowest();
+                    constexpr type greatest = std::numeric_limits<type>::max();
+                    if (rhs > 0 && lhs >= greatest - rhs) return maximize ? bottom_val : greatest - 1;
+                    if constexpr (is_signed) {
+                        if (rhs < 0 && lhs <= lowest - rhs) return maximize ? lowest + 1 : bottom_val;
+                    }
+                }
                 return lhs + rhs;
             };
         };
-- 
2.43.0


From a5724515f9907bfdd4fb8c9b8c66d6bdd929e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:33 +0000
Subject: [PATCH 10/38] fix: comparing vector weights of different length
 advanced iterators past the end, and a missing component was not zero for
 unsigned minimisation

---
 src/include/pdaaal/Weight.h | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 9e66caa..d8c8513 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -179,22 +179,14 @@ namespace pdaaal {
             static constexpr auto bottom = []() -> type { return type{weight_impl<Inner, maximize>::bottom()}; };
             static constexpr auto max = []() -> type { return type{weight_impl<Inner, maximize>::max()}; }; // TODO: When C++20 arrives, use a constexpr vector instead
             static constexpr bool less(const type& lhs, const type& rhs) {
-                if constexpr (!maximize && !is_signed) {
-                    return lhs < rhs;
-                } else {
-                    auto f1 = lhs.begin(), f2 = rhs.begin();
-                    auto l1 = lhs.end(), l2 = rhs.end();
-                    bool exhaust1 = (f1 == l1);
-                    bool exhaust2 = (f2 == l2);
-                    for (; !exhaust1 || !exhaust2; exhaust1 = (++f1 == l1), exhaust2 = (++f2 == l2)) {
-                        auto v1 = exhaust1 ? weight<Inner>::zero() : *f1; // Missing elements are implicitly zero.
-                        auto v2 = exhaust2 ? weight<Inner>::zero() : *f2;
-                        if (weight_impl<Inner, maximize>::less(v1, v2)) return true;
-                        if (weight_impl<Inner, maximize>::less(v2, v1)) return false;
-                        // if (auto c = weight<Inner, maximize>::compare(v1, v2); c != 0) return c;
-                    }
-                    return false; // return std::strong_ordering::equal;
+                for (size_t i = 0; i < std::max(lhs.size(), rhs.size()); ++i) {
+                    auto v1 = i < lhs.size() ? lhs[i] : weight<Inner>::zero(); // Missing elements are implicitly zero.
+                    auto v2 = i < rhs.size() ? rhs[i] : weight<Inner>::zero();
+                    if (weight_impl<Inner, maximize>::less(v1, v2)) return true;
+                    if (weight_impl<Inner, maximize>::less(v2, v1)) return false;
+                    // if (auto c = weight<Inner, maximize>::compare(v1, v2); c != 0) return c;
                 }
+                return false; // return std::strong_ordering::equal;
             }
             static constexpr type add(const type& lhs, const type& rhs) {
                 const auto& [small, large] = std::minmax(lhs, rhs, [](const type& l, const type& r){ return l.size() < r.size(); });
-- 
2.43.0


From 3ae7bcf2b157b94262f83a41f3a60cf8352ee0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:33 +0000
Subject: [PATCH 11/38] fix: the unreachable and the unbounded vector weight
 were not preserved by addition

---
 src/include/pdaaal/Weight.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index d8c8513..736ce29 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -189,6 +189,10 @@ namespace pdaaal {
                 return false; // return std::strong_ordering::equal;
             }
             static constexpr type add(const type& lhs, const type& rhs) {
+                if (lhs == max() || rhs == max()) return max();
+                if constexpr (maximize || is_signed) {
+                    if (lhs == bottom() || rhs == bottom()) return bottom();
+                }
                 const auto& [small, large] = std::minmax(lhs, rhs, [](const type& l, const type& r){ return l.size() < r.size(); });
                 std::vector<Inner> result = large;
                 std::transform(small.begin(), small.end(), large.begin(),
-- 
2.43.0


From c6bcb1b4ef2e715eea40bcb6b19d4ea72cbfbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:33 +0000
Subject: [PATCH 12/38] fix: linear combinations of weight functions were
 accumulated in an int

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 736ce29..ea655dc 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -226,7 +226,7 @@ namespace pdaaal {
             if (_function) {
                 return _function.value()(args...);
             }
-            return std::accumulate(_functions.begin(), _functions.end(), 0,
+            return std::accumulate(_functions.begin(), _functions.end(), static_cast<W>(0),
                     [&args...](const W& lhs, const std::pair<W, linear_weight_function<W, Args...>>& rhs) -> W {
                 return lhs + (rhs.first * rhs.second(args...));
             });
-- 
2.43.0


From 87461318b9882b56a55ced8df51df9969893143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:02 +0000
Subject: [PATCH 13/38] fix: shortest accept_path keeps the control state when
 it follows an epsilon edge of an early terminated post*

---
 src/include/pdaaal/Solver.h              |  2 +-
 src/include/pdaaal/internal/PAutomaton.h | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index ef44271..b841b05 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -355,7 +355,7 @@ namespace pdaaal {
     private:
         static AutomatonPath<> _accept_path(const std::vector<size_t>& path, std::vector<uint32_t> stack) {
             if (path.empty()) return AutomatonPath<>(); // Not accepted.
-            if (path.size() == stack.size() + 2) { // Empty stack accepted by an epsilon-edge.
+            if (path.size() == stack.size() + 2) { // The path starts with an epsilon-edge.
                 stack.insert(stack.begin(), std::numeric_limits<uint32_t>::max());
             }
             return AutomatonPath<>(path, stack);
diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 8a23aa9..b297f29 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -532,7 +532,7 @@ namespace pdaaal::internal {
             return false;
         }
 
-        // For an empty stack that is accepted by an epsilon-edge the path is {state, target of the epsilon-edge}.
+        // If the path starts with an epsilon-edge (for the empty stack after post*, otherwise only if post* terminated early) it has one extra state.
         template<Trace_Type trace_type = Trace_Type::Any>
         [[nodiscard]] typename std::conditional_t<trace_type == Trace_Type::Shortest && is_weighted<W>,
                 std::pair<std::vector<size_t>, typename W::type>, std::vector<size_t>>
@@ -553,8 +553,9 @@ namespace pdaaal::internal {
                     size_t _state;
                     size_t _stack_index;
                     const queue_elem* _back_pointer;
-                    queue_elem(typename W::type weight, size_t state, size_t stack_index, const queue_elem* back_pointer = nullptr)
-                    : _weight(weight), _state(state), _stack_index(stack_index), _back_pointer(back_pointer) {};
+                    bool _epsilon; // The path starts with an epsilon-edge.
+                    queue_elem(typename W::type weight, size_t state, size_t stack_index, const queue_elem* back_pointer = nullptr, bool epsilon_path = false)
+                    : _weight(weight), _state(state), _stack_index(stack_index), _back_pointer(back_pointer), _epsilon(epsilon_path) {};
 
                     bool operator<(const queue_elem& other) const {
                         return std::tie(_state, _stack_index) < std::tie(other._state, other._stack_index);
@@ -568,7 +569,8 @@ namespace pdaaal::internal {
                 };
                 struct queue_elem_comp {
                     bool operator()(const queue_elem& lhs, const queue_elem& rhs){
-                        return solver_weight<W,trace_type>::less(rhs._weight, lhs._weight); // Used in a max-heap, so swap arguments to make it a min-heap.
+                        if (solver_weight<W,trace_type>::less(rhs._weight, lhs._weight)) return true; // Used in a max-heap, so swap arguments to make it a min-heap.
+                        return lhs._epsilon && !rhs._epsilon && !solver_weight<W,trace_type>::less(lhs._weight, rhs._weight);
                     }
                 };
                 queue_elem_comp less;
@@ -580,11 +582,11 @@ namespace pdaaal::internal {
                     auto current = search_queue.top();
                     search_queue.pop();
                     if (current._stack_index == stack.size()) {
-                        std::vector<size_t> path(stack.size() + 1);
-                        path[current._stack_index] = current._state;
+                        std::vector<size_t> path{current._state};
                         for (auto p = current._back_pointer; p != nullptr; p = p->_back_pointer) {
-                            path[p->_stack_index] = p->_state;
+                            path.push_back(p->_state);
                         }
+                        std::reverse(path.begin(), path.end());
                         return std::make_pair(path, current._weight);
                     }
                     auto lb = std::lower_bound(visited.begin(), visited.end(), current);
@@ -604,9 +606,13 @@ namespace pdaaal::internal {
                         auto label = labels.get(stack[current._stack_index]);
                         if (label != nullptr) {
                             if (current._stack_index + 1 < stack.size() || _states[to]->_accepting) {
-                                search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, label->second), to, current._stack_index + 1, pointer);
+                                search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, label->second), to, current._stack_index + 1, pointer, current._epsilon);
                             }
                         }
+                        auto eps_label = labels.get(epsilon);
+                        if (eps_label != nullptr && current._back_pointer == nullptr) { // post* only adds epsilon-edges from the control states.
+                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer, true);
+                        }
                     }
                 }
                 return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
-- 
2.43.0


From bd5380bc3c91748b9880ee7391963d647441c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 14/38] fix: insert_or_assign on a nested set did not compile
 (unqualified call to a dependent base)

---
 src/include/pdaaal/utils/fut_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/fut_set.h b/src/include/pdaaal/utils/fut_set.h
index 37e2782..5000991 100644
--- a/src/include/pdaaal/utils/fut_set.h
+++ b/src/include/pdaaal/utils/fut_set.h
@@ -150,7 +150,7 @@ namespace pdaaal::fut {
 
             template <typename... Args>
             auto insert_or_assign(Args &&... args) { // In set_containers insert_or_assign is just emplace. Provide it here, to have consistent interface.
-                return emplace(std::forward<Args>(args)...);
+                return this->emplace(std::forward<Args>(args)...);
             }
         };
 
-- 
2.43.0


From d73c7589cccbbf17db7717f05f7a70ffdac933e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:24 +0000
Subject: [PATCH 15/38] fix: a priority_set offered an element again when it
 was added after it had been popped

---
 src/include/pdaaal/utils/more_algorithms.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/utils/more_algorithms.h b/src/include/pdaaal/utils/more_algorithms.h
index 53eeebf..bd215ce 100644
--- a/src/include/pdaaal/utils/more_algorithms.h
+++ b/src/include/pdaaal/utils/more_algorithms.h
@@ -101,11 +101,15 @@ namespace pdaaal {
     public:
         template<typename... Args>
         void emplace(const Weight& weight, Args... args) {
-            _queue.emplace(weight, Elem(std::forward<Args>(args)...));
+            Elem elem(std::forward<Args>(args)...);
+            if (_seen.contains(elem)) return; // Never pop the same element twice.
+            _queue.emplace(weight, std::move(elem));
         }
         template<typename... Args>
         void emplace(Weight&& weight, Args... args) {
-            _queue.emplace(std::move(weight), Elem(std::forward<Args>(args)...));
+            Elem elem(std::forward<Args>(args)...);
+            if (_seen.contains(elem)) return; // Never pop the same element twice.
+            _queue.emplace(std::move(weight), std::move(elem));
         }
         void pop() {
             assert(!_seen.contains(_queue.top().second)); // This should be the class invariant.
-- 
2.43.0


From f72d2dd9c38c8cb74ba35acdeeebfb725846fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:30 +0000
Subject: [PATCH 16/38] fix: assigning to a non-empty NFA appended the states
 of the other one and broke its links

---
 src/include/pdaaal/NFA.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 3544662..826e772 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -291,6 +291,10 @@ namespace pdaaal {
 
         
         NFA& operator=(const NFA& other) {
+            if (this == &other) return *this;
+            _states.clear();
+            _initial.clear();
+            _accepting.clear();
             std::unordered_map<state_t*, state_t*> indir;
             for(auto& s : other._states) {
                 _states.emplace_back(std::make_unique<state_t>(*s));
-- 
2.43.0


From efe65b59bb7049446987b340b0d9b6a67e88c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:30 +0000
Subject: [PATCH 17/38] fix: optional and star of an NFA whose initial state
 can be re-entered (or that has none) changed the wrong words

---
 src/include/pdaaal/NFA.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 826e772..256cd27 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -334,6 +334,17 @@ namespace pdaaal {
         }
         
         void question_extend() {
+            if (_initial.empty() || std::any_of(_initial.begin(), _initial.end(), [](const state_t* s){ return !s->_backedges.empty(); })) {
+                // An initial state that can be re-entered must not become accepting, so use a fresh one.
+                _states.emplace_back(std::make_unique<state_t>(true));
+                auto initial = _states.back().get();
+                for (auto s : _initial) {
+                    initial->add_epsilon_edge(s);
+                }
+                _initial = {initial};
+                _accepting.push_back(initial);
+                return;
+            }
             for(auto s : _initial) {
                 if(!s->_accepting) {
                     s->_accepting = true;
@@ -345,6 +356,7 @@ namespace pdaaal {
         void plus_extend() {
             for(auto s : _accepting) {
                 for(auto si : _initial) {
+                    if (s == si) continue;
                     bool found = false;
                     for(auto& e : s->_edges) {
                         if(e._destination == si) {
@@ -360,8 +372,8 @@ namespace pdaaal {
         }
 
         void star_extend() {
-            plus_extend();
             question_extend();
+            plus_extend();
         }
 
         void and_extend(NFA&& other) {
-- 
2.43.0


From c0cbe705098e4ad62fb0a0ff6446a55cf298b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:30 +0000
Subject: [PATCH 18/38] fix: intersect_edge_labels kept the labels of earlier
 edges in its temporary, giving duplicates

---
 src/include/pdaaal/NFA.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 256cd27..91e3277 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -270,6 +270,7 @@ namespace pdaaal {
                     result.reserve(labels.size());
                     temp_union.reserve(labels.size());
                     temp.reserve(labels.size());
+                    temp.clear();
                     if (e._negated) {
                         std::set_difference(labels.begin(), labels.end(), e._symbols.begin(), e._symbols.end(), std::back_inserter(temp));
                     } else {
-- 
2.43.0


From cf1d8e0a2b3ece988be79ac4d36c14a332481033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:05 +0000
Subject: [PATCH 19/38] fix: the copy of a compiled NFA was not sorted by
 address, as its queries require

---
 src/include/pdaaal/NFA.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 91e3277..7f0bd53 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -316,6 +316,9 @@ namespace pdaaal {
             for(auto& s : other._initial) {
                 _initial.push_back(indir[s]);
             }
+            // compile() sorts by address, and the copied states have other addresses.
+            std::sort(_accepting.begin(), _accepting.end());
+            std::sort(_initial.begin(), _initial.end());
             return *this;
         }
 
-- 
2.43.0


From 1b467eb68766d209944659ce7580bc894889d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:53 +0000
Subject: [PATCH 20/38] fix: complemented label sets were wrong in P-automata
 when label ids are not in the order of the labels

---
 src/include/pdaaal/internal/PAutomaton.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index b297f29..e02c9d8 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -868,12 +868,18 @@ namespace pdaaal::internal {
                 return n_id;
             };
 
+            auto sorted_labels = [&map_edge](const auto& e) { // The mapping does not necessarily preserve the order of the symbols.
+                auto labels = map_edge(e);
+                std::sort(labels.begin(), labels.end());
+                return labels;
+            };
+
             for (const auto& i : nfa.initial()) {
                 for (const auto& e : i->_edges) {
                     for (const nfastate_t* n : e.follow_epsilon()) {
                         size_t n_id = get_nfastate_id(n);
                         if constexpr(use_mapping) {
-                            add_edges(states, n_id, e._negated, map_edge(e));
+                            add_edges(states, n_id, e._negated, sorted_labels(e));
                         } else {
                             add_edges(states, n_id, e._negated, e._symbols);
                         }
@@ -887,7 +893,7 @@ namespace pdaaal::internal {
                     for (const nfastate_t* n : e.follow_epsilon()) {
                         size_t n_id = get_nfastate_id(n);
                         if constexpr(use_mapping) {
-                            add_edges(top_id, n_id, e._negated, map_edge(e));
+                            add_edges(top_id, n_id, e._negated, sorted_labels(e));
                         } else {
                             add_edges(top_id, n_id, e._negated, e._symbols);
                         }
-- 
2.43.0


From 6bd22c1b8ffe61b6a8a9ff6ef2c513dc4fa4246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:05 +0000
Subject: [PATCH 21/38] fix: an alternative missing after '|' in a regular
 expression corrupted the parser's operand stack instead of being rejected

---
 src/include/pdaaal/parsing/NfaParserGrammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/parsing/NfaParserGrammar.h b/src/include/pdaaal/parsing/NfaParserGrammar.h
index bdec27f..b606df8 100644
--- a/src/include/pdaaal/parsing/NfaParserGrammar.h
+++ b/src/include/pdaaal/parsing/NfaParserGrammar.h
@@ -55,7 +55,7 @@ namespace pdaaal {
     template<typename L, typename C>
     struct seq_expr : pegtl::seq<unary_expr<L, C>, pegtl::star<pegtl::seq<pegtl::star<ignored<C>>,unary_expr<L, C>>>> {};
     template<typename L, typename C>
-    struct nfa_expr : pegtl::list<seq_expr<L, C>, or_symbol, ignored < C>> {};
+    struct nfa_expr : pegtl::list_must<seq_expr<L, C>, or_symbol, ignored < C>> {};
     template<typename L, typename C>
     struct nfa_expr_or_empty : pegtl::opt<nfa_expr<L,C>> {};
 
-- 
2.43.0


From 2fc86826c4a305ea67468a2c6538e2a956edb11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:05 +0000
Subject: [PATCH 22/38] fix: unknown quoted states, and quoted states that are
 not numbers in index-based systems, were ignored or misread instead of
 rejected

---
 src/pdaaal-bin/parsing/PAutomatonParser.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonParser.h b/src/pdaaal-bin/parsing/PAutomatonParser.h
index 624d53c..188ffec 100644
--- a/src/pdaaal-bin/parsing/PAutomatonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonParser.h
@@ -84,7 +84,9 @@ namespace pdaaal::parsing {
             return found;
         }
         void accept_string(const std::string& s) {
-            add_state(s);
+            if (!add_state(s)) {
+                throw std::runtime_error("state \"" + s + "\" is not found in the PDA.");
+            }
         }
         [[nodiscard]] const std::function<uint32_t(const std::string&)>& get_label_map() const {
             return _label_mapping;
@@ -163,7 +165,12 @@ namespace pdaaal::parsing {
         }
         template <TraceInfoType trace_info_type, typename Input, typename W, bool ssm>
         static PAutomaton<std::string,W,size_t,ssm,trace_info_type> parse(Input& in, PDA<std::string,W,fut::type::vector, size_t, ssm>& pda) {
-            return parse<trace_info_type, size_t>(in, pda, [](const std::string& s) -> size_t { return std::stoul(s); });
+            return parse<trace_info_type, size_t>(in, pda, [](const std::string& s) -> size_t {
+                if (s.find_first_not_of("0123456789") != std::string::npos) {
+                    throw std::invalid_argument("state \"" + s + "\" is not a number.");
+                }
+                return std::stoul(s);
+            });
         }
         template <TraceInfoType trace_info_type, typename state_t, typename Input, typename pda_t>
         static auto parse(Input& in, pda_t& pda, const std::function<state_t(const std::string&)>& state_mapping) {
-- 
2.43.0


From b898791b39b3339adbf8b6132c40670fe3bf4f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:54 +0000
Subject: [PATCH 23/38] fix: rule preconditions given as several labels were
 stored unsorted, losing labels when ids are not in the order given

---
 src/include/pdaaal/PDA.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/PDA.h b/src/include/pdaaal/PDA.h
index bcf8ed5..039b7d3 100644
--- a/src/include/pdaaal/PDA.h
+++ b/src/include/pdaaal/PDA.h
@@ -237,6 +237,13 @@ namespace pdaaal {
         }
 
     protected:
+        // The precondition of a rule is a set of labels, stored sorted by id.
+        std::vector<uint32_t> encode_pre_set(const std::vector<label_t>& pre) const {
+            auto ids = encode_pre(pre);
+            std::sort(ids.begin(), ids.end());
+            ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
+            return ids;
+        }
         uint32_t find_labelid(op_t op, label_t label) const {
             if (op != POP && op != NOOP) {
                 auto res = _label_map.exists(label);
@@ -253,12 +260,12 @@ namespace pdaaal {
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels) {
-            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels, typename WT::type weight = WT::zero()) {
-            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
-- 
2.43.0


From 08daf900a6a0f66737433988c40a4b34e3dba32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:29 +0000
Subject: [PATCH 24/38] fix: the reducer treated state 0 as the terminal state,
 deleting every rule into a terminal state with another id

---
 src/include/pdaaal/internal/Reducer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/Reducer.h b/src/include/pdaaal/internal/Reducer.h
index 662fcfb..bc058a3 100644
--- a/src/include/pdaaal/internal/Reducer.h
+++ b/src/include/pdaaal/internal/Reducer.h
@@ -136,8 +136,8 @@ namespace pdaaal::internal {
                 }
             }
             // DO PRUNING!
-            for (size_t i = 1; i < pda.states().size(); ++i) {
-                if(i == initial_id) continue;
+            for (size_t i = 0; i < pda.states().size(); ++i) {
+                if (i == initial_id || i == terminal_id) continue;
                 auto& app = approximation[i];
                 auto& state = pda.states_mutable()[i];
                 size_t br = 0;
@@ -285,7 +285,8 @@ namespace pdaaal::internal {
             size_t cnt = 1;
             // lets start by the initial transitions
             cnt += pda.states()[initial_id]._rules.size();
-            for (size_t sid = 1; sid < pda.states().size(); ++sid) {
+            for (size_t sid = 0; sid < pda.states().size(); ++sid) {
+                if (sid == initial_id || sid == terminal_id) continue;
                 for (auto& [r,labels] : pda.states()[sid]._rules) {
                     if (r._to == terminal_id) {
                         ++cnt;
-- 
2.43.0


From 8eb6fab94627d14a53042a83509c078064a62ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:11 +0000
Subject: [PATCH 25/38] fix: JSON readers took array elements for the value of
 the key before the array, and rejected or misread nested values of unknown
 keys

---
 src/include/pdaaal/utils/SaxHandlerHelpers.h |  8 ++--
 src/pdaaal-bin/parsing/PdaJsonParser.h       | 43 ++++++++++++--------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/include/pdaaal/utils/SaxHandlerHelpers.h b/src/include/pdaaal/utils/SaxHandlerHelpers.h
index b938ca6..e1d226d 100644
--- a/src/include/pdaaal/utils/SaxHandlerHelpers.h
+++ b/src/include/pdaaal/utils/SaxHandlerHelpers.h
@@ -126,8 +126,9 @@ namespace pdaaal::parsing {
         }
 
         void pop_context() { _context_stack.pop(); }
-        void push_context(const context_t& c) { _context_stack.push(c); }
-        void push_context(context_t&& c) { _context_stack.push(std::move(c)); }
+        // A new context starts without a current key, so elements of an array are never taken for the value of the key before the array.
+        void push_context(const context_t& c) { _context_stack.push(c); last_key = keys::none; }
+        void push_context(context_t&& c) { _context_stack.push(std::move(c)); last_key = keys::none; }
         [[nodiscard]] bool no_context() const { return _context_stack.empty(); }
         [[nodiscard]] const context_t& current_context() const { return _context_stack.top(); }
         [[nodiscard]] context_t& current_context() { return _context_stack.top(); }
@@ -152,9 +153,8 @@ namespace pdaaal::parsing {
         bool element_done() {
             if (!no_context() && current_context().is_array()) {
                 current_context().increment_index();
-            } else {
-                last_key = keys::none;
             }
+            last_key = keys::none;
             return true; // Allows for nice code at the use site.
         }
 
diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 80985c6..c0b20c4 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -165,6 +165,7 @@ namespace pdaaal::parsing {
         static constexpr bool expect_weight = W::is_weight;
 
         static constexpr context_t unknown_context = context_object<context_type::unknown, 0>();
+        static constexpr context_t unknown_array = context_array<context_type::unknown>();
         static constexpr context_t initial_context = context_object<context_type::initial, 1>();
         static constexpr context_t pda_context = context_object<context_type::pda, 1>();
         static constexpr context_t state_array = context_array<context_type::state_array>();
@@ -181,6 +182,11 @@ namespace pdaaal::parsing {
         bool current_wildcard = false;
         typename internal::PDA<W>::rule_t current_rule;
 
+        // Everything below a key we do not know is ignored.
+        [[nodiscard]] bool in_unknown() const {
+            return last_key == keys::unknown || (!no_context() && current_context_type() == context_type::unknown);
+        }
+
         void init() {
             if constexpr(embedded_parser) {
                 push_context(initial_context);
@@ -197,12 +203,13 @@ namespace pdaaal::parsing {
         }
 
         bool null() {
-            return last_key == keys::unknown ? element_done() : error_unexpected("null value");
+            return in_unknown() ? element_done() : error_unexpected("null value");
         }
         bool boolean(bool value) {
-            return last_key == keys::unknown ? element_done() : error_unexpected("boolean", value);
+            return in_unknown() ? element_done() : error_unexpected("boolean", value);
         }
         bool number_integer(number_integer_t value) {
+            if (in_unknown()) return element_done();
             if constexpr (expect_weight && W::is_vector && W::is_signed) {
                 if (!no_context() && current_context_type() == context_type::weight_array) {
                     if (value >= std::numeric_limits<typename W::type::value_type>::max()) {
@@ -218,8 +225,6 @@ namespace pdaaal::parsing {
                 }
             }
             switch (last_key) {
-                case keys::unknown:
-                    break;
                 case keys::weight:
                     if constexpr (expect_weight && !W::is_vector && W::is_signed) {
                         if (value >= std::numeric_limits<typename W::type>::max()) {
@@ -239,6 +244,7 @@ namespace pdaaal::parsing {
             return element_done();
         }
         bool number_unsigned(number_unsigned_t value) {
+            if (in_unknown()) return element_done();
             if constexpr (expect_weight && W::is_vector) {
                 if (!no_context() && current_context_type() == context_type::weight_array) {
                     if (value >= std::numeric_limits<typename W::type::value_type>::max()) {
@@ -265,22 +271,21 @@ namespace pdaaal::parsing {
                             return false;
                         }
                         current_rule._weight = value;
+                        break;
                     }
-                    break;
-                case keys::unknown:
-                    break;
                 default:
                     return error_unexpected("unsigned", value);
             }
             return element_done();
         }
         bool number_float(number_float_t value, const string_t& /*unused*/) {
-            return last_key == keys::unknown ? element_done() : error_unexpected("float", value);
+            return in_unknown() ? element_done() : error_unexpected("float", value);
         }
         bool string(string_t& value) {
             if (no_context()) {
                 return error_unexpected("string", value);
             }
+            if (in_unknown()) return element_done();
             switch (last_key) {
                 case keys::to:
                     if constexpr (use_state_names) {
@@ -291,7 +296,9 @@ namespace pdaaal::parsing {
                         return false;
                     }
                 case keys::pop:
-                    assert(value.empty()); // TODO: Should this be error?
+                    if (!value.empty()) {
+                        return error_unexpected("string", value, "The value of pop must be the empty string.");
+                    }
                     current_rule._operation = op_t::POP;
                     current_rule._op_label = std::numeric_limits<uint32_t>::max();
                     break;
@@ -308,8 +315,6 @@ namespace pdaaal::parsing {
                     current_rule._operation = op_t::PUSH;
                     current_rule._op_label = build_pda.insert_label(value);
                     break;
-                case keys::unknown:
-                    break;
                 default:
                 case keys::none:
                     return error_unexpected("string", value);
@@ -317,13 +322,17 @@ namespace pdaaal::parsing {
             return element_done();
         }
         bool binary(binary_t& /*val*/) {
-            return last_key == keys::unknown ? element_done() : error_unexpected("binary value");
+            return in_unknown() ? element_done() : error_unexpected("binary value");
         }
         bool start_object(std::size_t /*unused*/ = std::size_t(-1)) {
             if (no_context()) {
                 push_context(initial_context);
                 return true;
             }
+            if (in_unknown()) {
+                push_context(unknown_context);
+                return true;
+            }
             switch (current_context_type()) {
                 case context_type::state_array:
                     push_context(state_context);
@@ -352,9 +361,6 @@ namespace pdaaal::parsing {
                 case keys::from_label:
                     push_context(rule_context);
                     break;
-                case keys::unknown:
-                    push_context(unknown_context);
-                    break;
                 default:
                     error_unexpected("start of object");
                     return false;
@@ -458,6 +464,10 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
+            if (in_unknown()) {
+                push_context(unknown_array);
+                return true;
+            }
             switch (last_key) {
                 case keys::states:
                     if constexpr (use_state_names) {
@@ -471,9 +481,6 @@ namespace pdaaal::parsing {
                 case keys::from_label:
                     push_context(rule_array);
                     break;
-                case keys::unknown:
-                    push_context(unknown_context);
-                    break;
                 case keys::weight:
                     if constexpr (expect_weight && W::is_vector) {
                         push_context(weight_array);
-- 
2.43.0


From 3fe4d29e592406ce2593d764adf408d88e093622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:40 +0000
Subject: [PATCH 26/38] fix: unknown weight types were read as unweighted, and
 a vector weight type with a length was rejected

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index c0b20c4..0bd21eb 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -578,8 +578,7 @@ namespace pdaaal::parsing {
                 print_value(s, value) << "at index " << current_context().get_index() << " in " << type << " was expected to be at index " << index << "." << std::endl;
                 return false;
             }
-            current_context().increment_index();
-            return true;
+            return true; // element_done() increments the index.
         }
 
         template<typename T> struct weight_to_pda_sax_handler;
@@ -648,6 +647,15 @@ namespace pdaaal::parsing {
             }
         }
 
+        bool set_weight_type(const string_t& value) {
+            if (value != "uint" && value != "int" && (value != "none" || use_weight_array)) {
+                errors() << "error: Unrecognized weight type: \"" << value << "\"." << std::endl;
+                return false;
+            }
+            weight_str = value;
+            return element_done();
+        }
+
         bool null() {
             return error_unexpected("null value");
         }
@@ -663,7 +671,7 @@ namespace pdaaal::parsing {
             return error_unexpected("integer", value);
         }
         bool number_unsigned(number_unsigned_t value) {
-            if (current_context_type() == context_type::weight_array) {
+            if (!no_context() && current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,1>(value)) return false;
                 weight_array_size.emplace(value);
                 return element_done();
@@ -679,12 +687,10 @@ namespace pdaaal::parsing {
             }
             if (current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,0>(value)) return false;
-                weight_str = value;
-                return element_done();
+                return set_weight_type(value);
             }
             if (last_key == keys::weight_type) {
-                weight_str = value;
-                return element_done();
+                return set_weight_type(value);
             }
             return error_unexpected("string", value);
         }
@@ -742,6 +748,10 @@ namespace pdaaal::parsing {
                 errors() << "error: Unexpected end of array." << std::endl;
                 return false;
             }
+            if (weight_str.empty()) {
+                errors() << "error: Missing weight type in " << current_context_type() << "." << std::endl;
+                return false;
+            }
             pop_context();
             return element_done();
         }
-- 
2.43.0


From de87950b604013e4f07807fd61d1acd7aceadef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:07 +0000
Subject: [PATCH 27/38] fix: indexed states without rules were dropped at the
 end of the list, and the largest state index crashed the reader

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 0bd21eb..2765410 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -261,6 +261,10 @@ namespace pdaaal::parsing {
                         errors() << "error: Rule destination was numeric: " << value << ", but string state names are used." << std::endl;
                         return false;
                     } else {
+                        if (value == std::numeric_limits<size_t>::max()) {
+                            errors() << "error: State index " << value << " is too large." << std::endl;
+                            return false;
+                        }
                         current_rule._to = value;
                         break;
                     }
@@ -441,6 +445,7 @@ namespace pdaaal::parsing {
             switch (current_context_type()) {
                 case context_type::state:
                     if constexpr (!use_state_names) {
+                        build_pda.insert_state(current_from_state); // Also if there are no rules from or to this state.
                         ++current_from_state;
                     }
                     break;
-- 
2.43.0


From f267e46c4133802e266f4255e032e45b6c21c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:33 +0000
Subject: [PATCH 28/38] fix: P-automaton reader crashed on edges without three
 elements and on numbers outside an object, accepted a repeated key, and
 confused named and numbered extra states

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 14eb04f..8c48bbd 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -129,6 +129,8 @@ namespace pdaaal::parsing {
         automaton_t automaton;
 
         std::unordered_map<size_t,size_t> extra_state_map;
+        std::unordered_map<std::string,size_t> extra_name_map;
+        bool got_initial = false;
 
         std::string current_label;
         size_t current_from_state = 0;
@@ -170,14 +172,16 @@ namespace pdaaal::parsing {
         }
         std::optional<size_t> string_state(const string_t& state) {
             if constexpr(std::is_same_v<pda_state_t,std::string>) {
-                auto [exists, id] = automaton.exists_state(state);
-                if (!exists) {
-                    id = automaton.add_state(false, false); // accepting is set later.
-#ifndef NDEBUG
-                    auto id2 =
-#endif
-                            automaton.insert_state(state);
-                    assert(id == id2);
+                auto [exists, id] = pda.exists_state(state);
+                if (exists) return id;
+                if (auto it = extra_name_map.find(state); it != extra_name_map.end()) {
+                    return it->second;
+                }
+                id = automaton.add_state(false, false); // accepting is set later.
+                extra_name_map.emplace(state,id);
+                // The automaton can only record the names of the extra states before the first one without a name.
+                if (extra_state_map.empty()) {
+                    automaton.insert_state(state);
                 }
                 return id;
             } else {
@@ -199,6 +203,9 @@ namespace pdaaal::parsing {
         bool boolean(bool value) { return error_unexpected("boolean", value); }
         bool number_integer(number_integer_t value) { return error_unexpected("integer", value); }
         bool number_unsigned(number_unsigned_t value) {
+            if (no_context()) {
+                return error_unexpected("unsigned", value);
+            }
             switch (current_context_type()) {
                 case context_type::initial_array:
                     if constexpr(std::is_same_v<pda_state_t,size_t>) {
@@ -315,6 +322,11 @@ namespace pdaaal::parsing {
                         if constexpr(require_initial) {
                             return handle_key<context_type::p_automaton,FLAG_3,keys::initial>();
                         } else {
+                            if (got_initial) {
+                                errors() << "Duplicate definition of key: \"initial\" in " << current_context_type() << " object." << std::endl;
+                                return false;
+                            }
+                            got_initial = true;
                             last_key = keys::initial;
                         }
                     } else {
@@ -377,6 +389,10 @@ namespace pdaaal::parsing {
             }
             switch (current_context_type()) {
                 case context_type::edge_context:
+                    if (current_context().get_index() != 3) {
+                        errors() << "error: An edge should contain exactly three elements, but has " << current_context().get_index() << "." << std::endl;
+                        return false;
+                    }
                     assert(current_from_state != std::numeric_limits<size_t>::max());
                     assert(current_to_state != std::numeric_limits<size_t>::max());
                     if (current_label.empty()) {
-- 
2.43.0


From ca84422e86da6fd04dc95f9e602fb8dcc9da9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:31 +0000
Subject: [PATCH 29/38] fix: a P-automaton without accepting states was written
 without the required key

---
 src/include/pdaaal/PAutomaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index f87dc8a..ed7eb70 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -139,6 +139,10 @@ namespace pdaaal {
     void to_json_impl(json& j, const PAutomaton<label_t,W,state_t,skip_state_mapping,trace_info_type>& automaton) {
         j = json::object();
         size_t num_pda_states = automaton.pda().states().size();
+        if constexpr(with_initial) {
+            j["initial"] = json::array();
+        }
+        j["accepting"] = json::array();
         json j_edges = json::array();
         for (const auto& state : automaton.states()) {
             json j_from;
-- 
2.43.0


From 0d4e5745673a6825b83b25d82b6afcd897985194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:45 +0000
Subject: [PATCH 30/38] fix: the command line tool aborted on every error
 (failed assertion or uncaught exception) instead of reporting it

---
 src/pdaaal-bin/Verifier.h |  6 ------
 src/pdaaal-bin/main.cpp   | 11 ++++++++++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pdaaal-bin/Verifier.h b/src/pdaaal-bin/Verifier.h
index 8c9cd57..c2bf0cf 100644
--- a/src/pdaaal-bin/Verifier.h
+++ b/src/pdaaal-bin/Verifier.h
@@ -120,7 +120,6 @@ namespace pdaaal {
                                         json_out.entry("weight", weight);
                                     }
                                 } else {
-                                    assert(false);
                                     throw std::runtime_error("Cannot use shortest trace option for unweighted PDA.");
                                 }
                                 break;
@@ -155,7 +154,6 @@ namespace pdaaal {
                                         json_out.entry("weight", weight);
                                     }
                                 } else {
-                                    assert(false);
                                     throw std::runtime_error("Cannot use shortest trace option for unweighted PDA.");
                                 }
                                 break;
@@ -188,7 +186,6 @@ namespace pdaaal {
                                         json_out.entry("weight", weight);
                                     }
                                 } else {
-                                    assert(false);
                                     throw std::runtime_error("Cannot use shortest trace option for unweighted PDA.");
                                 }
                                 break;
@@ -238,7 +235,6 @@ namespace pdaaal {
                                 }
                             }
                         } else {
-                            assert(false);
                             throw std::runtime_error("Cannot use fixed-point (longest or shortest) trace option for unweighted PDA.");
                         }
                         break;
@@ -273,7 +269,6 @@ namespace pdaaal {
                                 }
                             }
                         } else {
-                            assert(false);
                             throw std::runtime_error("Cannot use fixed-point (longest or shortest) trace option for unweighted PDA.");
                         }
                         break;
@@ -311,7 +306,6 @@ namespace pdaaal {
                                 }
                             }
                         } else {
-                            assert(false);
                             throw std::runtime_error("Cannot use fixed-point (longest or shortest) trace option for unweighted PDA.");
                         }
                         break;
diff --git a/src/pdaaal-bin/main.cpp b/src/pdaaal-bin/main.cpp
index 41684bb..2f69050 100644
--- a/src/pdaaal-bin/main.cpp
+++ b/src/pdaaal-bin/main.cpp
@@ -85,7 +85,7 @@ void run(parsing::Parsing& parsing, Verifier& verifier, main_output& output) {
     }, instance_variant);
 }
 
-int main(int argc, const char** argv) {
+int run_main(int argc, const char** argv) {
     po::options_description opts;
     opts.add_options()
             ("help,h", "produce help message")
@@ -124,3 +124,12 @@ int main(int argc, const char** argv) {
 
     return 0;
 }
+
+int main(int argc, const char** argv) {
+    try {
+        return run_main(argc, argv);
+    } catch (const std::exception& e) {
+        std::cerr << e.what() << std::endl;
+        return -1;
+    }
+}
-- 
2.43.0


From 7a1f824a5f44cc8dddcc6886ccbadfced78dc916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:33 +0000
Subject: [PATCH 31/38] fix: the abstraction of a complemented label set
 dropped the classes it had to keep, losing concrete runs

---
 src/include/pdaaal/cegar/AbstractionPDA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/cegar/AbstractionPDA.h b/src/include/pdaaal/cegar/AbstractionPDA.h
index 5b9bd18..87c106b 100644
--- a/src/include/pdaaal/cegar/AbstractionPDA.h
+++ b/src/include/pdaaal/cegar/AbstractionPDA.h
@@ -65,7 +65,7 @@ namespace pdaaal {
                 abstract_labels.erase(std::remove_if(abstract_labels.begin(), abstract_labels.end(), [this, &labels](const auto& abstract_label){
                     auto concrete = _label_abstraction.get_concrete_values(abstract_label);
                     std::sort(concrete.begin(), concrete.end());
-                    return std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
+                    return !std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
                 }), abstract_labels.end());
             }
             return std::vector<uint32_t>(abstract_labels.begin(), abstract_labels.end()); // TODO: This is not optimal. Label type in PDA should be size_t instead of uint32_t. This is a change many places...
-- 
2.43.0


From d5c4b17ad7570bd55e410530ab7a0e20f9ca6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:33 +0000
Subject: [PATCH 32/38] fix: factories accessed states out of bounds when an
 initial or accepting state has no rules

---
 src/include/pdaaal/PDAFactory.h           | 2 ++
 src/include/pdaaal/cegar/AbstractionPDA.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/include/pdaaal/PDAFactory.h b/src/include/pdaaal/PDAFactory.h
index bb13f7a..25642c7 100644
--- a/src/include/pdaaal/PDAFactory.h
+++ b/src/include/pdaaal/PDAFactory.h
@@ -57,6 +57,8 @@ namespace pdaaal {
         // NFAs must be already compiled before passing them to this function.
         solver_instance_t compile(const NFA<label_t>& initial_headers, const NFA<label_t>& final_headers) {
             build_pda();
+            for (auto state : initial()) { _temp_pda.insert_state(state); } // Also if there are no rules from or to this state.
+            for (auto state : accepting()) { _temp_pda.insert_state(state); }
             return solver_instance_t{pda_t{std::move(_temp_pda)}, initial_headers, initial(), final_headers, accepting()};
         }
     protected:
diff --git a/src/include/pdaaal/cegar/AbstractionPDA.h b/src/include/pdaaal/cegar/AbstractionPDA.h
index 87c106b..a0ecd66 100644
--- a/src/include/pdaaal/cegar/AbstractionPDA.h
+++ b/src/include/pdaaal/cegar/AbstractionPDA.h
@@ -47,6 +47,8 @@ namespace pdaaal {
         explicit AbstractionPDA(RefinementMapping<label_t>&& mapping)
         : _label_abstraction(std::move(mapping)) { };
 
+        void insert_state(size_t state) { this->add_state(state); }
+
         auto move_label_map() { return std::move(_label_abstraction); }
 
         [[nodiscard]] virtual size_t number_of_labels() const {
-- 
2.43.0


From 484e88d0f64a4bdfbd0150374dfb9db22d9dab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:33 +0000
Subject: [PATCH 33/38] fix: a repeated initial state made the P-automaton lose
 the empty stack of all later ones

---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index e02c9d8..d6e6fcb 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -211,7 +211,7 @@ namespace pdaaal::internal {
             for (size_t i = 0; i < size; ++i) {
                 if (j < special_initial_states.size() && special_initial_states[j] == i) {
                     add_state(true, special_accepting);
-                    ++j;
+                    do { ++j; } while (j < special_initial_states.size() && special_initial_states[j] == i); // A state may be repeated.
                 } else {
                     add_state(true, false);
                 }
-- 
2.43.0


From 7ee8295201c3f6977d77671e3a4e1c0808929990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:26 +0000
Subject: [PATCH 34/38] fix: keep the CRLF line endings of workset.h (an
 earlier fix converted them)

---
 src/include/pdaaal/utils/workset.h | 188 ++++++++++++++---------------
 1 file changed, 94 insertions(+), 94 deletions(-)

diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index 5b44b18..2beb414 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -1,94 +1,94 @@
-/* 
- * This program is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- * 
- * This program is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- * 
- * You should have received a copy of the GNU General Public License
- * along with this program.  If not, see <http://www.gnu.org/licenses/>.
- */
-
-/*
- *  Copyright Morten K. Schou
- */
-
-/* 
- * File:   workset.h
- * Author: Morten K. Schou <morten@h-schou.dk>
- *
- * Created on 23-08-2021.
- */
-
-#ifndef PDAAAL_WORKSET_H
-#define PDAAAL_WORKSET_H
-
-#include <cassert>
-#include <stack>
-#include <queue>
-
-namespace pdaaal {
-
-    template<typename Derived, typename Elem, bool enforce_set = true>
-    class fixed_point_workset {
-        bool _done = false;
-        size_t _round_limit;
-        size_t _rounds = 0;
-        std::vector<Elem> _workset;
-        std::vector<Elem> _next_workset;
-    public:
-        explicit fixed_point_workset(size_t round_limit = 0) : _round_limit(round_limit) { };
-
-        template<bool change_is_bottom = false>
-        bool step() {
-            if (_workset.empty()) {
-                ++_rounds;
-                if (_next_workset.empty()) {
-                    _done = true;
-                    return false;
-                }
-                if constexpr (enforce_set) { // Remove duplicates, if this is not ensured somewhere else.
-                    std::sort(_next_workset.begin(), _next_workset.end());
-                    _next_workset.erase(std::unique(_next_workset.begin(), _next_workset.end()), _next_workset.end());
-                }
-                std::swap(_workset, _next_workset);
-            }
-
-            auto current = _workset.back();
-            _workset.pop_back();
-
-            if (!static_cast<Derived*>(this)->template step_with<change_is_bottom>(std::move(current))) {
-                _done = true;
-                return false;
-            }
-            return true;
-        }
-        void finalize() {
-            _rounds = 0; // Reset _round count and run again, this time changes gives -inf weight.
-            while (!done()) {
-                step<true>();
-            }
-        }
-        [[nodiscard]] bool done() const {
-            return _done || (_workset.empty() && _rounds >= _round_limit); // Only stop between rounds: the last round must be completed.
-        }
-        void run() {
-            while(!done()) {
-                step();
-            }
-            finalize();
-        }
-    protected:
-        template<typename... Args>
-        auto emplace(Args&&... args){
-            return _next_workset.emplace_back(std::forward<Args>(args)...);
-        }
-        void set_round_limit(size_t new_round_limit) { _round_limit = new_round_limit; }
-    };
-}
-
-#endif //PDAAAL_WORKSET_H
+/* 
+ * This program is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ * 
+ * This program is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ * 
+ * You should have received a copy of the GNU General Public License
+ * along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+/*
+ *  Copyright Morten K. Schou
+ */
+
+/* 
+ * File:   workset.h
+ * Author: Morten K. Schou <morten@h-schou.dk>
+ *
+ * Created on 23-08-2021.
+ */
+
+#ifndef PDAAAL_WORKSET_H
+#define PDAAAL_WORKSET_H
+
+#include <cassert>
+#include <stack>
+#include <queue>
+
+namespace pdaaal {
+
+    template<typename Derived, typename Elem, bool enforce_set = true>
+    class fixed_point_workset {
+        bool _done = false;
+        size_t _round_limit;
+        size_t _rounds = 0;
+        std::vector<Elem> _workset;
+        std::vector<Elem> _next_workset;
+    public:
+        explicit fixed_point_workset(size_t round_limit = 0) : _round_limit(round_limit) { };
+
+        template<bool change_is_bottom = false>
+        bool step() {
+            if (_workset.empty()) {
+                ++_rounds;
+                if (_next_workset.empty()) {
+                    _done = true;
+                    return false;
+                }
+                if constexpr (enforce_set) { // Remove duplicates, if this is not ensured somewhere else.
+                    std::sort(_next_workset.begin(), _next_workset.end());
+                    _next_workset.erase(std::unique(_next_workset.begin(), _next_workset.end()), _next_workset.end());
+                }
+                std::swap(_workset, _next_workset);
+            }
+
+            auto current = _workset.back();
+            _workset.pop_back();
+
+            if (!static_cast<Derived*>(this)->template step_with<change_is_bottom>(std::move(current))) {
+                _done = true;
+                return false;
+            }
+            return true;
+        }
+        void finalize() {
+            _rounds = 0; // Reset _round count and run again, this time changes gives -inf weight.
+            while (!done()) {
+                step<true>();
+            }
+        }
+        [[nodiscard]] bool done() const {
+            return _done || (_workset.empty() && _rounds >= _round_limit); // Only stop between rounds: the last round must be completed.
+        }
+        void run() {
+            while(!done()) {
+                step();
+            }
+            finalize();
+        }
+    protected:
+        template<typename... Args>
+        auto emplace(Args&&... args){
+            return _next_workset.emplace_back(std::forward<Args>(args)...);
+        }
+        void set_round_limit(size_t new_round_limit) { _round_limit = new_round_limit; }
+    };
+}
+
+#endif //PDAAAL_WORKSET_H
-- 
2.43.0


From abd2a1031d71581cbe5a6601a80c1c64a3e7ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:27 +0000
Subject: [PATCH 35/38] fix: rule traces of post* reported a push rule of
 another state (with its weight) when two states push the same label to the
 same target

---
 src/include/pdaaal/internal/PdaSaturation.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 0c6650e..491b37b 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1157,7 +1157,10 @@ namespace pdaaal::internal {
                             trace_label = get_trace_label<avoid_loop>(from2, label2, to2);
                             assert(!trace_label.is_null());
                             _path.emplace(trace_label._state, trace_label._label);
-                            break;
+                            // Rules from different states can share the first edge, so the rule applied is the one that made the second edge.
+                            const auto& [push_rule, push_labels] = _automaton.pda().states()[trace_label._state]._rules[trace_label._rule_id];
+                            assert(from == push_rule._to && label == push_rule._op_label);
+                            return rule_t(trace_label._state, trace_label._label, push_rule);
                     }
                     assert(from == rule._to);
                     return rule_t(trace_label._state, trace_label._label, rule);
-- 
2.43.0


From e30fde135bf72da75769eb6a28d4e40096b544c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:40 +0000
Subject: [PATCH 36/38] fix: pre_star_accepts_no_ET could not be instantiated

pre_star takes the trace type as its first template argument.
---
 src/include/pdaaal/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index b841b05..8daf8ca 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -247,7 +247,7 @@ namespace pdaaal {
         template <typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            pre_star<W,false>(instance.automaton());
+            pre_star<Trace_Type::Any,W,false>(instance.automaton());
             return instance.template initialize_product<false,false>();
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
-- 
2.43.0


From 4b5800a4785f41bc9db12b634c0aee8543c7a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:40 +0000
Subject: [PATCH 37/38] fix: post_star_accepts_no_ET ignored the requested
 trace type

With Trace_Type::Shortest the saturation was not weighted and the product
had no shortest back edges, so get_trace returned a bogus trace and weight.
---
 src/include/pdaaal/Solver.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 8daf8ca..3b3518a 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -252,8 +252,9 @@ namespace pdaaal {
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
         static bool post_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            post_star(instance.automaton());
-            return instance.template initialize_product<false,false>();
+            post_star<trace_type>(instance.automaton());
+            return instance.template initialize_product<false,false,trace_type>() ||
+                   instance.product_automaton().has_accepting_state(); // With trace_type==Shortest the solution may be heavier than zero.
         }
 
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W, TraceInfoType trace_info_type>
-- 
2.43.0


From 3f5719e5913a1978c638b6a17f26f62bc400bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:20 +0000
Subject: [PATCH 38/38] fix: the legacy automaton reader mixed up indexed
 states when an edge refers to a later extra state

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 8c48bbd..36bbdde 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -509,6 +509,8 @@ namespace pdaaal::parsing {
                 return id;
             };
 
+            // Add the extra states in order, before an edge refers to a later one.
+            iterate_states([&state_to_id](const state_t& state, const json&){ state_to_id(state); });
             iterate_states([&state_to_id,&automaton,&state_mapping,&pda](const state_t& state, const json& j_state){
                 size_t from = state_to_id(state);
                 for (const auto& edge : j_state["edges"]) {
-- 
2.43.0

