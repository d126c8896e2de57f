#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so long texts stay readable).  python3 gen_props.py > properties.jsonl
import json
P=[]
S="src/include/pdaaal/"
B="src/pdaaal-bin/"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Reachability verdict is correct for every engine",
 "For any pushdown system and any regular sets of initial and final configurations, each of the search engines (forward, backward, bidirectional), with any trace option it supports, answers yes exactly when some initial configuration can reach some final configuration by zero or more rule applications. Early termination never changes the answer, and all engines agree.",
 ["inputs","programs","configurations"],
 "every pushdown system (pop, swap, push, no-op rules; plain, multi-label and wildcard preconditions), every pair of initial/final automata, every engine and trace option",
 "The verification tests run a dozen fixed systems; a saturation rule that is wrong only for one combination of operations (e.g. push whose continuation is discovered after a pop) needs a specific rule set and discovery order.",
 [S+"Solver.h",S+"internal/PdaSaturation.h",S+"PAutomatonProduct.h",S+"SolverInstance.h"],
 [("pre*, post*, dual* drivers",S+"Solver.h"),("saturation engines",S+"internal/PdaSaturation.h"),("on-the-fly product with early termination",S+"PAutomatonProduct.h")],
 observe=["Solver::{post,pre}_star_accepts","Solver::dual_search_accepts"])

p("C02","Saturation yields exactly the predecessors or successors",
 "After backward saturation of an automaton it accepts exactly the configurations that can reach its original set, and after forward saturation exactly the configurations reachable from its original set. This holds for configurations of any stack height, including the empty stack, and membership queries (yes/no and accepting path) report it.",
 ["inputs","programs"],
 "every pushdown system, every starting automaton, every queried configuration",
 "Tests check a handful of memberships on three textbook systems; exactness quantifies over all configurations.",
 [S+"internal/PdaSaturation.h",S+"internal/PAutomaton.h",S+"Solver.h"],
 [("edge insertion and relation bookkeeping",S+"internal/PdaSaturation.h"),("acceptance",S+"internal/PAutomaton.h")],
 observe=["PAutomaton::accepts / accept_path after Solver::pre_star / post_star"])

p("C03","Every returned trace is a genuine run",
 "Whenever an engine answers yes and a trace is requested, the trace starts in an initial configuration, ends in a final configuration, and each step from one configuration to the next is the application of a rule of the system. The rule-level trace, together with the reported initial and final stacks and automaton paths, describes such a run as well.",
 ["inputs","programs","configurations"],
 "every yes-instance, every engine, every trace option that returns a finite trace",
 "Tests compare a few traces of hand-made instances; reconstruction depends on which derivation was recorded first for every edge on the path.",
 [S+"internal/PdaSaturation.h",S+"Solver.h",S+"internal/PAutomaton.h",S+"PAutomatonProduct.h",S+"AutomatonPath.h"],
 [("trace annotations on edges",S+"internal/PAutomaton.h"),("trace reconstruction",S+"internal/PdaSaturation.h"),("path search in the product",S+"PAutomatonProduct.h")],
 observe=["Solver::get_trace","Solver::get_trace_dual_search","Solver::get_rule_trace_and_paths"])

p("C04","Shortest trace is optimal and its weight is the reported one",
 "With non-negative weights, a shortest-trace query by the forward, backward or bidirectional engine reports the minimum total rule weight over all runs from an initial to a final configuration. The returned trace is a run with exactly that total weight.",
 ["inputs","programs","configurations"],
 "every weighted pushdown system with non-negative weights (scalar or vector), every initial/final pair, every engine",
 "Optimality is a claim about all runs; tests check the weight of a few instances where the first derivation found is already the best.",
 [S+"internal/PdaSaturation.h",S+"Solver.h",S+"PAutomatonProduct.h",S+"internal/PAutomaton.h"],
 [("priority worksets and relaxation",S+"internal/PdaSaturation.h"),("best-weight back edges and early termination in the product",S+"PAutomatonProduct.h")],
 observe=["Solver::get_trace<Shortest>","Solver::get_trace_dual_search<Shortest>"])

p("C05","Longest and fixed-point shortest weights are exact, infinities included",
 "A longest-trace query reports the supremum, and a fixed-point shortest query the infimum, of total rule weight over all runs from an initial to a final configuration, for signed or unsigned weights and for forward, backward and interleaved engines. Infinity is reported exactly when that bound is not attained by any finite value, and otherwise the returned trace is a run with the reported weight.",
 ["inputs","programs","configurations"],
 "every weighted pushdown system, signed or unsigned, every initial/final pair, both optimisation directions and all three engines",
 "Deciding unboundedness depends on the number of rounds needed by the particular system; tests contain a few loops.",
 [S+"internal/PdaSaturation.h",S+"internal/PAutomatonAlgorithms.h",S+"utils/workset.h",S+"Solver.h"],
 [("round-limited fixed point",S+"utils/workset.h"),("fixed-point saturations",S+"internal/PdaSaturation.h"),("fixed point on the product automaton",S+"internal/PAutomatonAlgorithms.h")],
 observe=["Solver::*_fixed_point_accepts + get_trace<Longest|ShortestFixedPoint>"])

p("C06","P-automata describe exactly the configurations they were built from",
 "An automaton built from one configuration accepts just that configuration; built from control states and a stack language it accepts exactly those states with stacks of that language; the union of two automata accepts exactly the union, and a copy accepts the same. Complemented label sets mean all other labels, and a reported accepting path really is an accepting path for the queried stack (of least weight when the shortest is asked for).",
 ["inputs","histories"],
 "every stack language, set of control states, sequence of construction operations and queried configuration",
 "Tests build a few automata; state-id offsets, empty stacks and complemented edges interact only for particular inputs.",
 [S+"internal/PAutomaton.h",S+"PAutomaton.h"],
 [("constructors, union, copying, acceptance",S+"internal/PAutomaton.h")],
 observe=["PAutomaton constructors, or_extend, accepts, accept_path, find_path"])

p("C07","Regular-expression operations on automata give the right language",
 "Building automata from label sets (plain, complemented, wildcard) with concatenation, union, optional, one-or-more and zero-or-more yields, for every nesting of these operations, exactly the language of the corresponding regular expression. Copying, assigning or moving an automaton preserves its language, and the successor and label queries agree with it.",
 ["inputs","histories"],
 "every expression built from the operations, to any nesting, and every word",
 "Tests walk two or three automata by hand; the interaction of nested repetitions, optionals and concatenation is a property of all expressions.",
 [S+"NFA.h"],
 [("concat/or/question/plus/star, epsilon closure, copying",S+"NFA.h")],
 observe=["NFA::successor, empty_accept, has_as_successor, intersect_edge_labels"])

p("C08","Textual stack expressions mean what the grammar says",
 "A textual stack expression (label lists, complemented lists, wildcard, grouping, alternation, juxtaposition, the repetition operators, comments and white space) is parsed to an automaton for exactly the language the grammar assigns to it, and a textual configuration set to exactly that set of configurations. Text outside the grammar, or naming a control state the system does not have, is rejected with an error, never silently accepted.",
 ["inputs"],
 "every text over the grammar's alphabet, well-formed or not",
 "Tests parse a few expressions; precedence and rejection are claims about all strings.",
 [S+"parsing/NfaParserGrammar.h",S+"parsing/NfaParser.cpp",S+"parsing/NfaParser.h",B+"parsing/PAutomatonParser.h"],
 [("PEG grammar and builder",S+"parsing/NfaParserGrammar.h"),("configuration-set grammar",B+"parsing/PAutomatonParser.h")],
 observe=["NfaParser::parse_string","PAutomatonParser::parse_string"])

p("C09","Reduction preserves reachability of the terminal state",
 "Reducing a pushdown system, at any aggressiveness level, never changes whether the terminal state is reachable from the initial state (nor the lightest weight of doing so), and every run of the reduced system is a run of the original one. Reduction at a higher level never keeps more rules than it was given.",
 ["inputs","programs"],
 "every pushdown system whose initial state only pushes, every aggressiveness level",
 "One test reduces one system; removing a rule is right or wrong depending on every way its labels can reach the top of the stack.",
 [S+"internal/Reducer.cpp",S+"internal/Reducer.h",S+"internal/PDA.h",S+"internal/PDA.cpp"],
 [("forward/backward pruning, top-of-stack analysis",S+"internal/Reducer.h"),("label-set operations",S+"internal/PDA.cpp")],
 observe=["Reducer::reduce"])

p("C10","Weight domains obey the laws the searches rely on",
 "For every weight type, minimising or maximising, comparison is a strict weak order, addition is associative, commutative, monotone and has zero as neutral element as long as the exact sums are representable (it saturates beyond), the unreachable element absorbs addition and is worse than everything, and the unbounded element absorbs finite values and is at least as good as everything. Composite weights compare lexicographically with missing components counted as zero, and linear combinations evaluate to the weighted sum.",
 ["inputs"],
 "every pair and triple of weights of every supported type (signed/unsigned scalars, fixed arrays, variable-length vectors), both directions",
 "Tests compare a few vectors; the laws quantify over all triples, including extreme values and vectors of different length.",
 [S+"Weight.h"],
 [("less/add/bottom/max for each weight shape",S+"Weight.h")],
 observe=["min_weight, max_weight, linear_weight_function, ordered_weight_function"])

p("C11","Container and workset operations behave like abstract sets and maps",
 "After any sequence of insertions, updates, lookups, copies, moves and conversions, the nested ordered and hashed collections contain exactly the elements an abstract map would, look-ups return them, and the ordered ones iterate in order. The prioritised workset returns elements best-first, each pending element once, with its best priority.",
 ["histories"],
 "every operation sequence up to the bound, over every container flavour",
 "Tests perform one insertion order each; index arithmetic and hints depend on the history.",
 [S+"utils/fut_set.h",S+"utils/vector_set.h",S+"utils/more_algorithms.h",S+"utils/workset.h"],
 [("nested set/map",S+"utils/fut_set.h"),("sorted vectors",S+"utils/vector_set.h"),("priority workset, merge-style algorithms",S+"utils/more_algorithms.h")],
 observe=["fut::set, vector_set, vector_map, priority_set, is_disjoint"])

p("C12","Rule storage preserves exactly the rules that were added",
 "After adding any sequence of rules (single label, several labels, wildcard), the system contains exactly the union of what was added: rules that differ only in precondition are merged without losing or inventing labels, wildcards cover all labels, and weights are kept apart. Predecessor information, state count, removal of a state's rules and conversion from the building to the solving representation are consistent with that set.",
 ["histories","inputs"],
 "every sequence of rule additions, in every order, and either storage representation",
 "Tests add a handful of rules in one order; merging depends on order and on label subsets.",
 [S+"internal/PDA.h",S+"internal/PDA.cpp",S+"PDA.h"],
 [("label sets: merge, intersect, contains",S+"internal/PDA.cpp"),("rule insertion and conversion",S+"internal/PDA.h"),("typed rules and label mapping",S+"PDA.h")],
 observe=["PDA::add_rule, add_wildcard_rule, states(), all_rules()"])

p("C13","Automaton paths are faithful stacks of edges",
 "A path built from states and labels, and modified by any sequence of pushes, pops, splits and removal of a leading empty step, always reports the front edge, states, labels, stack and size that the corresponding abstract edge sequence has. Two paths are equal exactly when those sequences are, and splitting a path over pairs projects every state to the right component.",
 ["histories"],
 "every sequence of path operations, over single and paired states",
 "Tests check one path; off-by-one errors show only for particular lengths or empty steps.",
 [S+"AutomatonPath.h"],
 [("edge stack stored in reverse",S+"AutomatonPath.h")],
 observe=["AutomatonPath public interface"])

p("C14","Abstraction refinements separate what they must and lose nothing",
 "A refinement computed from concrete pairs that were spuriously confused assigns every involved element to exactly one class so that no matching pair and no mismatching pair fall into the same classes, and combining refinements keeps every earlier and newly requested separation. Applying a refinement to a mapping keeps every concrete value in exactly one class, only ever splits the refined class, and separates the values as requested.",
 ["inputs","histories"],
 "every set of matching and mismatching pairs, every sequence of combined refinements and mapping updates",
 "No test checks the separation property itself; it depends on the overlap pattern of all sets involved.",
 [S+"cegar/Refinement.h",S+"cegar/AbstractionMapping.h"],
 [("greedy bucket assignment, combine",S+"cegar/Refinement.h"),("refinable mapping",S+"cegar/AbstractionMapping.h")],
 observe=["make_refinement, Refinement::combine, HeaderRefinement::combine, RefinementMapping::refine"])

p("C15","Abstraction-refinement solving agrees with direct solving",
 "For any concrete pushdown system and any initial abstraction of its states and labels, abstraction-refinement solving terminates and finds a run exactly when the concrete system has one from an initial to a final header. The run it returns is a run of the concrete system.",
 ["inputs","programs","configurations"],
 "every small concrete system, every initial state/label abstraction, each search engine",
 "Tests solve a few systems with one abstraction; soundness depends on every spurious counterexample met on the way.",
 [S+"cegar/CegarPdaFactory.h",S+"cegar/AbstractionPDA.h",S+"cegar/AbstractionPAutomaton.h",S+"cegar/AbstractionSolverInstance.h",S+"cegar/AbstractionMapping.h",S+"cegar/Refinement.h"],
 [("counterexample reconstruction with symbolic headers",S+"cegar/CegarPdaFactory.h"),("over-approximating abstraction",S+"cegar/AbstractionPDA.h")],
 observe=["CEGAR::cegar_solve"])

p("C16","Problem instances survive a write-read round trip",
 "Writing a pushdown system, a configuration automaton or a whole problem instance as JSON and reading it back gives a system with the same rules, weights and names and automata accepting the same configurations. Reading a JSON document yields exactly the rules and edges written in it, for named and indexed states and for every weight type.",
 ["inputs","configurations"],
 "every pushdown system and automaton up to the bound, every combination of state naming and weight type",
 "Tests parse a few fixed documents; name/index offsets, wildcard and no-op rules interact with serialisation.",
 [B+"parsing/PdaJsonParser.h",B+"parsing/PAutomatonJsonParser.h",B+"parsing/SolverInstanceJsonParser.h",S+"PDA.h",S+"PAutomaton.h",S+"PAutomatonProduct.h",S+"utils/SaxHandlerHelpers.h"],
 [("SAX handlers",B+"parsing/PdaJsonParser.h"),("serialisation",S+"PDA.h")],
 observe=["to_json; PdaJsonParser, PAutomatonJsonParser, SolverInstanceJsonParser"])

p("C17","Malformed problem instances are rejected, well-formed ones accepted",
 "A JSON document that lacks a required key, repeats a key of which one is allowed, uses a value of the wrong type, an out-of-range weight or an unexpected structure is rejected with an error that is reported to the caller, and a document of the documented format is accepted whatever the order of its keys. Reading never crashes, hangs or silently returns a partial instance.",
 ["inputs"],
 "every single and double structural mutation of every template document, every key order",
 "Tests read well-formed documents; rejection is a claim about all other documents.",
 [B+"parsing/PdaJsonParser.h",B+"parsing/PAutomatonJsonParser.h",B+"parsing/SolverInstanceJsonParser.h",B+"parsing/SaxHandlerDispatch.h",S+"utils/SaxHandlerHelpers.h",S+"utils/flags.h"],
 [("context stack with required-key flags",S+"utils/SaxHandlerHelpers.h"),("flags",S+"utils/flags.h"),("handler dispatch",B+"parsing/SaxHandlerDispatch.h")],
 observe=["parse functions: exception or result"])

p("C18","The product of two automata accepts exactly the common configurations",
 "The product built for two automata over the same system recognises emptiness of their intersection correctly, and the path it reports is an accepting path in both for the same stack. Extending either automaton edge by edge, in any order, gives the same answer as building the product from the extended automata.",
 ["inputs","histories"],
 "every pair of automata up to the bound (empty-word edges included), every order in which edges are announced",
 "Tests construct products only through full solver runs.",
 [S+"PAutomatonProduct.h",S+"internal/PAutomaton.h"],
 [("reachable-product construction and incremental edge insertion",S+"PAutomatonProduct.h")],
 observe=["initialize_product, add_edge_product, add_initial_edge, add_final_edge, find_path"])

p("C19","The command-line verifier reports the solver's answer faithfully",
 "For every instance file, engine and trace option, the command-line tool emits one well-formed JSON document whose result, weight (or infinity) and trace are those of the problem, and all engines and trace options give the same result. Options the instance cannot support are refused with an error instead of an answer.",
 ["inputs","configurations"],
 "every small instance, every engine x trace-option combination, weighted and unweighted",
 "There is no test of the command-line output.",
 [B+"Verifier.h",B+"main.cpp",B+"parsing/Parsing.h",B+"parsing/Parsing.cpp",B+"utils/json_stream.h"],
 [("engine/trace dispatch",B+"Verifier.h"),("streamed JSON output",B+"utils/json_stream.h")],
 observe=["process exit status, standard output"])

p("C20","Systems built from successor functions contain exactly the explored rules",
 "Building a system from initial states and a successor function adds every rule of every state reachable through the function and no rule of any other state, whatever the order or repetition of successors, and the resulting solver instance answers reachability like one built by hand. Labels and states given as arbitrary values are mapped to distinct identifiers and back without loss.",
 ["inputs","programs"],
 "every successor function over a small set of states, every label/state value shape",
 "One test builds one system.",
 [S+"PDAFactory.h",S+"PDA.h",S+"utils/ptrie_interface.h"],
 [("work-list exploration",S+"PDAFactory.h"),("value to bytes conversion",S+"utils/ptrie_interface.h")],
 observe=["PDAFactory::compile, DefaultPDAFactory, ptrie_interface"])
p("C21","Query instances do not disturb each other, whatever is done in which order",
 "Any number of query instances over one pushdown system can be built, copied before solving, moved, solved, read again and discarded in any order, and each gives the answer, weight and trace it would give on its own. Moving an instance, solved or not, changes nothing it reports, and no query changes the pushdown system.",
 ["histories","programs"],
 "every sequence of build, copy, move, solve (any engine), read and discard operations on several instances over a system; instances that refer to a shared system and instances that own theirs",
 "Tests solve one instance at a time, in place, and look at it once; a move or copy that loses part of the state only shows in a later operation.",
 [S+"PAutomatonProduct.h",S+"SolverInstance.h",S+"PAutomaton.h",S+"internal/PAutomaton.h",S+"Solver.h"],
 [("copy and move of products",S+"PAutomatonProduct.h"),("owning instances",S+"SolverInstance.h"),("copy and move of automata",S+"internal/PAutomaton.h")],
 observe=["Solver::*_accepts, get_trace on copied and moved PAutomatonProduct / SolverInstance objects"])
p("C22","Graph renderings show exactly the automaton",
 "The DOT text written for a stack language, a P-automaton, a saturated automaton or a product is a well-formed graph with one node per state, marked accepting and initial exactly as the automaton has it, and one edge per connected pair with exactly its labels, empty steps and weights. A star or a complemented set stands for exactly the labels of the edge, and unreached or unbounded weights are marked as such.",
 ["inputs"],
 "every automaton, before and after solving, weighted or not, with any printer for labels and states",
 "No test looks at the text; the abbreviations for label sets and special weights interact with the edge at hand.",
 [S+"internal/PAutomaton.h",S+"NFA.h",S+"PAutomatonProduct.h",S+"utils/vector_printer.h"],
 [("P-automaton rendering",S+"internal/PAutomaton.h"),("stack language rendering",S+"NFA.h"),("names of states and labels",S+"PAutomatonProduct.h")],
 observe=["NFA::to_dot, PAutomaton::to_dot, PAutomatonProduct::automaton_to_dot / product_automaton_to_dot"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
