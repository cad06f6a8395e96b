FULL = ("The whole crate is built offline against stand-ins for the crates that are not available here "
        "(stubs/, notably an own zone library in place of EDBM); they are trusted. Random search: a "
        "violation that the generators do not reach stays unseen.")
SLICE = "Random search over the module itself, compiled from /repo; nothing else is trusted."
QUERY = ("query answering", "src/System/executable_query.rs, src/System/extract_system_rep.rs")

prop("T01", "The leaves of a transition identity are the transitions it was built from",
     "For every composition, conjunction and quotient of components, taking the leaves of a transition identity "
     "gives, component by component from left to right, exactly the component transitions the identity was built "
     "from, in order. A component that takes no part, and a quotient side without transitions, is reported as such "
     "and never as another component's edge or as a failure.",
     ["inputs"], "every tree of operators and every identity of that tree",
     "The tests fix a handful of small trees; the guarantee is over all nestings and all numbers of alternatives on a quotient side.",
     ["src/TransitionSystems/transition_id.rs"],
     [("leaves of an identity", "TransitionID::get_leaves")],
     "the list of leaves", SLICE)

prop("T02", "A path splits into one path per component, or is refused",
     "Splitting a path of transition identities yields, for every component of the system, the sequence of that "
     "component's transitions step by step: same number of steps, same order, nothing invented or lost. A path whose "
     "steps have different numbers of components is refused rather than split into something wrong.",
     ["inputs", "histories"], "every path over every tree of operators, including paths that mix trees",
     "The tests check two or three fixed paths; the property speaks of every path length, tree and mixture.",
     ["src/TransitionSystems/transition_id.rs"],
     [("path splitting", "TransitionID::split_into_component_lists")],
     "the split lists", SLICE)

prop("T03", "The text of a transition identity determines the identity",
     "Writing a transition identity as text shows its operators, its component transitions and every alternative of "
     "a quotient side such that reading the text back by the documented notation gives the same identity. Two "
     "different identities of one system never get the same text.",
     ["inputs"], "every identity of every tree of operators",
     "A text form is an encoding of an unbounded set; tests compare a few strings.",
     ["src/TransitionSystems/transition_id.rs"],
     [("text form", "Display for TransitionID")],
     "the displayed text", SLICE)

prop("D01", "Determinism verdict",
     "A determinism query on a component is answered with no if some reachable state has two different edges that can "
     "be taken for the same action, and with yes if no location that edges lead to has two overlapping edges for one "
     "action. An edge can be taken when its guard holds and the invariant of its target holds after its update.",
     ["programs"], "every timed component: any locations, edges, clocks, guards, invariants and updates",
     "The verdict depends on all reachable clock values; the tests fix about twenty models.",
     ["src/System/local_consistency.rs", "src/TransitionSystems/transition_system.rs", "src/TransitionSystems/compiled_component.rs"],
     [("exploration", "local_consistency.rs"), QUERY], "answer to a determinism query",
     FULL + " Oracle: explicit region exploration; between the two bounds of the statement nothing is asserted.")

prop("K01", "Consistency verdict",
     "A consistency query on a component is answered with yes exactly if the component can be implemented: starting in "
     "its initial state and for every input the environment may choose, it can always either let time pass forever or "
     "do some output, and so on forever after, without violating an invariant.",
     ["programs"], "every deterministic timed component",
     "The property is a fixpoint over all symbolic states of the model; tests fix a few models.",
     ["src/System/local_consistency.rs", "src/System/input_enabler.rs"],
     [("fixpoint", "local_consistency.rs"), QUERY], "answer to a consistency query",
     FULL + " Oracle: the greatest fixpoint over explicit sets of regions.")

prop("R01", "Refinement verdict for two components",
     "A refinement query between two components is answered with yes exactly if both are deterministic and consistent, "
     "their actions fit, and in every reachable pair of states the right one can follow every output and delay of the "
     "left and the left can follow every input of the right. Any other answer to a well-formed query is no, never an error.",
     ["programs"], "every pair of timed components over shared and private actions, clocks, guards, invariants and updates",
     "Refinement quantifies over all runs of two timed systems; the tests fix pairs of models.",
     ["src/System/refine.rs", "src/DataTypes/statepair_list.rs", "src/ModelObjects/statepair.rs"],
     [("pair exploration", "refine.rs"), ("covered pairs", "statepair_list.rs"), QUERY], "answer to a refinement query",
     FULL + " Oracle: simulation of regions, with the verdicts of D01 and K01 as preconditions.")

READ_GUARD = ("reading", "src/DataReader/parse_edge.rs, src/DataReader/grammars/edge_grammar.pest")
TEXTWHY = "Texts are unbounded in number and shape; the tests compare a few dozen."

prop("E01", "A guard text means what it says",
     "Reading a guard or invariant text and applying it to a set of clock values keeps exactly the values for which the "
     "text is true under the usual reading: && binds tighter than ||, * / % tighter than + and -, operators of one level "
     "group from the left, parentheses decide otherwise, integer names stand for their values, and white space and "
     "redundant parentheses do not matter. Comparisons are between sums of at most one clock on each side and constants.",
     ["inputs"], "every guard text over clocks, integer names and constants, and every clock valuation",
     TEXTWHY,
     ["src/DataReader/parse_edge.rs", "src/EdgeEval/constraint_applyer.rs", "src/ModelObjects/Expressions"],
     [READ_GUARD, ("meaning", "constraint_applyer.rs, arith_expression.rs, bool_expression.rs")],
     "the zone after applying the guard", FULL + " Left out: sums that also subtract, on one side with a clock (known findings).")

prop("E02", "A guard written out and read back keeps its meaning",
     "Writing out the guard or invariant that was read (as saving a component does) and reading that text again gives a "
     "guard that is true for the same clock values, however it nests && , || and arithmetic.",
     ["inputs"], "every guard", TEXTWHY,
     ["src/ModelObjects/Expressions", "src/DataReader/parse_edge.rs"],
     [("writing", "encode_expression, Display for ArithExpression"), READ_GUARD],
     "the zone after applying the guard", FULL)

prop("E03", "Updates of an edge are all carried out, in order",
     "Reading a list of assignments of constant expressions to clocks and applying it to a set of clock values gives "
     "every assigned clock the value of the last assignment to it and leaves all other clocks unchanged.",
     ["inputs"], "every list of assignments, every clock valuation", TEXTWHY,
     ["src/DataReader/parse_edge.rs", "src/EdgeEval/updater.rs", "src/ModelObjects/transition.rs"],
     [READ_GUARD, ("applying", "CompiledUpdate, updater")], "the zone after the update", FULL)

prop("E04", "A set of clock values written as a guard keeps its points",
     "Turning a union of zones into a guard expression (as done for saved compositions, pruning and input completion), "
     "writing that guard out and reading it back describes exactly the same clock values, including constraints on "
     "differences of clocks, strict and negative bounds, and the empty and the full set.",
     ["inputs"], "every union of zones over any clocks", TEXTWHY,
     ["src/ModelObjects/Expressions/bool_expression.rs", "src/DataReader/parse_edge.rs"],
     [("zone to guard", "BoolExpression::from_disjunction and from_conjunction"), READ_GUARD],
     "the zone after applying the guard", FULL)

prop("Q01", "A query text is read as it is written",
     "A query text of any kind (refinement, consistency, determinism, reachability, implementation, specification, "
     "save, get-component, prune and bisimulation queries) is read as the query it denotes: conjunction binds tighter than "
     "composition and composition tighter than quotient, operators of one kind group from the left, parentheses decide "
     "otherwise, white space does not matter, and every component, location, clock bound, negation, conjunction and "
     "disjunction of a state is kept.",
     ["inputs"], "every query over every nesting of the operators and every state expression", TEXTWHY,
     ["src/DataReader/parse_queries.rs", "src/DataReader/grammars/query_grammar.pest", "src/ModelObjects/Expressions/query_expression.rs"],
     [("reading", "parse_queries.rs")], "the query expression", FULL)

prop("Q02", "Malformed text is refused, without a crash",
     "A query, guard or update text that is not well-formed (a missing, doubled or dangling operator or parenthesis, "
     "trailing text, an unknown symbol, a number too large) is refused with an error; it is never read as something "
     "else and reading it never crashes.",
     ["inputs"], "every text", TEXTWHY,
     ["src/DataReader/parse_queries.rs", "src/DataReader/parse_edge.rs", "src/DataReader/grammars/query_grammar.pest"],
     [("reading", "parse_queries.rs, parse_edge.rs")], "an error, not a result", FULL)

prop("Q03", "A displayed query can be read back as the same query",
     "The text that displays a query, a system or a state denotes the same query when read again, with every operator, "
     "grouping, name, location, bound and the name to save under.",
     ["inputs"], "every query", TEXTWHY,
     ["src/ModelObjects/Expressions/query_expression.rs", "src/DataReader/parse_queries.rs"],
     [("display", "Display for QueryExpression, SystemExpression, StateExpression")],
     "the query read from the displayed text", FULL)

prop("L01", "Location identities name the locations they are made of",
     "The identity of a location of a system determines the component locations it is made of: two identities of one "
     "system are equal exactly if all their component locations are, and so are their texts; an identity counts as "
     "partial exactly if some component location is left open; and the text of a complete identity reads back as the same "
     "operators over the same locations (up to the grouping of equal operators).",
     ["inputs"], "every pair of locations of every system, also quotient special and unspecified ones", TEXTWHY,
     ["src/TransitionSystems/location_id.rs"],
     [("identity", "LocationID, Display, from_string, is_partial_location")], "comparison and text", FULL)

prop("R02", "Refinement verdict for composed systems",
     "A refinement query between systems built by composition and conjunction is answered with yes exactly if all "
     "components are deterministic and consistent, the actions fit, and in every reachable pair of states the right "
     "system can follow every output and delay of the left and the left every input of the right. A composition moves on "
     "a shared action together, hides nothing, and keeps an action an output if either side outputs it; a conjunction "
     "moves on shared actions only, both sides together. A system that cannot be built (shared outputs in a composition, "
     "an inconsistent conjunction) is reported as such.",
     ["programs"], "every pair of systems over compositions and conjunctions of timed components",
     "Refinement quantifies over all runs of two composed systems; tests fix a few dozen pairs.",
     ["src/System/refine.rs", "src/TransitionSystems/composition.rs", "src/TransitionSystems/conjunction.rs", "src/TransitionSystems/common.rs", "src/ModelObjects/transition.rs"],
     [("operators", "composition.rs, conjunction.rs, Transition::combinations"), ("pair exploration", "refine.rs")],
     "answer to a refinement query", FULL + " Oracle: simulation of regions of both systems.")

prop("K02", "Consistency and determinism of composed systems",
     "A consistency or determinism query about a system of compositions, conjunctions and quotients is answered with yes if all its "
     "components are, and with no if one is not. A system whose composition shares outputs, or whose conjunction has "
     "clashing actions or cannot be implemented, is reported as a faulty model instead, and only then; so is a quotient "
     "of which the right side outputs an input of the left or a side is not deterministic and consistent.",
     ["programs"], "every system over compositions, conjunctions and quotients of timed components",
     "All trees and components; tests fix a few systems.",
     ["src/TransitionSystems/composition.rs", "src/TransitionSystems/conjunction.rs", "src/TransitionSystems/quotient.rs", "src/TransitionSystems/common.rs", "src/System/local_consistency.rs"],
     [("operators", "Composition::new_ts, Conjunction::new_ts"), QUERY], "answer to the query",
     FULL + " Overlaps that time never reaches and states inside K01's band are left open.")

prop("P01", "Reachability verdict",
     "A reachability query is answered with yes exactly if some run of the system leads from the start to a state "
     "the end describes: the named locations (components left out may be anywhere) with some clock values "
     "meeting the clock constraints. Invariants hold on entering a location and while waiting in it. The start is the initial "
     "state after any delay, or exactly the states a given start describes.",
     ["programs"], "every system of components, every start and end",
     "Reachability quantifies over all runs; tests fix a few queries on sample models.",
     ["src/System/reachability.rs", "src/System/extract_state.rs", "src/ModelObjects/transition.rs"],
     [("search", "reachability.rs"), ("states of a query", "extract_state.rs"), QUERY], "answer to a reachability query",
     FULL + " Oracle: explicit region exploration. No clock differences in end states.")

prop("P02", "A reported path can be followed and leads to the end",
     "The path reported for a reachability query can be followed step by step from the start: every step names an action and "
     "the edge each component takes (the right instance of it), its source shows exactly the clock values with which the steps "
     "so far can arrive and this one be taken, its destination exactly those reached by the step and waiting, and the "
     "last destination includes a state that was asked for.",
     ["programs", "histories"], "every reachable query over every system of components",
     "Paths are checked against a few expected edge lists by the tests.",
     ["src/System/reachability.rs", "src/System/specifics.rs", "src/Simulation/decision.rs", "src/ProtobufServer/proto_conversions.rs"],
     [("path", "make_path, SpecificPath"), ("message", "proto_conversions.rs")], "the path in the answer", FULL)

prop("P03", "A reachability query with a meaningless state is refused",
     "A reachability query whose start or end names a component, instance, location or clock that the system does not have, "
     "gives one component two locations, negates a location or offers it as an alternative, or whose start leaves a component's "
     "location open, is refused with an error rather than answered.",
     ["inputs"], "every such query", TEXTWHY,
     ["src/System/extract_state.rs", "src/System/extract_system_rep.rs", "src/ModelObjects/Expressions/state_expression.rs"],
     [("states of a query", "get_state")], "an error answer", FULL)

prop("R03", "The quotient is the adjoint of composition",
     "For every X, S and T whose actions fit, X refines the quotient T \\\\ S exactly if the composition S || X refines T. The "
     "quotient is the loosest system that can be put next to S to get T, also where S does something T does not allow and "
     "where S cannot do what T offers.",
     ["programs"], "every X, S and T built from deterministic timed components",
     "A relation between two refinements over all systems; tests fix a few quotients.",
     ["src/TransitionSystems/quotient.rs", "src/System/refine.rs", "src/TransitionSystems/composition.rs"],
     [("operator", "Quotient"), QUERY], "answers to refinement queries",
     FULL + " Cases in which a side does not meet the preconditions are left out.")

META = " Metamorphic: the two answers are compared with each other, so a mistake common to both stays unseen here."

QUOT = ("In a pair of locations T \\\\ S lets any time pass, whatever the invariants of T and S. It does an action both know if both can do "
     "it there (their guards, and their invariants before and after, hold), moving both; an action one knows as that one does it, if S "
     "keeps its invariant. It leaves the pairs for the universal state, which allows everything, if S breaks its invariant (by "
     "any action) or cannot do an output of its own; and for the error state, where no time passes and only inputs are "
     "possible, if S can do an output that T has too but cannot do, or by the quotient's own new input if T breaks its "
     "invariant while S does not. Its outputs are those of T that S does not output and the inputs of S that T does not have. ")

prop("R04", "Refinement of systems with quotients",
     "A refinement query between systems one or both of which contain quotients, also composed, conjoined or nested, is "
     "answered with yes exactly if its precondition holds and the right system can follow the left in every reachable "
     "pair of states, time included. " + QUOT,
     ["programs"], "every pair of systems with quotients over timed components",
     "A quotient is compared over all runs; tests ask about a few fixed quotients, mostly alone on the right side.",
     ["src/TransitionSystems/quotient.rs", "src/System/refine.rs", "src/System/extract_system_rep.rs", "src/TransitionSystems/common.rs"],
     [("quotient", "Quotient::new_ts, Quotient::next_transitions"), ("pair exploration", "refine.rs")],
     "answer to a refinement query", FULL + " Oracle: simulation of regions, the quotient given by the rules above.")

prop("S03", "Simulation of systems with quotients",
     "A simulation of a system that contains a quotient shows exactly the states it can be in, offers exactly the steps possible "
     "there (per action and edges, and where the quotient goes to its universal or error state), and a step that is sent "
     "back leads exactly where it was shown to lead. " + QUOT,
     ["programs", "histories"], "every system with a quotient over timed components, every walk along offered decisions",
     "No test simulates a quotient beyond its first state; a walk is a history in which each answer is the next request.",
     ["src/TransitionSystems/quotient.rs", "src/System/specifics.rs", "src/ProtobufServer/proto_conversions.rs",
      "src/ProtobufServer/ecdar_requests/simulation_requests.rs"],
     [("quotient", "Quotient::next_transitions, construct_location_tree"), ("special locations", "specifics.rs, proto_conversions.rs")],
     "the answers along a walk", FULL + " Oracle: explicit regions with the clock of the quotient. Which edges of the parts a step into a special state names is left open.")

prop("P04", "Reachability in systems with quotients",
     "A reachability query about a system that contains a quotient is answered with yes exactly if some run leads to the "
     "named locations of the components with clock values as asked, before the quotient leaves the pairs of locations; "
     "the path that is then reported can be followed step by step. " + QUOT,
     ["programs", "histories"], "every system with a quotient over timed components, every start and end state",
     "Tests ask for reachability in compositions and conjunctions only.",
     ["src/TransitionSystems/quotient.rs", "src/System/reachability.rs", "src/System/specifics.rs"],
     [("quotient", "Quotient::next_transitions, get_local_max_bounds"), ("search", "reachability.rs")],
     "answer to a reachability query and its path", FULL)

prop("M01", "A model means the same in JSON and in UPPAAL XML",
     "A model given as JSON components and the same model given as an UPPAAL XML file (templates, declarations, "
     "invariants, guards, synchronisations, updates, system declarations, escaped text, white space, labels and comments "
     "that carry no behaviour) get the same answer to every query.",
     ["programs"], "every model that both formats can write, every query",
     "Tests compare a few project files; labels, their order, several declarations, escapes and comments are combined freely in real files.",
     ["src/DataReader/xml_parser.rs", "src/DataReader/parse_edge.rs", "src/DataReader/serialization.rs"],
     [("XML reading", "xml_parser.rs"), QUERY], "answers to queries", FULL + META)

prop("M02", "How a model is spelled does not change answers",
     "Rewriting the texts of a model so that they say the same - constants as sums, differences or products, sides of "
     "comparisons exchanged, constraints repeated, weakened copies added, disjuncts reordered, parentheses, white space, "
     "overwritten updates, clock declarations split over statements and lines, comments - leaves every answer the same.",
     ["programs"], "every model and every such rewriting",
     "The number of spellings is unbounded, and each goes through parsing, simplification, bounds and extrapolation together.",
     ["src/DataReader/parse_edge.rs", "src/DataReader/serialization.rs", "src/ModelObjects/Expressions/bool_expression.rs"],
     [("expressions", "bool_expression.rs, arith_expression.rs"), ("declarations", "serialization.rs"), QUERY], "answers to queries", FULL + META)

prop("M03", "Names and order of declarations do not change answers",
     "Renaming components, locations, clocks, actions and edges (also to names that other things have, or that resemble "
     "keywords) and reordering locations, edges and clocks leaves every answer the same.",
     ["programs"], "every model, every consistent renaming and reordering",
     "Tests fix one name and one order for everything.",
     ["src/ModelObjects/component.rs", "src/ModelObjects/Expressions/query_expression.rs", "src/System/extract_system_rep.rs"],
     [("name resolution", "extract_system_rep.rs"), QUERY], "answers to queries", FULL + META)

prop("M04", "Components a query does not name do not change its answer",
     "Adding other components to the project, in any position, leaves the answer to a query the same, with and without "
     "clock reduction. Asking the same again gives the same answer.",
     ["programs", "histories"], "every model, every set of further components",
     "Tests load fixed projects; nothing asks the same question with and without the rest of the project.",
     ["src/System/extract_system_rep.rs", "src/ProtobufServer/ecdar_requests/send_query.rs"],
     [("choosing components", "extract_system_rep.rs"), QUERY], "answers to queries", FULL + META)
prop("M05", "Verdicts do not depend on the unit of time",
     "Multiplying every constant of the models and of the query (guards, invariants, values of updates, bounds in "
     "reachability states) by the same positive factor leaves the verdict of every consistency, determinism, refinement and "
     "reachability query the same, also for compositions and conjunctions.",
     ["programs"], "every set of components, every query and every factor that fits the number range",
     "Tests use small constants; nothing relates a model to the same model on another scale.",
     ["src/System/refine.rs", "src/System/reachability.rs", "src/System/local_consistency.rs",
      "src/EdgeEval/constraint_applier.rs", "src/ModelObjects/Expressions/bool_expression.rs"],
     [("bounds", "constraint_applier.rs, max bounds in bool_expression.rs"), ("exploration", "refine.rs, reachability.rs, local_consistency.rs"), QUERY],
     "answers to queries", FULL + META)

prop("M06", "Rewriting a component without changing its behaviour keeps verdicts",
     "Splitting an edge into two edges for complementary clock values, giving a location a double, repeating the invariant "
     "of a location in the guards of its edges, adding locations that cannot be entered and edges that are never enabled, "
     "writing out that an input is ignored, and adding a disjunct that another one implies: none of these changes the "
     "verdict of a determinism, refinement or reachability query, or of a consistency query. (Consistency is decided for "
     "sets of clock values that are reached together, so after an edge is split only systems consistent in both forms are compared; "
     "the determinism check follows edges that invariants disable, so repeating invariants may turn its no into a yes.)",
     ["programs"], "every set of components, every query and every sequence of such rewritings",
     "Tests never relate two different components with the same behaviour except for a few hand-made pairs.",
     ["src/System/refine.rs", "src/System/reachability.rs", "src/System/local_consistency.rs",
      "src/TransitionSystems/compiled_component.rs", "src/TransitionSystems/conjunction.rs", "src/TransitionSystems/composition.rs"],
     [("steps", "compiled_component.rs, common.rs, transition.rs"), ("exploration", "refine.rs, reachability.rs, local_consistency.rs"), QUERY],
     "answers to queries", FULL + META)

prop("L02", "Refinement and the operators obey the laws of the theory",
     "For consistent deterministic systems: refinement is reflexive and transitive; a conjunction refines both its sides, and "
     "whatever refines both sides refines it; refinement is kept by composing or conjoining both sides with the same system; "
     "composition and conjunction are commutative and conjunction associative up to refinement both ways, and equivalent systems have the "
     "same systems below them; and what a composition or conjunction can reach, each part can reach alone.",
     ["programs"], "every set of consistent deterministic components with fitting actions",
     "The laws speak of all models; tests confirm a few of them on a few fixed projects.",
     ["src/System/refine.rs", "src/System/reachability.rs", "src/TransitionSystems/composition.rs", "src/TransitionSystems/conjunction.rs", "src/TransitionSystems/common.rs"],
     [("operators", "composition.rs, conjunction.rs, common.rs"), ("exploration", "refine.rs, reachability.rs"), QUERY],
     "answers to queries", FULL + META)

prop("J01", "A component written to JSON and read again is the same component",
     "A component that is written to JSON text or into a project folder and read from there again, any number of times, "
     "has the same name, clocks, locations (with their kinds) and edges in the same order, and every guard, update and "
     "invariant means the same; queries about it have the same answers. Different spellings of the same component in "
     "JSON are read as the same component.",
     ["inputs"], "every component, with normal, universal and inconsistent locations, in every spelling the parser accepts",
     "The test for this reads and writes one fixed component; the text of a constraint is made anew from a parsed tree, so its "
     "meaning depends on every operator and constant.",
     ["src/DataReader/json_writer.rs", "src/DataReader/json_reader.rs", "src/DataReader/serialization.rs",
      "src/ModelObjects/Expressions/bool_expression.rs", "src/ModelObjects/Expressions/arithmetic_expression.rs"],
     [("writing", "json_writer.rs: component_to_json, component_to_json_file"), ("reading", "json_reader.rs: json_to_component, read_json_component"),
      ("constraints", "serialization.rs, bool_expression.rs: encode_expr")],
     "the written text, answers about it", FULL + " Oracle: the component it was made from, by regions; and the answers.")

prop("I01", "Input enabling adds exactly the missing inputs",
     "Making a component input-enabled for a list of inputs keeps all its edges and adds only edges that stay in the "
     "location without setting a clock; afterwards, wherever an invariant lets the component be, every input of the list is "
     "possible, and nothing is added where the component could take the input already. Answers about the component do not change.",
     ["inputs"], "every component, every list of inputs",
     "Tests look at a few fixed components; what is missing depends on every guard, invariant and reset, as a set of clock values.",
     ["src/System/input_enabler.rs", "src/DataReader/component_loader.rs", "src/EdgeEval/constraint_applyer.rs"],
     [("what is missing", "input_enabler.rs: make_input_enabled"), ("loading", "component_loader.rs")],
     "the component that results", FULL + " Oracle: explicit regions.")

prop("X01", "A component with an error in it gets no verdict",
     "If a component cannot be read as written (a part is missing or of another type, a location or edge has an unknown "
     "kind, an expression or declaration is not well-formed, names an unknown clock or location, or is cut off, or two "
     "locations have the same name), every query that needs it is refused or fails; it is never answered as if the "
     "component meant something else. The server answers the next request about other components as before.",
     ["inputs"], "every component with one error in one place, in JSON or XML, and every query that needs it",
     "Tests read well-formed models; the ways a model can be wrong are unbounded.",
     ["src/DataReader/json_reader.rs", "src/DataReader/xml_parser.rs", "src/DataReader/serialization.rs", "src/DataReader/parse_edge.rs",
      "src/DataReader/component_loader.rs", "src/TransitionSystems/compiled_component.rs"],
     [("reading", "json_reader.rs, xml_parser.rs, serialization.rs"), ("expressions", "parse_edge.rs")],
     "the answers to the queries", FULL + " Oracle: the model was well-formed before the error was put in, and the errors are of kinds that change what is written, not how.")

prop("C01", "Clock reduction and clocks that play no role do not change an answer",
     "A consistency, determinism or refinement query (also about compositions, conjunctions and quotients) has the same "
     "answer whether clock reduction is enabled or not, and whether or not the components have further clocks that play "
     "no role: clocks that always equal another one, that are set and never read, that occur only in constraints that "
     "always or never hold or at locations that cannot be entered, or that are declared in another order.",
     ["programs"], "every set of components, every query, with and without reduction",
     "Tests reduce a handful of fixed models; the sets of clocks that may be dropped depend on every guard, invariant, "
     "update and the composition they occur in.",
     ["src/System/extract_system_rep.rs", "src/ModelObjects/component.rs", "src/EdgeEval/updater.rs"],
     [("clocks to remove", "extract_system_rep.rs: clock_reduction, find_redundant_clocks, intersect, filter_redundant_clocks"),
      ("removing", "component.rs: remove_clock, replace_clock, reduce_clocks"), QUERY], "answers to queries", FULL + META)

prop("S01", "A simulation shows the initial state and exactly the possible steps",
     "Starting a simulation of a system shows its initial state with all delays its invariants allow, and offers exactly "
     "the decisions that are possible: for every action and combination of edges of the components, the clock values of "
     "the offered source states are those from which the step can be taken, and none is missing.",
     ["programs"], "every composition and conjunction of timed components",
     "The offered zones depend on every guard, invariant and update together; tests compare a few fixed answers.",
     ["src/ProtobufServer/ecdar_requests/simulation_requests.rs", "src/Simulation/decision.rs", "src/ProtobufServer/proto_conversions.rs"],
     [("decisions", "Simulation/decision.rs"), ("answer", "simulation_requests.rs, proto_conversions.rs")],
     "the answer to a start-simulation request", FULL + " Oracle: explicit regions.")

prop("S02", "A simulation step leads where the chosen decision leads",
     "Sending back an offered decision yields exactly the states that taking its edges from its source states and then "
     "letting time pass leads to, and again exactly the decisions possible there, for walks of any length.",
     ["programs", "histories"], "every system, every walk along offered decisions",
     "A walk is a history: each answer is the next request; tests take one fixed step.",
     ["src/ProtobufServer/ecdar_requests/simulation_requests.rs", "src/Simulation/decision.rs", "src/ProtobufServer/proto_conversions.rs",
      "src/System/specifics.rs"],
     [("resolving a decision", "simulation_requests.rs, Decision::resolve"), ("reading states", "proto_conversions.rs, specifics.rs")],
     "the answers along a walk", FULL + " Oracle: explicit regions.")

prop("G01", "A saved system means the same as the system",
     "The component that get-component makes of a composition or conjunction can be read back and behaves exactly as the "
     "system: each refines the other, whatever the names of clocks, locations and edges of the parts.",
     ["programs"], "every composition and conjunction of timed components, also with clashing names",
     "Tests compare a few fixed systems; clocks and locations of the parts get new names that depend on all others.",
     ["src/System/save_component.rs", "src/Simulation/graph_layout.rs", "src/DataReader/json_writer.rs", "src/DataReader/serialization.rs"],
     [("combining", "save_component.rs: combine_components, get_clock_map, collect_edges"), ("writing", "serialization.rs")],
     "the component in the answer, and refinement queries about it", FULL + " Oracle: explicit regions, on the text of the component.")

prop("G02", "A saved quotient means the same as the quotient",
     "The component that get-component makes of a quotient, or of a composition or conjunction with one, behaves as that "
     "system: a component refines the made one exactly if it refines the system with the quotient.",
     ["programs"], "every system with a quotient of timed components with fitting actions",
     "Tests save no quotient.",
     ["src/System/save_component.rs", "src/TransitionSystems/quotient.rs", "src/DataReader/json_writer.rs"],
     [("combining", "save_component.rs"), ("quotient", "quotient.rs")],
     "the component in the answer, refinement queries with the quotient", FULL + " Oracle: explicit regions, on the text of the component.")

prop("G03", "Pruning keeps the meaning of a consistent system",
     "The component that a prune query makes of a consistent system behaves exactly as the system (each refines the "
     "other); for an inconsistent system the query is refused and not answered with a component or a crash.",
     ["programs"], "every composition and conjunction of timed components",
     "Pruning cuts guards by federations computed from all inconsistent parts; tests prune a few fixed models.",
     ["src/System/pruning.rs", "src/System/extract_system_rep.rs", "src/System/save_component.rs"],
     [("pruning", "pruning.rs"), ("combining", "save_component.rs")],
     "the component in the answer, and refinement queries about it", FULL + " Oracle: explicit regions, on the text of the component.")

prop("G04", "A saved component is a complete drawing",
     "The component that get-component or prune makes of a system is a complete file for the editor: no field of the "
     "format is missing, location and edge names occur once, there is one initial location, edges join listed "
     "locations, every location and corner has finite coordinates inside the component's box, which is centred, an edge "
     "shows one corner for its synchronization, its guard and its update if it has them, a loop has at least two "
     "corners, and all locations have the component's colour. Asked again, without clock reduction, the query gives the "
     "same locations and edges.",
     ["programs"], "every system that can be saved, composed or with a quotient, asked twice",
     "The layout is random and the shape of the component depends on the system; tests look at no drawing at all.",
     ["src/DataReader/serialization.rs", "src/Simulation/graph_layout.rs", "src/System/save_component.rs",
      "src/System/executable_query.rs"],
     [("layout", "graph_layout.rs"), ("corners", "serialization.rs DummyEdge"), ("combining", "save_component.rs")],
     "the component in the answer", FULL + " Oracle: the conditions themselves; nodes stay where the layout puts them "
     "first (the force simulation is a stand-in).")

prop("F01", "A refused refinement shows a true reason",
     "When a refinement query is answered with no, the reason is true: a shown state is a pair the two sides can get to "
     "together, and from it the shown action (or delay) is possible on one side and cannot be followed by the other; "
     "shown action sets are those of the named systems and do clash as said; a side named inconsistent or "
     "nondeterministic is, in the shown state.",
     ["programs"], "every pair of systems, composed or with a quotient, whose refinement does not hold",
     "Tests fix about twenty messages of fixed models.",
     ["src/System/refine.rs", "src/System/query_failures.rs", "src/ProtobufServer/proto_conversions.rs"],
     [("reasons", "refine.rs, query_failures.rs"), ("answer", "proto_conversions.rs")],
     "the failure in the answer", FULL + " Oracle: explicit regions.")

prop("F02", "A refused consistency or determinism query shows a true reason",
     "When a consistency query is answered with no, the state shown is reachable and really inconsistent (or the "
     "component has no initial state); when a determinism query is, two edges for the shown action overlap in the shown "
     "location of the named component.",
     ["programs"], "every timed component that is inconsistent or nondeterministic",
     "Tests fix a few messages of fixed models.",
     ["src/System/local_consistency.rs", "src/System/query_failures.rs", "src/ProtobufServer/proto_conversions.rs"],
     [("reasons", "local_consistency.rs, query_failures.rs"), ("answer", "proto_conversions.rs")],
     "the failure in the answer", FULL + " Oracle: explicit regions.")

prop("V01", "An answer of the server does not depend on earlier requests",
     "Whatever other requests - of this or other users, about other models, cached or not, malformed or ending in an "
     "internal error - a server has handled before, it answers a request like a server that has just been started, and "
     "the answer carries the number of its query. The models one user sends under one hash are taken to be the same.",
     ["histories"], "every history of query and simulation requests, every cache size",
     "The cache makes every answer depend on a history; tests send one request to a new server.",
     ["src/DataReader/component_loader.rs", "src/ProtobufServer/ecdar_requests/request_util.rs", "src/ProtobufServer/ecdar_backend.rs",
      "src/ProtobufServer/ecdar_requests/send_query.rs"],
     [("cache", "component_loader.rs: ModelCache"), ("use of the cache", "request_util.rs"), ("catching panics", "ecdar_backend.rs")],
     "the answers to the requests", FULL + " Oracle: a new server, asked only this.")

prop("V02", "Requests handled at the same time do not disturb each other",
     "When several clients send requests to one server at the same time, each gets the answer a new server would give "
     "it, also when other requests end in internal errors, and no two clients get the same user token.",
     ["schedules"], "every set of clients with their requests, every number of threads",
     "Tests send one request at a time; caches and counters are shared by all.",
     ["src/ProtobufServer/ecdar_backend.rs", "src/DataReader/component_loader.rs", "src/ProtobufServer/ecdar_requests/request_util.rs"],
     [("tokens, thread pool", "ecdar_backend.rs"), ("shared cache", "component_loader.rs: ModelCache")],
     "the answers to the requests",
     FULL + " Oracle: a new server, asked only this. Schedules are those of the operating system; a failure may need several runs to show again.")

prop("A01", "The command line tool says what the server says",
     "A list of queries given to the command line tool for a project on disk (a JSON folder or an XML file) prints one "
     "verdict per query, in order, and each is the one the server gives for the same components, with and without clock "
     "reduction; a component that is made is saved in the project, also under a name that is taken, and can be used by "
     "later queries. System declarations may be written with any white space and comments. If a query cannot be "
     "carried out the tool does not end successfully.",
     ["inputs", "programs"], "every project, every list of queries",
     "No test runs the tool.",
     ["src/main.rs", "src/cli.rs", "src/DataReader/component_loader.rs", "src/DataReader/json_reader.rs", "src/DataReader/json_writer.rs",
      "src/DataReader/xml_parser.rs", "src/ModelObjects/system_declarations.rs", "src/System/executable_query.rs"],
     [("arguments", "main.rs, cli.rs"), ("loading", "component_loader.rs: JsonProjectLoader, XmlProjectLoader"),
      ("declarations", "system_declarations.rs, xml_parser.rs"), ("printing", "executable_query.rs")],
     "standard output, exit status, saved files", FULL + " Oracle: the server.")

prop("U01", "Refinement with universal and inconsistent locations",
     "In a universal location a component can always do any of its actions and stays there; in an inconsistent location "
     "it accepts every input and does no output, and is not consistent if it can be forced there. Refinement verdicts "
     "about components, compositions and quotients with such locations are those of this behaviour.",
     ["programs"], "every pair of systems of components with universal and inconsistent locations",
     "Tests contain hardly any such locations.",
     ["src/TransitionSystems/compiled_component.rs", "src/System/refine.rs", "src/System/local_consistency.rs", "src/ModelObjects/location.rs"],
     [("steps", "compiled_component.rs: next_transitions"), ("verdict", "refine.rs"), QUERY], "answers to refinement queries",
     FULL + " Oracle: explicit regions. Inconsistent locations are left out below conjunctions.")

prop("U02", "Consistency and determinism with universal and inconsistent locations",
     "A component in a universal location is consistent, one that can be forced into an inconsistent location is not; "
     "neither location makes a component nondeterministic. Consistency and determinism queries about components, "
     "compositions and quotients with such locations are answered accordingly.",
     ["programs"], "every system of components with universal and inconsistent locations",
     "Tests contain hardly any such locations.",
     ["src/TransitionSystems/compiled_component.rs", "src/System/local_consistency.rs", "src/ModelObjects/location.rs"],
     [("fixpoint", "local_consistency.rs"), QUERY], "answers to consistency and determinism queries",
     FULL + " Oracle: explicit regions. Inconsistent locations are left out below conjunctions.")

prop("U03", "Reachability with universal and inconsistent locations",
     "A reachability query about a system with universal and inconsistent locations is answered with yes exactly if the "
     "end is reachable, where a universal location allows every action and an inconsistent one every input, both staying "
     "where they are.",
     ["programs"], "every composed system or quotient with universal and inconsistent locations, every query",
     "Tests contain hardly any such locations.",
     ["src/System/reachability.rs", "src/TransitionSystems/compiled_component.rs", "src/System/extract_state.rs"],
     [("search", "reachability.rs"), QUERY], "answers to reachability queries", FULL + " Oracle: explicit regions.")

prop("U04", "Simulation with universal and inconsistent locations",
     "A simulation of a system with universal and inconsistent locations offers in every state exactly the decisions that "
     "are possible, where a universal location allows every action and an inconsistent one every input, both staying where "
     "they are, and a chosen decision leads to the right states.",
     ["histories"], "every composed system or quotient with universal and inconsistent locations, every sequence of decisions",
     "Tests contain hardly any such locations, and take one step.",
     ["src/Simulation/decision.rs", "src/ProtobufServer/ecdar_requests/simulation_requests.rs", "src/TransitionSystems/compiled_component.rs"],
     [("decisions", "decision.rs")], "the decision points of the responses",
     FULL + " Oracle: explicit regions.")

prop("Z01", "Long paths get the right answer",
     "The answer to a query does not depend on how long the paths through the system are: a component with more than a "
     "thousand locations in a row, or with a location that is left when a clock has counted to a thousand, gets the same "
     "verdict as the short one built alike, and the process survives.",
     ["programs"], "components built of steps in a row, with any of the faults: a step missing, never possible, doubled, an output too many",
     "Tests use components with a handful of locations.",
     ["src/System/local_consistency.rs", "src/System/reachability.rs", "src/System/refine.rs", "src/System/save_component.rs"],
     [("searches", "local_consistency.rs, reachability.rs, refine.rs"), ("saving", "save_component.rs")],
     "the answers to the queries",
     FULL + " Oracle: the verdicts follow from how the component is built. Server threads get stacks of 512 KiB, in place of longer paths on stacks of 2 MiB.")
