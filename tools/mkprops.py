#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = "src/PLASMA/"
L = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    L.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [P + f for f in files],
                          "mechanism": [{"name": n, "where": P + w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": P + w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})


prop("U01", "Extended-number arithmetic is exact and saturates only at infinity",
     "Arithmetic, comparison and conversion on the planner's extended integers and extended reals give the mathematical result for finite operands, follow the usual rules for plus and minus infinity, and keep a total order consistent with the numbers they represent. A result outside the representable range is reported or becomes the infinity of the right sign; it never wraps around to a finite value or to the wrong infinity.",
     ["inputs"], "All operand pairs (finite, near the range limits, infinite) and every operator, mixed with machine integers and doubles.",
     "Unit tests evaluate a few dozen fixed operand pairs; overflow and infinity rules depend on all operand combinations.",
     ["Utils/Number.hh"], [("overflow and infinity handling in eint/edouble operators", "Utils/Number.hh")],
     ["values of arithmetic and comparison expressions on extended numbers"])
prop("U02", "Interned text and entity references denote exactly what they were made from",
     "Two interned strings compare equal exactly when their texts are equal, give back their text unchanged, order like their texts, and split into and test for their delimited elements exactly as the plain text does. A live entity is found by its key, keys are never shared between live entities, and once an entity has been deleted neither its key nor an old reference to it resolves to anything.",
     ["inputs", "histories"], "All texts (including empty, long, non-ASCII, delimiter-only) and all interleavings of creating, looking up, copying and deleting entities.",
     "Tests intern a few literals; identity must hold for every text and every creation/deletion history.",
     ["Utils/base/LabelStr.cc", "Utils/base/LabelStr.hh", "Utils/base/Entity.cc", "Utils/base/Id.hh", "Utils/base/IdTable.cc"],
     [("string table keyed both ways", "Utils/base/LabelStr.cc"), ("entity key table", "Utils/base/Entity.cc"), ("id table checking pointer validity", "Utils/base/IdTable.cc")],
     ["LabelStr text, equality, order, element queries", "entity lookup by key and reference validity"])
prop("X01", "XML documents survive printing and re-parsing",
     "Printing any document tree (elements, attributes, text, comments, declarations, with any characters the format can carry) and parsing the output gives back a document with the same structure, names, attribute values and text. Printing that parsed document again yields the same bytes, and attribute and child queries return what is in the document.",
     ["inputs"], "All document trees and all attribute/text contents, including markup characters, entities, quotes and non-ASCII text; blanks in element text are condensed as documented, and texts already holding hexadecimal references are passed through.",
     "The xml test parses a handful of fixed documents; escaping and whitespace rules depend on every character combination.",
     ["TinyXml/base/tinyxml.cpp", "TinyXml/base/tinyxmlparser.cpp", "TinyXml/base/tinyxml.h"],
     [("entity encoding on output", "TinyXml/base/tinyxml.cpp"), ("entity decoding and whitespace handling on input", "TinyXml/base/tinyxmlparser.cpp")],
     ["parse(print(document))", "print(parse(print(document)))"])
prop("X02", "The XML parser is total: any input is parsed or reported, never fatal",
     "For every byte string the XML parser terminates and either delivers a document or reports an error, without reading or writing outside its buffers and without crashing. Whatever it accepts can be traversed, printed, copied and destroyed safely.",
     ["inputs"], "All byte strings, in particular malformed, truncated, nested and non-ASCII ones.",
     "Tests feed well-formed files and three malformed ones; safety on malformed input concerns every byte string.",
     ["TinyXml/base/tinyxmlparser.cpp", "TinyXml/base/tinyxml.cpp"],
     [("error reporting in the recursive-descent parser", "TinyXml/base/tinyxmlparser.cpp")],
     ["parse result, error flag, memory-safety monitor (AddressSanitizer)"])
prop("C01", "Domain operations are exact set algebra",
     "Every domain of values (boolean, integer and real intervals, enumerations of numbers, strings, symbols) behaves as the set it denotes: membership, size, emptiness, singleton, bounds, value listing, subset, equality, intersection, difference, insertion, removal and assignment agree with ordinary set operations. Operations that narrow a domain report a change exactly when the set changed, and never add a value.",
     ["inputs", "histories"], "All pairs of comparable domains, values and sequences of operations on them, including infinite bounds, empty and singleton domains.",
     "Unit tests compare a few hand-picked domains; set algebra must hold for every pair and every operation order.",
     ["ConstraintEngine/base/Domain.cc", "ConstraintEngine/base/Domain.hh", "ConstraintEngine/component/Domains.cc", "ConstraintEngine/component/Domains.hh"],
     [("interval and enumerated representations", "ConstraintEngine/component/Domains.cc"), ("shared comparison and listener logic", "ConstraintEngine/base/Domain.cc")],
     ["results of domain queries and mutators"])
prop("C02", "Every domain change is announced, exactly once and with the right kind",
     "An observer of a domain is told about every operation that changes the set of values, is told nothing when the set is unchanged by a narrowing operation, and the kind of change announced (restricted, emptied, bound restricted, set to a value, reset, relaxed, opened, closed) is true of the change made. A variable's specified value, base domain and current domain follow the operations applied to it: specifying, resetting and restricting never lose or invent base values.",
     ["histories"], "All sequences of domain and variable operations on all domain kinds.",
     "Tests check single events for one or two operations; the engine's correctness rests on every event of every history.",
     ["ConstraintEngine/base/DomainListener.cc", "ConstraintEngine/base/DomainListener.hh", "ConstraintEngine/component/Domains.cc", "ConstraintEngine/base/ConstrainedVariable.cc", "ConstraintEngine/component/Variable.hh"],
     [("change notification from each mutator", "ConstraintEngine/component/Domains.cc"), ("specify, reset, restrict and relax bookkeeping", "ConstraintEngine/base/ConstrainedVariable.cc")],
     ["notifications received by a listener", "variable base, specified and derived domains"])
prop("C03", "Constraint propagation never discards a solution",
     "For every network of library constraints over variables of any domains, propagation removes only values that take part in no solution of the network, and reports inconsistency only when the network has no solution. Propagating a network always finishes and re-propagating without changes alters nothing.",
     ["inputs"], "All constraint networks (library constraints, scopes including repeated variables, domains), in any order of posting.",
     "The library tests list input and expected output domains for fixed calls, one constraint at a time; soundness concerns all domains and all combinations.",
     ["ConstraintEngine/component/Constraints.cc", "ConstraintEngine/component/Propagators.cc", "ConstraintEngine/base/ConstraintEngine.cc", "ConstraintEngine/base/Constraint.cc", "ConstraintEngine/component/EquivalenceClassCollection.cc"],
     [("per-constraint filtering", "ConstraintEngine/component/Constraints.cc"), ("equality classes", "ConstraintEngine/component/Propagators.cc"), ("agenda-driven propagation to quiescence", "ConstraintEngine/base/ConstraintEngine.cc")],
     ["derived domains and consistency after propagation, against brute-force enumeration"])
prop("C04", "A fully assigned consistent network satisfies every constraint",
     "When every variable of a network has a single value, propagation declares the network consistent exactly when each constraint's meaning holds for those values. This is independent of the order in which values were assigned and constraints were posted.",
     ["inputs", "histories"], "All full assignments to all networks of library constraints, in every order of posting and assigning.",
     "Tests check selected assignments of single constraints; that no violated constraint slips through concerns every assignment and order.",
     ["ConstraintEngine/component/Constraints.cc", "ConstraintEngine/component/Propagators.cc", "ConstraintEngine/base/ConstraintEngine.cc"],
     [("constraint execution on singleton domains", "ConstraintEngine/component/Constraints.cc"), ("agenda and activation", "ConstraintEngine/base/ConstraintEngine.cc")],
     ["consistency verdict against constraint semantics"])
prop("C05", "Retraction leaves no trace: the result depends on the current network only",
     "After any history of posting, deleting, deactivating and reactivating constraints, specifying, resetting, restricting and opening or closing variables, and recovering from inconsistency, the propagated domains and consistency verdict equal those of a fresh engine given only the variables and constraints now in force. In particular undoing a change restores exactly the domains that held before it.",
     ["histories"], "All histories of additions and retractions with propagation at any points in between.",
     "Tests exercise single relaxations; the guarantee ranges over all interleavings of restriction, relaxation and inconsistency.",
     ["ConstraintEngine/base/ConstraintEngine.cc", "ConstraintEngine/base/ConstrainedVariable.cc", "ConstraintEngine/base/Constraint.cc", "ConstraintEngine/component/Propagators.cc", "ConstraintEngine/component/EquivalenceClassCollection.cc"],
     [("relaxation cycle and repropagation", "ConstraintEngine/base/ConstraintEngine.cc"), ("equivalence class rebuild", "ConstraintEngine/component/EquivalenceClassCollection.cc")],
     ["domains and verdict of the mutated engine against a freshly built one"],
     [("relaxed variables", "variables whose domain was widened and must be recomputed", "ConstraintEngine/base/ConstraintEngine.cc")])
prop("C06", "With violations allowed, violated constraints are reported and recover",
     "When the engine is configured to tolerate violations, posting contradictory constraints or values never aborts propagation: the total violation is positive exactly while some constraint is violated, the constraints reported as violated are among those that cannot be met, and removing the contradiction brings the violation back to zero and the domains back to those of an engine that never saw it.",
     ["histories"], "All histories of posting and retracting constraints and values that are or become contradictory.",
     "One test covers one contradiction; recovery must hold for every history.",
     ["ConstraintEngine/base/ConstraintEngine.cc", "ConstraintEngine/base/Constraint.cc", "ConstraintEngine/base/ConstrainedVariable.cc"],
     [("violation manager", "ConstraintEngine/base/ConstraintEngine.cc")],
     ["violation value, set of violated constraints, domains"])
prop("T01", "Temporal network verdict and bounds equal the shortest-path solution",
     "After any sequence of adding, tightening and removing time points and distance constraints, the temporal network is reported consistent exactly when its distance graph has no negative cycle, and then each time point's earliest and latest times are exactly the shortest-path bounds from the origin. When it is inconsistent, the explanation it gives is a genuine negative cycle of constraints in the network.",
     ["histories"], "All incremental histories of constraint additions, narrowings and removals, with queries at any point.",
     "Tests build a few fixed networks; incremental propagation must agree with recomputation after every history.",
     ["TemporalNetwork/base/TemporalNetwork.cc", "TemporalNetwork/base/DistanceGraph.cc", "TemporalNetwork/base/queues.cc"],
     [("incremental Bellman-Ford and Dijkstra propagation", "TemporalNetwork/base/TemporalNetwork.cc"), ("edge bookkeeping", "TemporalNetwork/base/DistanceGraph.cc")],
     ["consistency verdict, time point bounds, inconsistency explanation, against Floyd-Warshall"],
     [("pending deletions flag", "network must be fully repropagated", "TemporalNetwork/base/TemporalNetwork.cc")])
prop("T02", "Temporal distance queries are exact",
     "In a consistent temporal network the distance bounds reported between any two time points, singly or for many targets at once, are exactly the tightest bounds implied by the constraints, the sign-only variant agrees in sign, and a claim that a distance is below a bound is never made unless it is. Asking such questions never changes the bounds of any time point or any later answer.",
     ["histories", "inputs"], "All consistent networks, all pairs of time points and all interleavings of queries with changes.",
     "Tests query few pairs in fixed networks; exactness and side-effect freedom concern every network and query order.",
     ["TemporalNetwork/base/TemporalNetwork.cc", "TemporalNetwork/base/DistanceGraph.cc", "TemporalNetwork/component/TemporalPropagator.cc"],
     [("single-source shortest path queries over stored potentials", "TemporalNetwork/base/DistanceGraph.cc")],
     ["distance bounds and signs against Floyd-Warshall"])
prop("T03", "Time variables track the temporal network through every change",
     "For tokens and time variables related by temporal constraints, after propagation each start and end has exactly the bounds implied by its own domain and all temporal constraints together, each duration keeps every value some solution gives it and none outside its own domain, and inconsistency is reported exactly when they cannot all hold. This still holds after any history of specifying, resetting, posting and removing constraints.",
     ["histories"], "All networks of temporal constraints over time variables and all histories of changes to them.",
     "Tests cover fixed sequences; keeping two representations synchronised must hold after every history.",
     ["TemporalNetwork/component/TemporalPropagator.cc", "TemporalNetwork/ModuleTemporalNetwork.cc", "PlanDatabase/component/IntervalToken.cc"],
     [("two-way update between constraint variables and time points", "TemporalNetwork/component/TemporalPropagator.cc")],
     ["bounds of time variables against a reference simple temporal problem solver"],
     [("buffered changed variables and constraints", "work to transfer to the temporal network", "TemporalNetwork/component/TemporalPropagator.cc")])
prop("T04", "Temporal advice never rules out a possible ordering",
     "When the temporal advisor says one token cannot precede another, cannot fit between two others, or cannot be concurrent with another, adding that relation to the plan indeed makes it inconsistent. When it says two tokens can be concurrent, imposing a common start (or a common end) leaves the temporal network consistent; \"can precede\" may be optimistic, but never against the bounds of the two tokens or a single constraint between them. Temporal distances it reports are those of the network.",
     ["inputs", "histories"], "All plans with temporal constraints and all pairs or triples of tokens.",
     "Tests ask a few questions about fixed plans; search completeness relies on every negative answer being right.",
     ["TemporalNetwork/component/STNTemporalAdvisor.cc", "TemporalNetwork/component/TemporalPropagator.cc", "PlanDatabase/base/DefaultTemporalAdvisor.cc"],
     [("distance-based advice", "TemporalNetwork/component/STNTemporalAdvisor.cc")],
     ["advisor answers against imposing the relation and checking consistency"])
prop("P01", "Token states follow the legal life cycle",
     "A token is at any time exactly one of inactive, active, merged or rejected; only legal transitions succeed, and each changes the state queries, the set of active tokens, the slave and merged relations and the announced events consistently. Cancelling or deleting a token removes the subgoals it generated and separates the tokens merged onto it, and nothing deleted remains reachable from the plan.",
     ["histories"], "All sequences of create, activate, merge, reject, cancel, terminate, archive and delete over plans with master and slave tokens.",
     "Tests walk a few transition sequences; cascades depend on arbitrary histories and structures.",
     ["PlanDatabase/base/Token.cc", "PlanDatabase/base/PlanDatabase.cc", "PlanDatabase/base/DbClient.cc"],
     [("state variable and cascaded deletion", "PlanDatabase/base/Token.cc"), ("active token index", "PlanDatabase/base/PlanDatabase.cc")],
     ["token states, plan token sets, listener events, against a reference state machine"])
prop("P02", "Merging conjoins two tokens and cancelling the merge undoes it exactly",
     "Merging a token onto an active token makes every restriction and constraint on the merged token's variables hold on the active token's corresponding variables, including constraints posted or removed afterwards. Cancelling merges in any order restores exactly the domains that would hold had those merges never happened.",
     ["histories"], "All sets of tokens, constraints among their variables, and interleavings of merges, splits, constraint posting and removal.",
     "Tests merge and split single pairs; exact undo depends on all interleavings.",
     ["PlanDatabase/base/MergeMemento.cc", "PlanDatabase/base/UnifyMemento.cc", "PlanDatabase/base/StackMemento.cc", "PlanDatabase/base/Token.cc", "PlanDatabase/base/TokenVariable.hh"],
     [("constraint migration and reactivation", "PlanDatabase/base/MergeMemento.cc"), ("merged base and specified domains", "PlanDatabase/base/TokenVariable.hh")],
     ["domains of active and merged tokens against an equivalent plan built from scratch"])
prop("P03", "Compatible-token queries list every token a merge could succeed with",
     "For an inactive token, the compatible-token query returns only active tokens of a type it may merge with whose variables could each take a common value, returns every active token merging with which is consistent, and honours its limit. The yes/no and counting variants agree with it.",
     ["histories", "inputs"], "All plans, token types (with inheritance), variable domains and limits.",
     "Tests use a few plans; a wrongly omitted candidate loses solutions for some plan no test contains.",
     ["PlanDatabase/base/PlanDatabase.cc", "PlanDatabase/base/Token.cc"],
     [("candidate filtering by domain intersection", "PlanDatabase/base/PlanDatabase.cc")],
     ["query results against trying each merge"])
prop("P04", "Timelines hold a totally ordered, non-overlapping token sequence",
     "After any history of ordering, freeing, cancelling and deleting tokens on a timeline, the sequence contains exactly the tokens that explicit orderings put there and that neither freeing nor leaving the plan took out, is totally ordered with each token ending no later than the next starts, and no ordering beyond those implied by the remaining sequence is imposed; the former neighbours of a removed token stay ordered with each other. The ordering choices offered for a token include every position at which it can consistently be inserted, tokens reported as needing an order are exactly the active unsequenced ones, and freeing undoes ordering.",
     ["histories"], "All interleavings of constrain, free, activate, cancel and delete on timelines with temporal constraints.",
     "Tests follow scripted sequences; sequence maintenance has many positional cases reached only by long histories.",
     ["PlanDatabase/component/Timeline.cc", "PlanDatabase/base/Object.cc", "PlanDatabase/base/ObjectTokenRelation.cc", "PlanDatabase/base/PlanDatabase.cc"],
     [("sequence index and implied precedence constraints", "PlanDatabase/component/Timeline.cc"), ("precedence bookkeeping", "PlanDatabase/base/Object.cc")],
     ["token sequence, precedence constraints, ordering choices against a reference list model"])
prop("P05", "Replaying a transaction log reproduces the plan",
     "Recording every client operation (creating objects, variables, tokens and constraints, specifying, resetting, activating, merging, rejecting, cancelling, ordering, freeing and deleting) and replaying the recorded log into a new plan database gives an equivalent plan: same objects, tokens, states, relations and variable domains, up to renumbering. Logging the replay yields the same log.",
     ["histories"], "All operation sequences through the client interface.",
     "Tests replay a few scripts; the log must reproduce every operation with every argument kind.",
     ["PlanDatabase/component/DbClientTransactionLog.cc", "PlanDatabase/component/DbClientTransactionPlayer.cc", "PlanDatabase/base/DbClient.cc"],
     [("operation to XML encoding", "PlanDatabase/component/DbClientTransactionLog.cc"), ("XML to operation decoding", "PlanDatabase/component/DbClientTransactionPlayer.cc")],
     ["plan dumps of original and replayed database, and both logs"])
prop("P06", "Type queries reflect the declared type hierarchy",
     "For any set of declared object types, members, predicates, parameters and enumerations, every schema query (is-a, can-contain, can-be-assigned, parent and child predicates, inherited members and parameters, ancestor lists) answers according to single inheritance over the declarations. Declaration order of unrelated types does not matter.",
     ["inputs", "programs"], "All type hierarchies and predicate declarations.",
     "Tests declare small fixed hierarchies; inheritance rules must hold for every shape of hierarchy.",
     ["PlanDatabase/base/Schema.cc", "PlanDatabase/base/ObjectType.cc", "PlanDatabase/base/TokenType.cc", "PlanDatabase/base/TokenTypeMgr.cc"],
     [("type tables and ancestor walk", "PlanDatabase/base/Schema.cc")],
     ["schema query results against a reference model of the hierarchy"])
prop("P07", "Object variables contain exactly the objects of their type that exist",
     "An object variable made from a type holds exactly the existing objects of that type or its subtypes: while the type is open new objects are added and deleted objects removed, and after closing the type or the variable (that of a token is closed with it) the set is fixed. Looking objects up by name, key or type always returns exactly the live matching objects.",
     ["histories"], "All interleavings of creating and deleting objects, making variables, and closing types or the database.",
     "Tests create objects before variables in fixed orders; consistency of the caches depends on the interleaving.",
     ["PlanDatabase/base/PlanDatabase.cc", "PlanDatabase/base/Object.cc"],
     [("per-type object variable registry and lookup caches", "PlanDatabase/base/PlanDatabase.cc")],
     ["domains of object variables and lookup results against a reference set"])
prop("R01", "Rule consequences exist exactly while their guards hold",
     "For every active token, the subgoals, variables and constraints of an applicable rule branch are present exactly when the token is active and the branch's guard is satisfied by the current values, for any nesting of guards, loops and else branches. They are withdrawn completely when the guard stops holding or the token is cancelled, however the guard variables were changed.",
     ["histories", "programs"], "All rule models with nested guards and all histories of specifying, resetting, activating and cancelling.",
     "Tests drive a few fixed rules through one or two guard changes; history independence concerns all orders.",
     ["RulesEngine/base/RuleInstance.cc", "RulesEngine/base/RulesEngine.cc", "RulesEngine/base/RuleVariableListener.cc", "RulesEngine/base/ProxyVariableRelation.cc", "NDDL/component/Interpreter.cc"],
     [("guard listener firing and undoing rule instances", "RulesEngine/base/RuleInstance.cc")],
     ["slave tokens, their variables and constraints, against evaluation of the rule model"])
prop("S01", "Resource profiles bound every achievable level",
     "For every instant, the level bounds in a resource's profile contain the level of every schedule that fixes all transaction times and quantities consistently with the temporal constraints, and are exact when times and quantities are fixed. After any history of adding, removing, moving and re-sizing transactions the profile equals the one computed from scratch.",
     ["histories", "inputs"], "All transaction sets with uncertain times and quantities and all change histories, for each profile kind.",
     "Tests check hand-computed profiles; containment and incremental recomputation concern every transaction set and history.",
     ["Resource/base/Profile.cc", "Resource/base/Instant.cc", "Resource/component/TimetableProfile.cc", "Resource/component/GroundedProfile.cc"],
     [("instant list maintenance and incremental recomputation", "Resource/base/Profile.cc"), ("timetable level sums", "Resource/component/TimetableProfile.cc")],
     ["profile levels against enumeration of schedules and a recomputed profile"])
prop("S02", "Flow profiles are exact envelopes",
     "At every instant the upper and lower levels of the profiles registered as FlowProfile and IncrementalFlowProfile equal the highest and lowest levels any schedule of the given transactions can attain that respects the transactions' time windows, quantities and precedences, after any history of adding, removing, moving, re-sizing and ordering transactions.",
     ["histories", "inputs"], "All transaction sets with time windows, quantity ranges and precedence constraints, and all change histories.",
     "Tests check small hand-made cases; exactness of the maximum-flow reduction concerns every precedence structure.",
     ["Resource/component/FlowProfile.cc", "Resource/component/BoostFlowProfileGraph.cc", "Resource/component/BoostFlowProfile.hh", "Resource/base/Profile.cc"],
     [("maximum-flow based envelope", "Resource/component/FlowProfile.cc"), ("residual flow of the transaction graph", "Resource/component/BoostFlowProfileGraph.cc")],
     ["profile levels against the extremes over all sets of transactions that can have happened"])
prop("S03", "Resource limits are enforced: violations are found and never invented",
     "A plan in which all resource use is fixed is consistent exactly when the level stays within the resource's limits and consumption and production bounds at every instant. With flexible times, inconsistency is reported only when no placement respects the limits, and whenever some placement could break them the resource reports the instant as flawed, names the tokens taking part, and offers every ordering of them that can still be imposed and none that their time windows forbid.",
     ["inputs", "histories"], "All resources (reusable, reservoir, unary), limits, transactions and histories.",
     "Tests check a few over- and under-subscriptions; soundness of detection concerns every arrangement.",
     ["Resource/component/GenericFVDetector.cc", "Resource/component/ClosedWorldFVDetector.cc", "Resource/component/OpenWorldFVDetector.cc", "Resource/component/GroundedFVDetector.cc", "Resource/component/Reusable.cc", "Resource/component/Reservoir.cc", "Resource/base/Resource.cc", "Resource/base/ProfilePropagator.cc"],
     [("flaw and violation detection", "Resource/component/GenericFVDetector.cc")],
     ["consistency verdict and flawed instants against enumeration of schedules"])
prop("V01", "A plan returned by the solver is complete and valid",
     "Whenever the solver reports that it found a plan, the plan is consistent, contains no flaw the configuration asks it to resolve (undecided tokens, unbound variables, unordered tokens or resource threats), every fixed constraint holds, and the initial facts and goals are still in it. The reported decision stack and depth match the decisions in force.",
     ["programs", "inputs"], "All models, initial states and solver configurations.",
     "The plan-comparison tests check fixed problems against stored plans; validity concerns every problem and configuration.",
     ["Solvers/base/Solver.cc", "Solvers/base/FlawManager.cc", "Solvers/component/OpenConditionDecisionPoint.cc", "Solvers/component/ThreatDecisionPoint.cc", "Solvers/component/UnboundVariableDecisionPoint.cc"],
     [("flaw-driven search loop", "Solvers/base/Solver.cc"), ("flaw iteration", "Solvers/base/FlawManager.cc")],
     ["plan database after solving, checked by an independent validator"])
prop("V02", "Chronological search is sound and complete on finite problems",
     "On a problem with finitely many choices, an unbounded solver run ends, finds a plan exactly when one exists, and when it reports exhaustion no plan exists. The verdict does not depend on flaw or value ordering heuristics.",
     ["inputs", "programs", "configurations"], "All finite constraint and planning problems and all ordering configurations.",
     "Tests solve fixed problems; completeness of backtracking concerns every search tree.",
     ["Solvers/base/Solver.cc", "Solvers/base/FlawManager.cc", "Solvers/base/FlawHandler.cc", "Solvers/component/ValueSource.cc", "Solvers/component/UnboundVariableDecisionPoint.cc", "Solvers/component/OpenConditionDecisionPoint.cc"],
     [("decision stack with backtracking", "Solvers/base/Solver.cc"), ("choice enumeration", "Solvers/component/ValueSource.cc")],
     ["solver verdict against brute-force enumeration"])
prop("V03", "Undoing solver decisions restores the plan",
     "Backjumping or resetting a solver, whether mid-search, after success, after exhaustion or after a limit was hit, undoes exactly the decisions asked for: the plan's tokens, states, orderings and variable domains equal those at the corresponding earlier point. Clearing a solver forgets its decisions and leaves the plan as it is. Solving again afterwards gives the same outcome as the first time.",
     ["histories"], "All interleavings of stepping, solving, backjumping, resetting and clearing, on all problems.",
     "Tests reset after one or two runs; exact restoration concerns every stack content and interruption point.",
     ["Solvers/base/Solver.cc", "Solvers/base/SolverDecisionPoint.cc", "Solvers/component/OpenConditionDecisionPoint.cc", "Solvers/component/ThreatDecisionPoint.cc", "Solvers/component/UnboundVariableDecisionPoint.cc"],
     [("decision undo", "Solvers/base/SolverDecisionPoint.cc")],
     ["plan dump before and after undo; outcome of a second run"])
prop("V04", "Flaws are filtered and handled by exactly the rules that match them",
     "For any set of filter and handler rules, an entity is treated as a flaw exactly when no applicable filter matches it, and the handler chosen for it is the most specific applicable one. Matching follows the rule's criteria on class, predicate, variable, token and master-slave relations, and guard values, for every entity and as the plan changes.",
     ["configurations", "histories"], "All rule sets and all plans, as guard values and token relations change.",
     "Tests use one fixed rule file and count matches; matching must be right for every combination of criteria.",
     ["Solvers/base/MatchingEngine.cc", "Solvers/base/MatchingRule.cc", "Solvers/base/FlawHandler.cc", "Solvers/base/FlawManager.cc", "Solvers/component/Filters.cc"],
     [("indexed rule matching", "Solvers/base/MatchingEngine.cc"), ("guard evaluation and specificity weights", "Solvers/base/FlawHandler.cc")],
     ["flaw sets and matched rules against a direct evaluation of the criteria"])
prop("N01", "The modelling-language front end is total",
     "For every input text the front end terminates and either executes the program or reports errors to the caller, without crashing, corrupting memory or hanging. After a rejected text the same engine still accepts and executes a correct one.",
     ["inputs", "programs"], "All texts: random bytes, token soup, and mutated or truncated valid programs.",
     "Tests feed a list of known-bad snippets; totality concerns every text.",
     ["NDDL/component/NddlInterpreter.cc", "NDDL/component/Interpreter.cc", "NDDL/base/antlr/NDDL3.g", "NDDL/base/antlr/NDDL3Tree.g"],
     [("semantic error reporting", "NDDL/component/NddlInterpreter.cc")],
     ["script execution outcome under a crash and memory monitor"])
prop("N02", "Executing a model program has the effect its text says",
     "Declarations, object constructors, assignments, arithmetic and relational expressions, constraints, enumerations, loops, conditionals, facts, goals and relation statements of a well-formed program produce exactly the objects, member values, variable domains, tokens and constraints that the language assigns to them. Equivalent spellings of a program (reordered independent statements, split or joined files, renamed identifiers, whitespace and comments) produce equivalent plans.",
     ["programs"], "All well-formed programs over the supported language.",
     "Tests run fixed files; the meaning of programs must be right for every combination of constructs.",
     ["NDDL/component/Interpreter.cc", "NDDL/component/NddlInterpreter.cc", "NDDL/base/antlr/NDDL3.g", "NDDL/base/antlr/NDDL3Tree.g"],
     [("tree walker building expressions", "NDDL/base/antlr/NDDL3Tree.g"), ("expression evaluation", "NDDL/component/Interpreter.cc")],
     ["resulting plan database against a reference evaluator of generated programs"])
prop("E01", "Engines are isolated and deterministic",
     "Running the same model, configuration and client operations in a new engine gives the same plan, the same solver outcome and the same step counts, no matter which other engines were created, used or destroyed in the process before or are alive at the same time. Destroying an engine with any content releases its entities without disturbing other engines.",
     ["histories", "configurations"], "All programs and all interleavings of several engines' life cycles in one process.",
     "Tests run each problem once per process; hidden shared state shows only across engine life cycles.",
     ["System/base/EuropaEngine.cc", "System/base/PSEngineImpl.cc", "Utils/base/Engine.cc", "Utils/base/Entity.cc"],
     [("module-based engine start-up and shutdown", "Utils/base/Engine.cc")],
     ["plan dumps and solver statistics of repeated and interleaved runs"])

prop("E02", "The public interface shows and changes exactly the plan in the engine",
     "What a client reads through the public interface (objects, their members, predicates and timelines; tokens with their state, master, slaves, active and merged tokens, parameters and time variables; variables with their type, domain, specified value and kind of value; constraints; violation; solver status) is what the engine holds at that moment, and every change made through it has exactly the effect of the engine's own operation: the plan that results, what is possible next, and every listener's view of what was added, removed, activated, merged, rejected, split, ordered or changed agree. Stepping, solving, resetting and configuring a solver through it is the solver's own behaviour.",
     ["inputs", "histories"], "All models and all histories of client operations through the public interface.",
     "Tests touch single calls of the interface on a fixed plan; an accessor that reads the wrong neighbour or a listener that misses an event shows only in particular states.",
     ["System/base/PSEngineImpl.cc", "ConstraintEngine/base/ConstrainedVariable.cc", "ConstraintEngine/base/PSVarValue.cc", "PlanDatabase/base/Token.cc", "PlanDatabase/base/Object.cc", "PlanDatabase/base/DbClient.cc", "PlanDatabase/base/PlanDatabase.cc", "PlanDatabase/base/PSPlanDatabaseListener.cc", "ConstraintEngine/base/PSConstraintEngineListener.cc", "Solvers/component/PSSolversImpl.cc"],
     [("public views of tokens, objects and variables", "PlanDatabase/base/Token.cc"), ("public client of the plan database", "PlanDatabase/base/DbClient.cc")],
     ["the plan as read through PSEngine, as read from the plan database, and that of a second engine driven by its own operations", "events told to PS listeners"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(f"{root}/properties.jsonl", "w") as f:
        for p in L:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            for x in p["anchors"]["files"]:
                assert os.path.exists("/repo/" + x), x
            f.write(json.dumps(p) + "\n")
    print(len(L), "properties")
