"""Which harness (and build variant) decides which property, and how that is described."""
RUNS = {
    "U01": [("h_number", "plain", [])],
    "U02": [("h_utils", "plain", [])],
    "X01": [("h_xml", "plain", [])],
    "X02": [("h_xml", "asan", [])],
    "C01": [("h_domain", "plain", [])],
    "C02": [("h_domain", "plain", [])],
    "C03": [("h_ce", "plain", [])],
    "C04": [("h_ce", "plain", [])],
    "C05": [("h_ce", "plain", [])],
    "C06": [("h_ce", "plain", [])],
    "T01": [("h_tnet", "plain", [])],
    "T02": [("h_tnet", "plain", [])],
    "P01": [("h_token", "plain", [])],
    "P02": [("h_token", "plain", [])],
    "P03": [("h_token", "plain", [])],
    "P04": [("h_timeline", "plain", [])],
    "P06": [("h_schema", "plain", [])],
    "P07": [("h_objects", "plain", [])],
    "R01": [("h_rules", "plain", [])],
    "S01": [("h_resource", "plain", [])],
    "S02": [("h_resource", "plain", [])],
    "E01": [("h_solver", "plain", [])],
    "S03": [("h_resource", "plain", [])],
    "N02": [("h_nddl", "plain", [])],
    "N01": [("h_nddl", "asan", [])],
    "V01": [("h_solver", "plain", [])],
    "V02": [("h_solver", "plain", [])],
    "V03": [("h_solver", "plain", [])],
    "V04": [("h_match", "plain", [])],
    "E02": [("h_public", "plain", [])],
    "T03": [("h_temporal", "plain", [])],
    "T04": [("h_temporal", "plain", [])],
}
TECHNIQUE = {
    "S01": "stateful property-based testing of profile histories against sums over the transactions' windows",
    "E01": "differential testing of interleaved engine life cycles against the same scripts run alone in their own processes",
    "E02": "stateful differential testing of histories through the public interface against the engine below it and a second engine driven by its own operations",
    "S03": "stateful property-based testing of resource histories against levels and verdicts computed from windows, orderings and sets of events",
    "S02": "stateful property-based testing of flow profile histories against enumeration of the sets of transactions that can have happened",
    "N02": "property-based testing of generated programs against a reference evaluator, and metamorphic testing of equivalent spellings and orders",
    "N01": "structured fuzzing (random bytes, token soup, mutated and truncated programs) under AddressSanitizer with a recovery oracle",
    "P01": "stateful property-based testing of token life cycles (cascades included) against a reference state machine with recorded announcements",
    "P02": "stateful property-based testing of merges and splits: domains compared with a plan of plain variables built from scratch",
    "P03": "stateful property-based testing of compatibility answers against pairwise overlap and against trying each merge from scratch",
    "P04": "stateful property-based testing of timeline histories against a reference list and bounds computed from scratch",
    "R01": "stateful property-based testing of generated models and plan histories against a reference interpreter of the rules and a freshly built engine",
    "V01": "property-based testing of generated problems and configurations: reported plans judged by an independent validator of the problem text",
    "V02": "property-based testing of generated problems and configurations against exhaustive enumeration of solutions and grounded plans",
    "V03": "stateful property-based testing of solver histories: the plan after each undo compared with the plan recorded at that depth, and repeated runs with each other",
    "V04": "stateful property-based testing of random filter and handler rules on random plan histories, against a direct evaluation of each rule's criteria",
    "P06": "property-based testing of random type hierarchies against a walk of the declared inheritance relation",
    "P07": "stateful property-based testing of object histories against a set-of-live-objects reference model",
    "U01": "property-based testing against a wide-integer / IEEE reference model of extended arithmetic",
    "C01": "stateful property-based testing of domain operation histories against a finite-set reference model",
    "C02": "stateful property-based testing: recorded announcements and variable histories against a set-and-event reference model",
    "T01": "stateful property-based testing of temporal-network histories against an independent shortest-path (Floyd-Warshall) reference",
    "T02": "stateful property-based testing of distance queries interleaved with changes, against all-pairs shortest paths",
    "T03": "stateful property-based testing of token and time-variable histories against a shortest-path reference over the same constraints",
    "T04": "stateful property-based testing of advisor answers against the reference network with the asked relation imposed",
    "U02": "property-based and stateful testing against a plain-string and map reference model",
    "C03": "property-based testing of random constraint networks against brute-force enumeration of solutions",
    "C04": "property-based testing of fully assigned random networks against an independent meaning of every constraint",
    "C05": "stateful property-based testing: retraction histories compared with freshly built engines and with brute-force enumeration",
    "C06": "stateful property-based testing of contradictory histories with violations allowed, against brute force and strict engines",
    "X01": "property-based round-trip testing of generated document trees, with shrinking",
    "X02": "structured fuzzing (random bytes, token soup, mutated documents) under AddressSanitizer with a semantic oracle",
}
NOTE = {
    "E01": "two to four jobs of up to about 14 operations in one thread; engines used from several threads are outside (the library shares process-wide tables without locks); trusts the fork that runs a job alone",
    "E02": "small models and histories of up to a few dozen operations; the plan is read only while it is consistent; the profile views of resources and the language interpreter hooks of the interface are judged by S03 and N02",
    "S01": "timetable and grounded profiles over raw transactions; the windows are those the engine reports (T03 judges them)",
    "S03": "limits are judged at the instants where transactions can begin or end (a capacity drop between instants is a known finding); CBReusable and allowed violations are outside",
    "S02": "profiles registered as FlowProfile and IncrementalFlowProfile (both run on the Boost graph); the separate classes behind MaxFlow cannot be reached by these names and are outside",
    "N02": "programs of up to about 40 statements; initial values lie within the declared type; constructors and members of object type only through named objects; trusts the evaluator in the harness",
    "N01": "texts up to a few kB; programs that create subgoals without end are not generated; trusts AddressSanitizer and the recovery program",
    "P01": "histories of up to 40 operations; committing has no public operation and is not exercised; illegal transitions must be refused with nothing changed; trusts the reference state machine in the harness",
    "P02": "up to about 8 tokens of 6 predicate types with and without the temporal network (there, token durations are not compared: they are narrowed weakly); the experimental EUROPA_USE_STACK_METHOD variant is outside; constraints are removed before the tokens they are on",
    "P03": "same plans as P02; limit 0 means no limit; with the temporal network the exact test may prune more",
    "P04": "one to three timelines, up to about 8 tokens, with and without the temporal network; a pair is ordered only as the interface allows; while inconsistent only sequences are compared; trusts the list model in the harness",
    "R01": "generated models of 1-3 rules with guards nested up to 4 deep, histories of up to 24 changes; guards over isSingleton/isSpecified and committed or terminated masters are outside; trusts the rule interpreter in the harness",
    "V01": "constraint problems of up to 8 variables and 300 assignments and planning problems of up to 5 initial tokens, 3 predicates and horizon 7; default solver components only; trusts the validator in the harness",
    "V02": "same problems; searches beyond 1500 (3000 for constraint problems) steps or whose reference search exceeds its budget are not judged; constraints with a repeated variable are outside; trusts the reference search in the harness",
    "V04": "open-condition and unbound-variable managers, every filter kind; a token whose master went while it was active isn't asked about; threats' rules are not covered",
    "V03": "histories of up to 60 operations over confluent constraints and deterministic value orders; what a half-explored decision prunes is not judged",
    "P06": "hierarchies of up to a dozen types with queries between declarations; is-a between primitive types is outside (documented as always true); trusts the reference walk in the harness",
    "P07": "histories of a few dozen changes over up to 5 types; constructors that throw are not exercised; trusts the reference model in the harness",
    "U01": "random search over operand pairs biased to range limits and infinities; trusts the reference model in the harness and __int128 / IEEE arithmetic",
    "U02": "random texts and histories in one process; trusts the reference model in the harness",
    "T01": "histories of a few dozen changes over up to 8 time points, distances small or near the range limits; trusts the shortest-path model in the harness",
    "T02": "same networks as T01; isDistanceLessThan is judged as the one-sided approximation it is documented to be",
    "T03": "histories over up to a handful of tokens and free time variables with registered temporal constraints, some sharing a distance variable; trusts the shortest-path model in the harness",
    "T04": "same plans as T03; the default advisor is asked over finite domains only; fits answers marked approximate by the code are judged one-sidedly",
    "C01": "domains over a 29-point universe per kind (half steps, far points, 6 texts), histories of up to a few dozen operations; trusts the bit-set model in the harness",
    "C02": "same domains and histories as C01 with listeners attached, plus one engine variable under specify/reset/restrict/open/close/insert; trusts the model in the harness",
    "C03": "up to 7 variables and 6 constraints of 48 library kinds over small grids (real intervals sampled at half steps); trusts the meanings written in the harness",
    "C04": "same networks as C03 with every variable assigned, in random order; trusts the meanings written in the harness",
    "C05": "histories of up to two dozen changes over networks as in C03; domains are compared exactly where propagation has a single fixpoint, otherwise soundness, verdict of assignments and cleanliness of untouched variables; retraction while a client holds a deactivation is outside (documented as the client's responsibility)",
    "C06": "the same histories without client deactivation; violated parts of compound constraints are judged with the whole network only",
    "X01": "random trees up to a few dozen nodes; texts already holding hexadecimal references are excluded (passed through by design)",
    "X02": "random inputs up to a few kilobytes and about 300 levels of nesting; memory errors are seen by AddressSanitizer, hangs by a CPU limit per case",
}
REASON = {"P05": "Property-based testing would apply (log a random client history, replay it, compare the plans), but no check is built: the transaction logger and player disagree on the format in many places, so the property fails widely on the current tree and repairing it is a redesign of the format, not a small fix (see DESIGN.md)."}
