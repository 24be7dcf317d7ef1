"""The property table: generates properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": ["concept_formation/" + f for f in files],
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                           "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": list(observe), "hook_needed": None},
                  technique=technique, note=note))


TREES = ["cobweb.py", "cobweb3.py", "trestle.py"]
TRACE = "TLA+ model (TLC) of %s, exhaustive on small constants; recorded executions of the real code validated against it"
NOTE = ("Design checked exhaustively within stated constants; the binding to the code is trace validation on "
        "generated histories, so it is as strong as the histories explored. Trusts TLC, the projection of object "
        "state to JSON, and the fixed-point arithmetic of Fix.tla (checked at setup).")

prop("C01", "Every concept's counts are the tally of the instances beneath it",
     "After any sequence of fits and clears, the count and the attribute-value table of every concept (including means and deviations of numbers, and hidden attributes) equal the tally of exactly the instances stored at the leaves beneath it. Every fitted instance is stored at exactly one leaf, and the root accounts for all instances fitted since the last clear, no more and no less.",
     ["histories", "inputs", "configurations"], "every history of fits and clears, every instance (symbols, numbers, missing, hidden and nested attributes), all three tree kinds and scaling settings",
     "Tests fit a few dozen fixed-seed random instances with two symbol attributes and compare parent with child counts; merges, splits, numbers, mixed types and hidden attributes under long histories are never compared with the instances themselves.",
     TREES, [("increment on the way down, merge/split bookkeeping", "CobwebTree.cobweb, CobwebNode.increment_counts/update_counts_from_node/merge/split")],
     [("av_counts", "attribute -> value -> count or ContinuousValue", "CobwebNode"), ("count", "instances beneath", "CobwebNode")],
     ["tree.root and children after each ifit/clear"], TRACE % "a hierarchy and of the Cobweb machine", NOTE)
prop("C02", "The concepts always form one well-formed hierarchy",
     "After any history the concepts reachable from the root form a tree: parent and child links agree, no concept is listed twice or reachable twice, ids are unique, every inner concept has at least two children, none is empty and all belong to the tree. The reported number of concepts is the number of concepts reachable.",
     ["histories", "inputs", "configurations"], "every history of fits and clears on every tree kind",
     "No test inspects links after restructuring; only child-count sums on one kind of data are checked.",
     TREES, [("link maintenance in fringe split, merge, split, new child", "CobwebTree.cobweb, CobwebNode.merge/split/create_new_child")],
     [("children/parent/tree", "links", "CobwebNode")], ["walk from tree.root"], TRACE % "the Cobweb machine", NOTE)
prop("C03", "Leaves are permanent and fit returns the leaf holding the instance",
     "A fit returns a leaf of the tree that holds the fitted instance; a leaf only ever holds instances that agree on every visible attribute, and an instance looking exactly like the leaf it is sorted to joins it. A leaf, once created, stays the same leaf for as long as the tree is not cleared, and a fit changes no other leaf.",
     ["histories", "inputs"], "every history of fits",
     "Leaf identity across later restructuring and purity of leaves are not asserted anywhere; label-producing functions depend on both.",
     TREES, [("exact match test and fringe split", "CobwebNode.is_exact_match, CobwebTree.cobweb")], (), ["returned concept of ifit"],
     TRACE % "ConceptTree (permanent leaves)", NOTE)
prop("C04", "Each fit takes only utility-maximal operations along one path",
     "The tree after a fit is the tree before it changed by one descent from the root in which every step (place in best child, new child, merge the two best children, split the best child) has the highest category utility among the operations available there, ties broken arbitrarily, ending at an identical leaf, a new child or a fringe split. Concepts off that path are untouched.",
     ["histories", "inputs", "configurations"], "every tree state reachable by fits and every next instance, every way of breaking ties",
     "Tests never compare the resulting structure with what the utilities dictate; the choice depends on the whole history.",
     TREES, [("operator choice", "CobwebNode.get_best_operation/two_best_children, CobwebTree.cobweb")], (), ["tree snapshots before/after each fit"],
     TRACE % "the Cobweb micro-step machine (search over tie-breaks)", NOTE)
prop("C05", "Category utility and its per-operation forms equal their definition",
     "For every concept the expected correct guesses and category utility equal the defining formula on the concept's table (visible attributes only; numbers via the scaled, small-sample-corrected Gaussian), and the utilities reported for inserting, new child, merging, splitting and fringe-splitting equal the category utility of the partition each operation would produce. Computing them changes nothing.",
     ["histories", "inputs", "configurations"], "every reachable concept, every instance and pair of children",
     "No test computes any utility value; only structure smoke tests exist.",
     ["cobweb.py", "cobweb3.py"], [("utility computations", "CobwebNode.category_utility, cu_for_*, relative_cu_for_insert, expected_correct_guesses")], (), ["return values of the cu functions"],
     TRACE % "concept tables and utilities", NOTE)
prop("C06", "Queries never change knowledge and no call changes its instance",
     "Categorising, inferring missing values, predicting, computing probabilities or utilities, clustering, printing and exporting leave every concept, link and scale of the tree exactly as it was. No fitting, categorising, inferring, evaluating or preprocessing call modifies the instance it is given.",
     ["histories", "inputs", "programs"], "every interleaving of queries with fits, every instance",
     "Tests do not compare tree state around queries or deep-compare their arguments.",
     ["cobweb.py", "cobweb3.py", "trestle.py", "cluster.py", "evaluation.py", "preprocessor.py", "visualize.py"], [("temporary copies", "shallow_copy, deepcopy in cluster_iter, new dicts in preprocessors")], (), ["snapshots around each call"],
     TRACE % "trees with query actions that must stutter", NOTE)
prop("C07", "Categorising follows the best child to a leaf",
     "Categorising an instance returns a leaf of the tree reached from the root by moving, at every inner concept, to a child whose utility gain from receiving the instance is maximal, ties broken arbitrarily. An instance may have unseen or missing attributes; on an empty tree the root is returned.",
     ["histories", "inputs", "configurations"], "every reachable tree and every instance, including unseen attributes and values",
     "Only one smoke call of categorize exists.",
     TREES, [("descent", "CobwebTree._cobweb_categorize, CobwebNode.two_best_children")], (), ["returned concept"],
     TRACE % "categorisation descent", NOTE)
prop("C08", "Symbol predictions and probabilities form a coherent distribution",
     "For every concept and attribute the value probabilities are the relative frequencies of the instances beneath the concept, together with the probability of being missing they are non-negative and sum to one, and agree across all ways of asking. The most likely prediction is a value of maximal probability, a sampled prediction only ever has positive probability, and a missing value is predicted only when allowed or when the attribute is unknown to the concept.",
     ["histories", "inputs"], "every reachable concept, attribute (known, unknown, hidden, mixed) and value",
     "No test calls predict or probability.",
     ["cobweb.py", "cobweb3.py", "utils.py"], [("weighted values and choice", "get_weighted_values, predict, probability, weighted_choice, most_likely_choice")], (), ["return values"],
     TRACE % "prediction tables", NOTE)
prop("C09", "Numeric predictions and densities follow the concept's Gaussian",
     "For every concept and numeric attribute the most likely prediction is the mean of the numbers beneath it, and the probability of a number is the share of instances having one times the density of the concept's small-sample-corrected Gaussian with the built-in noise, measured in units of the attribute's current scale when scaling is on. It is never negative, never exceeds that share, is symmetric about the mean and is zero where the concept knows no numbers.",
     ["histories", "inputs", "configurations"], "every reachable concept, every query number, every scaling setting, nested attributes sharing scales",
     "No test evaluates a numeric probability.",
     ["cobweb3.py", "continuous_value.py"], [("density", "Cobweb3Node.probability/predict")], (), ["return values"],
     TRACE % "numeric densities in exact fixed-point arithmetic", NOTE)
prop("C10", "Inferring missing values keeps what was given and fills in from one leaf",
     "Inferring returns an instance that contains every attribute given with its given value, under its given name and nesting, plus predictions only for attributes known to the leaf the instance is categorised to, each a prediction that leaf allows under the requested choice function and missing-value policy.",
     ["histories", "inputs", "configurations"], "every reachable tree, every partial instance, both choice functions, with and without missing values allowed",
     "No test calls infer_missing.",
     TREES, [("fill-in loop", "CobwebTree.infer_missing, TrestleTree.infer_missing")], (), ["returned instance"],
     TRACE % "categorisation plus prediction", NOTE)
prop("C11", "Streaming number statistics equal batch statistics for any history",
     "However numbers are added, in whatever order, in batches, by copying or by combining accumulators (including empty ones), the count, mean, spread, small-sample-corrected deviation and scaled forms equal those of the multiset of numbers added, without loss of accuracy for data far from zero. Combining leaves the other accumulator unchanged and a copy is independent of its original.",
     ["histories", "inputs"], "every tree of update, batch, copy and combine operations over any decimals",
     "Tests combine two fixed random samples once; orders, repeated combination, empties, correction boundary and large offsets are not reached.",
     ["continuous_value.py", "utils.py"], [("Welford/Chan updates", "ContinuousValue.update/combine/copy, utils.c4")], [("num/mean/meanSq", "streaming moments", "ContinuousValue")], ["accessors"],
     TRACE % "accumulators, all short operation histories replayed", NOTE)
prop("C12", "Scales follow every number ever fitted",
     "With any history of fits, the scale kept for an attribute is the statistics of every number fitted for it since the last clear, pooled over nested occurrences of the same inner attribute exactly when inner scaling is on; queries and later restructuring never change it. Utilities and densities are measured in units of the current scale.",
     ["histories", "inputs", "configurations"], "every history, nested and plain attributes, scaling on and off",
     "No test looks at attr_scales.",
     ["cobweb3.py", "trestle.py"], [("scale update before each fit", "Cobweb3Tree.update_scales/get_inner_attr")], [("attr_scales", "scale statistics", "Cobweb3Tree")], ["tree.attr_scales, utilities"],
     TRACE % "scale histories", NOTE)
prop("C13", "Hidden attributes are stored but never influence formation",
     "Two histories that differ only in hidden attributes (names starting with an underscore) produce, for the same random choices, the same hierarchy with the same visible tables, the same categorisations and the same utilities. Hidden attributes are nevertheless counted and can be predicted.",
     ["histories", "inputs", "configurations"], "every history and every assignment of hidden attributes, nested ones included",
     "No test uses a hidden attribute in formation.",
     TREES + ["preprocessor.py"], [("attribute filter", "CobwebNode.attrs, is_exact_match")], (), ["twin runs"],
     TRACE % "twin histories related by an erasure invariant", NOTE)
prop("C14", "An invalid instance is refused and leaves no trace",
     "Fitting, categorising or inferring with an instance that has an unusable attribute name or an unusable value (unhashable; None for flat trees) raises an error and leaves every concept, scale and link as before, so the history continues as if the call had not been made.",
     ["histories", "inputs", "fault_sequences"], "every history with invalid instances injected at any point",
     "One test checks that the private validator raises; none that the tree survives.",
     TREES, [("validation before modification", "_sanity_check_instance, ifit")], (), ["snapshots around the failing call"],
     TRACE % "fit histories with refused steps", NOTE)
prop("C15", "Clearing forgets everything and batch fitting is repeated single fitting",
     "After a clear the tree behaves like a newly made one with the same settings. Fitting a batch for n iterations fits every instance of the batch exactly n times, in the given order first unless shuffling is asked for, and leaves the caller's list alone.",
     ["histories", "inputs", "configurations"], "every history containing clears and batches, any iteration count",
     "Tests check only that a cleared root is empty and that fit does not crash.",
     TREES, [("reset and iteration", "clear, CobwebTree.fit")], (), ["snapshots, twin trees"],
     TRACE % "histories with clear and batch actions", NOTE)
prop("C16", "Standardising names renames objects one-to-one to fresh names, reversibly",
     "Standardising an instance renames every variable to a fresh name, consistently in components and relations and differently for different variables, and changes nothing else; undoing restores the original instance exactly.",
     ["inputs", "histories"], "every structured instance with distinct variable names, repeated use of one or several standardisers",
     "A single doctest instance is transformed.",
     ["preprocessor.py"], [("renaming", "NameStandardizer, rename_relation, gensym")], (), ["transform/undo_transform results"],
     TRACE % "instances as terms and renamings; all small instances enumerated", NOTE)
prop("C17", "Flattening and sub-component extraction preserve every value, reversibly",
     "Flattening keeps every value under an attribute that spells its path, hidden attributes staying recognisable as hidden, and extracting sub-components keeps every value while recording where each sub-component belonged. Undoing the two in reverse order restores the instance exactly.",
     ["inputs"], "every structured instance with distinct component names",
     "Doctests transform three instances.",
     ["preprocessor.py"], [("flatten/structurize, extract/embed", "Flattener, SubComponentProcessor, Pipeline")], (), ["transform/undo_transform results"],
     TRACE % "instances as terms; all small instances enumerated", NOTE)
prop("C18", "Structure mapping renames objects one-to-one and is locally optimal",
     "Mapping an instance onto a concept renames its variables one-to-one, each to a variable of the concept or to itself, and changes nothing else; undoing restores the instance. The search stops where swapping the images of two objects, or giving an object a concept variable nothing else is mapped to, no longer raises the concept's expected number of correct guesses (it may still have taken one last step to an equally good mapping).",
     ["inputs", "histories"], "every instance and concept with disjoint variable names",
     "Tests map two or three fixed instances.",
     ["structure_mapper.py"], [("hungarian start and hill climbing", "flat_match, StructureMappingOptProblem, rename_flat")], (), ["StructureMapper.transform/undo_transform"],
     TRACE % "mappings and their neighbourhood", NOTE)
prop("C19", "Trestle fits exactly its instance, up to renaming its objects",
     "A Trestle fit adds to the tree exactly the flattened instance with its variables renamed one-to-one, so that objects matched to the same variable accumulate in the same attribute; categorising, inferring and fitting do not depend on the names the caller gave to objects (other names in the same order give the same tree, the same concept and the same inferences under the other names). Objects never merge and no attribute is lost.",
     ["histories", "inputs"], "every history of structured instances; independence of names for instances without relations between objects (there, ties are broken in the order of a set of strings)",
     "No test fits a Trestle tree.",
     ["trestle.py", "structure_mapper.py", "preprocessor.py"], [("pipeline", "TrestleTree.trestle")], (), ["difference of root tables, snapshots"],
     TRACE % "structured fits (TLC searches for the renaming)", NOTE)
prop("C20", "List processing is reversible",
     "Turning lists into elements and ordering relations and undoing it restores the instance exactly, with list order, nesting and repeated elements; relations that do not describe one total order are left as they are. Extraction alone and relations alone are each reversible too.",
     ["inputs"], "every instance with lists of symbols, numbers and components at any depth",
     "Doctests process a few fixed lists.",
     ["preprocessor.py"], [("element extraction, order relations", "ExtractListElements, ListsToRelations, ListProcessor")], (), ["transform/undo_transform results"],
     TRACE % "lists and order relations; all small lists enumerated", NOTE)
prop("C21", "Relation strings and tuples convert back and forth",
     "A well-formed relation string is parsed into the nested tuple it spells (numbers as numbers) and printing gives the string back; other attributes and all values pass unchanged.",
     ["inputs"], "every nested relation over words and numbers",
     "Three doctest relations.",
     ["preprocessor.py"], [("parser/printer", "Tuplizer")], (), ["transform/undo_transform results"],
     TRACE % "the relation parser as a stack machine", NOTE)
prop("C22", "Value conversions touch exactly their targets",
     "Converting numbers to symbols, symbols to numbers (with each failure policy) or components to variables changes exactly the targeted attributes, in nested components too, and passes every other attribute and value through unchanged; relations follow renamed objects.",
     ["inputs", "configurations"], "every instance, target list and failure policy",
     "A handful of doctests.",
     ["preprocessor.py"], [("conversion loops", "NumericToNominal, NominalToNumeric, ObjectVariablizer")], (), ["transform results"],
     TRACE % "conversions as functions on terms", NOTE)
prop("C23", "Sanitising makes any mapping acceptable and leaves acceptable ones alone",
     "For each target algorithm, sanitising any instance yields one that algorithm can fit, keeps attributes and values that were already acceptable unchanged, and is idempotent.",
     ["inputs", "configurations"], "every dictionary with arbitrary keys and values (no clashing keys)",
     "Doctests sanitise fixed instances.",
     ["preprocessor.py", "cobweb.py", "trestle.py"], [("sanitising", "Sanitizer")], (), ["transform results, fit acceptance"],
     TRACE % "acceptability of instances", NOTE)
prop("C24", "Clusterings are successive refinements of the concept hierarchy",
     "Each clustering labels every instance with a concept that is an ancestor of (or is) its leaf; the labelling after s splits is the one before with a single cluster replaced by its children, the cluster chosen to minimise the heuristic, starting from the root's children. Exactly the clusterings from minsplit to maxsplit (or until nothing can be split) are produced, k-clustering returns the last one with at most k clusters, and the caller's tree is untouched.",
     ["histories", "inputs", "configurations"], "every tree, instance list, heuristic, split range and k, fitting or only categorising",
     "No test exercises clustering.",
     ["cluster.py"], [("successive root splits on a copy", "cluster_iter, cluster, k_cluster")], (), ["yielded clusterings"],
     TRACE % "successive refinement of a frontier", NOTE)
prop("C25", "Clustering heuristics equal their formulas and the search minimises them",
     "The category-utility, AIC, AICc and BIC scores of a clustering equal their defining formulas over the clusters' tables and leaves (log-likelihoods included), and the split search returns the first clustering of least score in the requested range.",
     ["histories", "inputs", "configurations"], "every tree, instance list and heuristic",
     "No test computes a heuristic.",
     ["cluster.py", "cobweb.py", "cobweb3.py"], [("scores", "CU, AIC, AICc, BIC, log_likelihood, cluster_split_search")], (), ["yielded scores, returned clustering"],
     TRACE % "scores in fixed-point arithmetic", NOTE)
prop("C26", "Depth labels are root-to-leaf paths",
     "Depth labelling gives every instance the path of concepts from the root to its leaf, one concept per depth, padded with the leaf's own label to the deepest instance; two instances share a label at a depth exactly when they share that concept.",
     ["histories", "inputs"], "every tree and instance list, fitting or only categorising",
     "No test calls depth_labels.",
     ["cluster.py"], [("path walk", "depth_labels")], (), ["returned matrix"],
     TRACE % "paths of the recorded hierarchy", NOTE)
prop("C27", "Incremental evaluation scores each instance before learning it",
     "Each run starts from a cleared tree and, for each of at most run_length instances in turn, scores it on the tree that has learned exactly the earlier instances of the run and only then learns it; the result has one row per run and one score per instance. Scoring hides the target attribute from the tree, and errors are the documented distance between the true and the predicted value.",
     ["histories", "inputs", "configurations"], "every instance list, run length, number of runs, score function",
     "No test runs an evaluation.",
     ["evaluation.py"], [("score-then-fit loop", "incremental_evaluation, probability, error, absolute_error, squared_error")], (), ["call log of a recording tree, returned table"],
     TRACE % "the evaluation protocol", NOTE)
prop("C28", "Exports describe exactly the current tree",
     "The exported JSON mirrors the hierarchy concept by concept with names, sizes, tables and number statistics; the leafless and clustered views are that export with leaves, respectively everything below the given concepts, removed. Files are written only to the chosen folder and always contain the current export.",
     ["histories", "inputs", "configurations"], "every tree, number of cuts and set of clusters",
     "Only one accumulator's JSON is tested.",
     ["cobweb.py", "cobweb3.py", "visualize.py"], [("export and trimming", "output_json, _trim_leaves, _trim_to_clusters, _gen_viz")], (), ["output.js contents"],
     TRACE % "views of a hierarchy", NOTE)
prop("C29", "Choice and statistics helpers honour their contracts",
     "The weighted choice returns only alternatives of positive weight and each with its share of the draw range, the most likely choice returns one of maximal weight, both refuse empty lists and negative weights; mean and standard deviation equal their definitions and a value counts as a number exactly when it is a real number that is neither a boolean nor NaN.",
     ["inputs"], "every list of weighted alternatives, every draw, every list of numbers",
     "Tests sample a few lists.",
     ["utils.py"], [("choice and statistics", "weighted_choice, most_likely_choice, mean, std, isNumber, c4")], (), ["return values under controlled draws"],
     TRACE % "choices over exact rationals", NOTE)
prop("C30", "The dummy baseline is a single concept holding everything",
     "After any history the dummy tree is one concept whose table is the tally of everything fitted since the last clear; every fit and categorisation returns it, and its predictions and probabilities are those of that table.",
     ["histories", "inputs"], "every history of structured and flat instances",
     "No test uses the dummy tree.",
     ["dummy.py"], [("root-only fitting", "DummyTree.ifit/categorize")], (), ["tree.root"],
     TRACE % "a one-concept hierarchy", NOTE)
prop("C31", "Loading n instances gives the first n of the data set",
     "For every data set, asking for n instances returns exactly the first n of the full data set (all of them if there are fewer), loading twice gives equal data, and modifying what was returned does not affect later loads; the generator of animals returns as many as asked.",
     ["inputs", "configurations"], "every data set and every n",
     "Tests load one instance and look at the first.",
     ["datasets.py", "data_files/generate_quadruped.py"], [("line reader", "_load_json")], (), ["returned lists"],
     TRACE % "a stream of records and a loader", NOTE)


prop("C32", "Concept operations done by hand keep counts and links right",
     "Applied by hand in any order, the operations on concepts do exactly what they say: adding an instance changes one concept's tally by that instance, a new child holds only its instance, pushing a concept down gives it one child with its counts, merging two children puts a concept with their summed counts between them and their parent, splitting a child puts its children in its place, copies hold equal but independent tallies. Parent and child links of every concept always agree and nothing else changes.",
     ["histories", "inputs"], "every sequence of operations on concepts, every instance",
     "Tests call create_new_child, split and merge once each on a two-child tree.",
     ["cobweb.py", "cobweb3.py", "continuous_value.py"], [("operations", "CobwebNode.increment_counts, update_counts_from_node, create_new_child, create_child_with_current_counts, merge, split, shallow_copy, __init__(otherNode)")], (), ["snapshot after each operation"],
     TRACE % "operations on a hierarchy", NOTE)
prop("C33", "Questions about the hierarchy's shape are answered truthfully",
     "For every concept, depth is its distance from the root, num_concepts the number of concepts at and below it, is_parent holds exactly of its ancestors (and itself), attrs gives exactly its attributes passing the chosen filter, an exact match is reported exactly when the concept's instances all look like the given one on visible attributes, printing shows every concept at and below it, and asking changes nothing.",
     ["histories", "inputs"], "every reachable concept, pair of concepts, filter and instance (exact matches with numbers are asked of leaves)",
     "Tests ask a hand-built tree of three concepts.",
     TREES, [("shape questions", "CobwebNode.depth, num_concepts, is_parent, attrs, is_exact_match, pretty_print, __hash__")], (), ["return values"],
     TRACE % "questions about a recorded hierarchy", NOTE)
prop("C34", "Trees and copies of trees are independent of each other",
     "A deep copy or a pickled and restored tree is equal to the original, continues exactly like it given the same instances and random choices, and nothing done to one changes the other; any number of trees used in turn in one program each behave exactly as if used alone; concepts created in a copied or restored tree have ids no other concept of it has.",
     ["histories", "schedules"], "every history, every moment of copying, every interleaving of work on several trees, all tree kinds and settings",
     "No test copies a tree or uses two at once.",
     ["cobweb.py", "cobweb3.py", "trestle.py", "dummy.py", "continuous_value.py"], [("state kept per tree", "CobwebTree/Cobweb3Tree/TrestleTree attributes, CobwebNode.gensym")], (), ["snapshots of each tree before and after work on another"],
     TRACE % "twin executions", NOTE)
prop("C35", "Pipelines apply their parts in order and undo them in reverse",
     "A pipeline transforms an instance by each of its parts in order and undoes by the parts' undoing in reverse order, at any nesting; one-way parts undo to the same instance; a batch is the list of single transforms in order. Chains of the library's reversible preprocessors restore the instance exactly.",
     ["inputs", "configurations"], "every composition of preprocessors and every instance (for chains that name objects after list elements: no list directly inside a list)",
     "Doctests run two fixed pipelines.",
     ["preprocessor.py"], [("composition", "Pipeline, OneWayPreprocessor, Preprocessor.batch_transform/batch_undo")], (), ["transform/undo_transform/batch results"],
     TRACE % "composition of transformations", NOTE)

prop("C36", "Names inside structured attributes are found, renamed and compared exactly",
     "Collecting the names of an attribute or instance finds exactly its variables, or on request every part at any depth that is not hidden. Renaming replaces exactly the mapped names wherever they occur, all at once (swaps included), and keeps every value. Containment and partial matching hold exactly when they hold part by part.",
     ["inputs"], "every attribute (names and nested relations over names), every mapping; renaming of a whole instance by one-to-one mappings",
     "Doctests try a dozen attributes.",
     ["preprocessor.py", "structure_mapper.py"], [("name functions", "get_attribute_components, get_component_names, rename_relation, rename_flat, bind_flat_attr, contains_component, is_partial_match")], (), ["return values"],
     TRACE % "attributes as terms; all small ones enumerated", NOTE)


def main():
    import registry
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier",
                                                  "why_tests_cant", "anchors")}) + "\n")
    py = "/opt/venv/bin/python harness/run.py"
    checks, na = [], []
    for p in P:
        if p["id"] in registry.CHECKS:
            checks.append({"property": p["id"], "quick_cmd": "%s %s --tier quick" % (py, p["id"]),
                           "thorough_cmd": "%s %s --tier thorough" % (py, p["id"]),
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specification in spec/, drivers in harness/. No hooks: every check observes the public API."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


main()
