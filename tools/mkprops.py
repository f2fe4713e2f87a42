"""Regenerates /verif/properties.jsonl (kept in one place so that it stays valid against the schema)."""
import json, pathlib
S = "src/ConfigSpace/"
HPC = S + "hyperparameters/hp_components.py"
HP = S + "hyperparameters/hyperparameter.py"
DIST = S + "hyperparameters/distributions.py"
FUN = S + "functional.py"
CAT, ORD, CONST = (S + f"hyperparameters/{x}.py" for x in ("categorical", "ordinal", "constant"))
NUM = [S + f"hyperparameters/{a}_{b}.py" for a in ("uniform", "normal", "beta") for b in ("float", "integer")]
COND, FORB, TREE = S + "conditions.py", S + "forbidden.py", S + "_condition_tree.py"
CS, CFG, UTIL = S + "configuration_space.py", S + "configuration.py", S + "util.py"
RW = S + "read_and_write/dictionary.py"
API = S + "api/types/"

def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    return d

P = [
p("C01", "Encoding a value as a vector and decoding it returns the value",
  "For every hyperparameter of every type (float and integer with uniform, normal or beta prior, linear or log scale; categorical, ordinal, constant) and every legal value, converting the value to its vector form gives a legal vector inside the declared vector bounds, and converting that back gives the same value (exactly for discrete types and integers, up to rounding for floats). Every legal vector converts to a legal value. Converting one value at a time and converting an array of values give the same results, element by element and in the same order.",
  ["inputs", "configurations"], "all hyperparameters of all types with all bounds/choices/log settings; all legal values and legal vectors; scalars and arrays of every length",
  "tests encode a few values of a few ranges; an error at a bound, at a particular choice position, in the log branch or in only one of the scalar/array paths needs that particular input",
  [HPC, HP, FUN, CAT, ORD, CONST] + NUM,
  [("sequence, unit-interval and constant transformers", HPC), ("to_value/to_vector dispatch", HP), ("scale/normalize", FUN)],
  ["Hyperparameter.to_vector", "Hyperparameter.to_value", "Hyperparameter.legal_vector"]),
p("C02", "Legality of values and vectors is exactly the declared domain",
  "For every hyperparameter, a value is reported legal exactly when it belongs to the declared domain: within the closed bounds and (for integers) integral, one of the declared choices or sequence elements, or the constant; a vector is reported legal exactly when it is the encoding of such a value. The answer is the same whether asked for one item or for an array of items, and hashable items of an unrelated type are reported illegal instead of raising (where no declared choice or constant is itself a list or tuple). A number counts as integral when it is within the relative tolerance 1e-5 of an integer. A default value outside the domain is rejected on construction.",
  ["inputs", "configurations"], "all hyperparameters; all candidate values and vectors, inside, outside and on the boundary, of the right or an unrelated type",
  "the domain is infinite and the bugs sit on its boundary or in one of the duplicated scalar/array implementations",
  [HPC, HP, FUN, CAT, ORD, CONST] + NUM,
  [("legal_value/legal_vector and their single-item twins", HPC), ("argument dispatch and default check", HP)],
  ["Hyperparameter.legal_value", "Hyperparameter.legal_vector", "constructors"]),
p("C03", "Sampling a hyperparameter yields only legal values",
  "For every hyperparameter, seed and sample count n, sampling vectors or values yields exactly n items (or one bare item when no count is given), each of them legal; sampled values are the decoding of sampled vectors. The same seed gives the same samples.",
  ["inputs", "configurations"], "all hyperparameters of all types and priors, all seeds, all sample counts",
  "a sampler can leave the domain only for rare draws, for particular bounds (rounding at the ends, log scale) or for particular weights",
  [HP, DIST, FUN, HPC, CAT] + NUM,
  [("distribution classes", DIST), ("quantize / quantize_log", FUN), ("sample_value / sample_vector", HP)],
  ["Hyperparameter.sample_vector", "Hyperparameter.sample_value"]),
p("C04", "Neighbours of a value are legal, distinct and different from it",
  "For every hyperparameter, legal value, requested count n and seed, the neighbours returned for that value are legal, at most n, and (for all hyperparameters with finitely many values) never the value itself, pairwise distinct and exactly min(n, number of other values) many. Neighbours of an ordinal value are the adjacent positions of the sequence; neighbours in value form are the decoding of neighbours in vector form; a constant has none.",
  ["inputs", "configurations"], "all hyperparameters, all legal centres, all requested counts, all seeds",
  "depends on the centre being at an end of the range, on the count reaching the number of available neighbours, and on random draws",
  [DIST, HPC, CAT, ORD, CONST, HP],
  [("quantized/continuous neighbourhoods", DIST), ("ordinal and categorical neighbourhoods", HPC + ", " + CAT)],
  ["Hyperparameter.neighbors_vectorized", "Hyperparameter.neighbors_values"]),
p("C05", "All forms of evaluating a condition agree with its relation",
  "For every condition (equals, not equals, less than, greater than, in) the evaluation on values, on one configuration vector and on a matrix of vectors all give the truth of the named relation between the parent's value and the condition's value(s), and false when the parent is inactive; ordinal parents compare by position. A conjunction is true exactly when all (AND) or at least one (OR) of its components are, for any number of components and any nesting.",
  ["inputs", "programs"], "all condition types over all parent types and values, all nestings, all configurations including inactive parents",
  "the three evaluation paths are written separately and are used by different features; agreement must hold for every parent type, value and nesting",
  [COND],
  [("satisfied_by_value / satisfied_by_vector / satisfied_by_vector_array", COND)],
  ["Condition.satisfied_by_value", "Condition.satisfied_by_vector", "Condition.satisfied_by_vector_array"]),
p("C06", "All forms of evaluating a forbidden clause agree with its relation",
  "For every forbidden clause (equals, in, relations between two hyperparameters, and conjunctions) the evaluation on values, on one configuration vector and on a matrix of vectors all give the truth of the named relation, and false when a hyperparameter it mentions is inactive; a forbidden conjunction holds exactly when all of its components hold. Clauses a space uses internally to speed up checking forbid exactly the same configurations as the clauses that were added.",
  ["inputs", "programs"], "all clause types over all hyperparameter types and values, all conjunctions, all sets of clauses, all configurations",
  "as for conditions; in addition the internal merging of clauses is only wrong for particular combinations of clauses",
  [FORB, TREE],
  [("is_forbidden_value / is_forbidden_vector / is_forbidden_vector_array", FORB), ("merging of clauses", TREE)],
  ["ForbiddenLike.is_forbidden_*", "ConfigurationSpace.forbidden_clauses", "Configuration()"]),
p("C07", "Validation accepts exactly the valid configurations",
  "Creating a configuration from values, or validating one given as a vector (of finite numbers, or NaN for unset), succeeds if and only if every value set is legal, exactly the active hyperparameters (those without a condition, and those whose condition is satisfied by the configuration) are set, and no forbidden clause holds; otherwise it raises an error that is a ValueError. With the option that allows it, values for inactive hyperparameters are accepted and everything else is still checked.",
  ["inputs", "programs"], "all spaces (any number of hyperparameters, conditions and forbidden clauses, any nesting) and all assignments of values or vectors",
  "whether a configuration is valid depends on the combination of structure and values; a validator that skips one check or one hyperparameter is right on almost all inputs",
  [UTIL, CFG, CS, TREE, COND, FORB],
  [("check_configuration", UTIL), ("Configuration constructor", CFG), ("active hyperparameters", CS)],
  ["Configuration()", "Configuration.check_valid_configuration", "ConfigurationSpace.get_active_hyperparameters"]),
p("C08", "Sampled configurations are valid and as many as requested",
  "For every space that has a valid configuration, every seed and every count, sampling returns that many configurations (one bare configuration when no count is given), each of which is valid: all values legal, exactly the active hyperparameters set, no forbidden clause violated. The same seed gives the same sequence of configurations.",
  ["inputs", "programs", "histories"], "all spaces with a valid configuration, all seeds, all counts, all sequences of sampling calls",
  "sampling is vectorised and bypasses validation, so a wrong activation order or a skipped clause yields invalid configurations only for particular structures and draws",
  [CS, TREE, COND, FORB, DIST],
  [("sample_configuration", CS), ("order of conditions", TREE)],
  ["ConfigurationSpace.sample_configuration"],
  [("minimum conditions", "grouped conditions in an order in which every parent is settled before its children", TREE)]),
p("C09", "Neighbouring configurations are valid and change one hyperparameter",
  "Every configuration yielded as a one-exchange neighbour, and every random neighbour, of a valid configuration is itself valid and differs from it in the value of exactly one hyperparameter that was active, apart from hyperparameters that this change activates (which get their default) or deactivates; the original configuration is left unchanged.",
  ["inputs", "programs"], "all spaces, all valid configurations, all seeds, all numbers of neighbours",
  "only particular structures (children activated by the change, clauses on those children) and draws produce a bad neighbour",
  [UTIL, TREE, DIST],
  [("get_one_exchange_neighbourhood, get_random_neighbor, change_hp_value", UTIL)],
  ["get_one_exchange_neighbourhood", "get_random_neighbor"]),
p("C10", "Setting a value keeps a configuration valid or leaves it unchanged",
  "Assigning a value to a hyperparameter of a valid configuration either succeeds, and then the configuration is valid, has the assigned value, gives newly activated hyperparameters their default, no longer has the deactivated ones and is otherwise unchanged; or it raises an error and the configuration is exactly as before. Illegal values, inactive hyperparameters and changes that violate a forbidden clause raise.",
  ["inputs", "programs", "histories"], "all spaces, all valid configurations, all hyperparameters and values, all sequences of assignments including failing ones",
  "depends on chains of conditions of different depth and on what was cached by earlier reads; tests exercise a handful of assignments",
  [CFG, UTIL, TREE],
  [("Configuration.__setitem__", CFG), ("change_hp_value", UTIL), ("lookup of dependent conditions", TREE)],
  ["Configuration.__setitem__", "Configuration.__getitem__"],
  [("cached values", "decoded values of the current vector, reset on change", CFG)]),
p("C11", "The default configuration holds the defaults of the active hyperparameters",
  "For every space to which adding succeeded, the default configuration is valid, sets exactly the hyperparameters that are active when every hyperparameter takes its default, and gives each of them its default value. Adding a forbidden clause that would forbid the default configuration raises an error.",
  ["programs"], "all spaces built from all hyperparameter types, conditions and forbidden clauses",
  "depends on the nesting of conditions and on which defaults satisfy them",
  [CS, CFG, TREE, COND],
  [("_check_default_configuration", CS)],
  ["ConfigurationSpace.get_default_configuration", "ConfigurationSpace.add"]),
p("C12", "The layout of a space is consistent and parents come before children",
  "In every space, looking up the position of a name and the name at a position are inverse to each other and agree with the iteration order, every parent comes before its children, and hyperparameters are listed as conditional or unconditional exactly according to whether they have a condition; the layout does not depend on the order in which things were added. Duplicate names, unknown hyperparameters in conditions or clauses, a second different condition for the same child, and cyclic conditions are rejected with an error.",
  ["programs", "histories"], "all sequences of additions of hyperparameters, conditions and clauses, in all orders",
  "needs particular orders of additions and graph shapes (diamonds, chains added bottom up, long cycles)",
  [TREE, CS],
  [("DAG.update / add_condition / cycle check", TREE)],
  ["ConfigurationSpace.index_of", "ConfigurationSpace.at", "iteration", "parents_of / children_of", "ConfigurationSpace.add"]),
p("C13", "Serialising a space and reading it back gives an equal space",
  "For every space of supported hyperparameters, conditions (any nesting) and forbidden clauses, encoding to a dictionary or to JSON and decoding gives a space equal to the original in name, hyperparameters (bounds, scale, choices, weights, defaults, meta), conditions and clauses, that accepts exactly the same configurations with the same vectors. Decoding does not modify the dictionary it is given.",
  ["inputs", "programs"], "all spaces over JSON-representable values",
  "one dropped or swapped field is only visible for hyperparameters that use a non-default value of it",
  [RW, CS],
  [("encoders and decoders", RW), ("to/from_serialized_dict, to/from_json", CS)],
  ["ConfigurationSpace.to_serialized_dict", "ConfigurationSpace.from_serialized_dict", "to_json", "from_json"]),
p("C14", "Composing spaces and removing priors preserve structure and meaning",
  "Adding a space under a prefix adds exactly its hyperparameters, conditions and clauses under the prefixed names, with every added top-level hyperparameter conditioned on the given parent value, and leaves the added space unchanged. Removing priors gives a space with the same names, bounds, choices, defaults, conditions and clauses in which every numerical hyperparameter is uniform and categorical ones are unweighted, so that both spaces accept exactly the same configurations; the original is unchanged.",
  ["programs"], "all spaces, prefixes, delimiters and parents; all nestings of conditions",
  "depends on nested structures and on objects shared between the two spaces, which only later operations reveal",
  [CS, COND, FORB, HP, CAT] + NUM,
  [("add_configuration_space, remove_hyperparameter_priors, substitute_*", CS), ("to_uniform", HP)],
  ["ConfigurationSpace.add_configuration_space", "ConfigurationSpace.remove_hyperparameter_priors"]),
p("C15", "Grid generation yields every valid grid configuration exactly once",
  "For every space of uniform numerical, categorical, ordinal and constant hyperparameters, the generated grid contains each valid configuration over the grid values exactly once and nothing else, where the grid values of a numerical hyperparameter are the requested number of evenly spaced points of its range (on its scale, both ends included, rounded to integers for integers) and those of the others are all their values.",
  ["inputs", "programs"], "all such spaces with conditions and forbidden clauses, all step counts",
  "omissions or repetitions only show for particular condition structures, where points have to be extended several times",
  [UTIL],
  [("generate_grid", UTIL)],
  ["generate_grid"]),
p("C16", "A configuration is a consistent mapping, equal ones hash equally",
  "A configuration maps exactly its set hyperparameters to the decoded (for floats rounded) values of its vector: membership, lookup, iteration, get and conversion to a dictionary agree with each other and with the vector, before and after any reads or assignments, whether it was made from values or from a vector. Configurations are equal exactly when their spaces and their dictionaries are equal, and then they have equal hashes.",
  ["inputs", "histories"], "all configurations, however created, and all sequences of reads and assignments",
  "values are cached and can go stale; numerically equal values of different types occur only for particular constructions",
  [CFG],
  [("cached values, __getitem__, __iter__, __contains__, __eq__, __hash__", CFG)],
  ["Configuration mapping methods", "Configuration.get_array", "hash"]),
p("C17", "Deactivating and imputing change only what they should",
  "Removing the inactive hyperparameters from an assignment of values gives the valid configuration with the same values for exactly the active hyperparameters (for assignments that violate no forbidden clause). Imputing a configuration keeps every set value and gives every inactive hyperparameter its default (or the given number, where it is legal), for all structures of conditions, where the result violates no forbidden clause; the inputs are left unchanged.",
  ["inputs", "programs"], "all spaces, all assignments in which every active hyperparameter has a legal value, with and without values for inactive ones",
  "depends on chains of conditions in which intermediate hyperparameters are missing or inactive",
  [UTIL],
  [("deactivate_inactive_hyperparameters, impute_inactive_values", UTIL)],
  ["deactivate_inactive_hyperparameters", "impute_inactive_values"]),
p("C18", "Densities vanish outside the domain and never exceed the maximum",
  "For every hyperparameter, the density of a value or vector is non-negative, is zero for everything that is outside the bounds or not one of the choices, is positive for possible choices, never exceeds the reported maximum density, and is the same for a value and for its vector form. For categorical (weighted or not) and uniform discrete hyperparameters the densities of all values sum to one.",
  ["inputs", "configurations"], "all hyperparameters of all priors, all values and vectors inside and outside the domain",
  "tests pin a few densities; a bound handled wrongly or a missing normalisation shows only for particular parameters",
  [DIST, HP, CAT, CONST] + NUM,
  [("pdf_vector / max_density", DIST), ("pdf_values", HP)],
  ["Hyperparameter.pdf_values", "Hyperparameter.pdf_vector", "Hyperparameter.get_max_density"]),
p("C19", "Chunked ranges and quantisation match their mathematical definition",
  "Chunked ranges (non-empty, positive step) yield, concatenated, exactly the elements of the unchunked range in order, with no chunk longer than asked; splitting and centred ranges cover each index exactly once, and centred ranges in order of distance from the centre. Quantising maps every number inside the bounds to one of the requested number of evenly spaced levels, hits both ends, is monotone and leaves levels where they are; scaling and normalising between intervals are inverse to each other.",
  ["inputs"], "all numbers, bounds, bin counts, chunk sizes and steps in the documented ranges",
  "off-by-one errors at chunk boundaries, bin boundaries and range ends need particular sizes",
  [FUN],
  [("arange_chunked, linspace_chunked, split_arange, center_range, quantize, quantize_log, scale, normalize, rescale", FUN)],
  ["ConfigSpace.functional"]),
]
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
if __name__ == "__main__":
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x, sch); assert len(x["title"]) <= 80
    print(len(P))
