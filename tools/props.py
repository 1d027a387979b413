RC = "reductionml-core/src/"
R = RC + "reductions/"
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note))


P("C01", "A saved model, reloaded at any point, behaves identically",
  """Saving a workspace to its binary model form and loading it back, at any point of any learning history and for
  any reduction stack and global settings, gives a workspace whose every later prediction, learned state and saved
  form are identical to those of the workspace that was never saved. This also holds when the model is saved and
  reloaded before every single operation, and saving does not change the model.""",
  ["histories", "crash_points", "configurations"],
  "every stack of reductions, every history of learn / predict / predict-then-learn, every point at which a checkpoint is taken",
  "Tests save one small model once; state that only matters later in a history (counters, label range, normalisers, interaction settings) can be dropped from the saved form without any of them noticing.",
  [RC + "workspace.rs", R + "coin.rs", R + "cb_adf.rs", R + "cb_explore_adf_squarecb.rs", RC + "dense_weights.rs"],
  [("serialize_model / create_from_model", RC + "workspace.rs"), ("serde derives of each reduction", R), ("weights serialisation", RC + "dense_weights.rs")],
  ["Workspace::serialize_model", "Workspace::create_from_model", "predictions after reload"],
  "stateful property-based testing: checkpoint/restore against the uninterrupted twin",
  "Exact comparison of predictions and of the saved bytes over generated stacks and histories; sampled, not exhaustive; trusts the generator's reach over the configuration space.")

P("C02", "Model JSON export and import preserve the model",
  """Exporting any trained workspace to JSON, writing it as text, reading the text back and importing it gives a
  workspace that predicts and continues to learn exactly as the original does and that exports to the same JSON
  again.  A model with infinite or undefined numbers, which JSON does not have, is refused with an error.""",
  ["histories", "configurations"],
  "every stack and learning history, diverging ones included, at every export point, compact or pretty-printed",
  "Tests compare one exported model with itself; sparse weights, indices of interactions, counters and precision of floats after real histories are not exercised.",
  [RC + "workspace.rs", RC + "dense_weights.rs", R + "coin.rs"],
  [("serialize_to_json / deserialize_from_json", RC + "workspace.rs"), ("sparse JSON form of dense weights", RC + "dense_weights.rs")],
  ["Workspace::serialize_to_json", "Workspace::deserialize_from_json"],
  "stateful property-based testing: round trip through printed JSON against the original",
  "Exact comparison over generated stacks and histories; sampled.")

P("C03", "Predicting changes nothing, and learning leaves the example intact",
  """A prediction never changes the model: inserting any number of predictions anywhere in a history changes no later
  prediction and no saved model. Predicting, learning and predict-then-learn on an example object leave the features of
  that object as they were, so it can be used again with the same result.""",
  ["histories", "configurations"],
  "every stack, every history, every placement of extra predictions, every example with or without shared features",
  "Tests call predict and learn on fresh objects in a fixed order; leaked state in the example (shared features left in an action, constant or interaction features left behind) shows only on reuse.",
  [R + "cb_adf.rs", R + "elementwise_interaction.rs", RC + "sparse_namespaced_features.rs", RC + "workspace.rs"],
  [("append / remove of shared features", R + "cb_adf.rs"), ("temporary namespace of the elementwise reduction", R + "elementwise_interaction.rs")],
  ["predictions", "feature objects after the call", "Workspace::serialize_model"],
  "stateful property-based testing: metamorphic insertion of predictions, before/after comparison of examples",
  "Exact comparison; observed through the public feature accessors and saved model bytes; sampled.")

P("C04", "Predict-then-learn equals a prediction followed by learning",
  """For every stack, history and example, the combined predict-then-learn operation returns exactly the prediction that
  a plain predict would have returned on the model as it was before the label was seen, and leaves the model exactly as
  the plain learn would.""",
  ["histories", "configurations"],
  "every stack and every history of labelled examples",
  "Tests use the combined call only to drive learning; a specialised implementation in one reduction can return the prediction after the update or update twice unnoticed.",
  [RC + "reduction.rs", RC + "workspace.rs", R + "debug.rs"],
  [("default predict_then_learn", RC + "reduction.rs"), ("ReductionWrapper dispatch", RC + "reduction.rs")],
  ["Workspace::predict_then_learn", "Workspace::serialize_model"],
  "stateful property-based testing: differential between combined and separate calls",
  "Exact comparison of predictions and model bytes over generated histories; sampled.")

P("C05", "The Debug reduction is transparent",
  """Inserting Debug reductions, with any options, at any level of a reduction stack changes neither any prediction nor
  the learned parameters: the stack with them behaves exactly as the stack without them on every history.""",
  ["configurations", "histories"],
  "every stack, every set of insertion points and Debug options, every history",
  "No test compares a stack with Debug against the stack without; offsets, types and calls forwarded by the wrapper matter only in deeper stacks.",
  [R + "debug.rs"],
  [("forwarding of predict/learn/predict_then_learn", R + "debug.rs")],
  ["predictions", "weights in the exported model"],
  "stateful property-based testing: metamorphic insertion of Debug",
  "Exact comparison; the text Debug prints to stderr is not judged.")

P("C06", "Every exploration prediction is a valid probability distribution",
  """Whatever an exploration reduction (greedy, softmax, square-cb) has learned and however it is configured within its
  documented ranges, each prediction lists every action of the example exactly once, every probability is within [0, 1],
  and the probabilities sum to one (up to single-precision rounding).""",
  ["histories", "configurations", "inputs"],
  "every exploration stack and parameter, every learned history, every action set from one action up",
  "Tests check a few sums on tiny action sets with tame scores; extreme scores, ties, single actions and parameter corners decide whether the result is still a distribution.",
  [R + "cb_explore_adf_greedy.rs", R + "cb_explore_adf_softmax.rs", R + "cb_explore_adf_squarecb.rs", RC + "explore.rs"],
  [("generate_softmax / enforce_min_prob", RC + "explore.rs"), ("greedy and square-cb distributions", R)],
  ["Prediction::ActionProbs"],
  "stateful property-based testing with a distribution invariant on every prediction",
  "Invariant checked with a tolerance of a few ulps per action; sampled.")

P("C07", "Exploration follows the documented policies",
  """Given the scores of the wrapped learner: greedy gives every action epsilon/K plus 1-epsilon to the first action of
  lowest score; softmax gives probabilities proportional to exp(-lambda*score); square-cb gives 1/(K+gamma*(score-best))
  to every action but the best and the rest to the best, with gamma=scale*t^exponent for t learned examples; softmax
  and square-cb are then lifted to the uniform floor given by their epsilon. The exploration wrapper itself learns
  exactly what the wrapped learner learns (square-cb with probability taken as one).""",
  ["histories", "configurations", "inputs"],
  "every policy, parameters, learned history and action set",
  "Existing tests check greedy on one example and convergence of a simulation; a wrong exponent, counter, tie or floor still converges.",
  [R + "cb_explore_adf_greedy.rs", R + "cb_explore_adf_softmax.rs", R + "cb_explore_adf_squarecb.rs", RC + "explore.rs"],
  [("policy formulas", R), ("example counter of square-cb", R + "cb_explore_adf_squarecb.rs")],
  ["Prediction::ActionProbs against Prediction::ActionScores of the wrapped learner run alongside"],
  "stateful property-based testing against a double-precision reference of the policies",
  "Tolerance for single precision; the wrapped learner is run on its own on the same history as the source of scores.")

P("C08", "Probability floors are enforced exactly and reject bad floors",
  """Enforcing a minimum probability over a distribution of K entries yields a distribution in which every selected entry is
  at least floor/K, reached with the least change: entries below are raised to the floor and the others all give up one
  common amount, so a distribution that already meets the floor is unchanged, and entries of zero stay zero when zeros are
  not to be updated. A floor outside [0, 1] or an empty list is refused with an error instead of producing a result.""",
  ["inputs"],
  "every distribution of any size, every floor, zeros included or excluded",
  "Tests try a dozen hand-made vectors; ties, chains of entries pushed below the floor by rescaling, and near-degenerate mass need search.",
  [RC + "explore.rs"],
  [("enforce_min_prob", RC + "explore.rs")],
  ["the returned distribution"],
  "property-based testing against an independent bisection reference",
  "Compared in double precision with a tolerance; sampled sizes up to 120.")

P("C09", "Contextual bandit learning equals its regressor on the merged examples",
  """A contextual bandit stack scores each action with its regressor's raw prediction for the action's features together
  with the shared ones. It learns exactly as feeding that regressor by hand: with ips every action in order, with
  cost/probability for the chosen one and zero for the others; with mtr only the chosen action, with its cost as label and
  weight (1/probability)*(examples seen)/(actions seen), the current example included.""",
  ["histories", "configurations"],
  "every history of contextual examples with and without shared features, both estimators, every regressor setting and interaction",
  "Tests run a simulation to a reward threshold; a wrong weight, target or feature merge still learns well enough to pass.",
  [R + "cb_adf.rs", RC + "sparse_namespaced_features.rs"],
  [("ips/mtr label generation", R + "cb_adf.rs"), ("merge of shared and action features", R + "cb_adf.rs")],
  ["Prediction::ActionScores after every step"],
  "stateful property-based testing: differential between the CB stack and its regressor driven by hand",
  "The regressor is driven through its own public workspace on merged examples; exact up to float tolerance.")

P("C10", "An action's score does not depend on the other actions",
  """In contextual bandit prediction the score of an action depends only on its own features and the shared ones:
  permuting, removing or adding other actions never changes it, and results are reported under the action's own position.
  With mtr, permuting the actions of every learned example (and the label with them) leaves the model unchanged.""",
  ["histories", "inputs"],
  "every learned model, every action set, permutation, subset and superset",
  "No test permutes or drops actions; a leak of features or state from one action to the next needs particular feature overlaps.",
  [R + "cb_adf.rs", RC + "sparse_namespaced_features.rs"],
  [("per-action loop with append/remove of shared features", R + "cb_adf.rs")],
  ["Prediction::ActionScores", "Workspace::serialize_model"],
  "property-based testing: metamorphic permutation, subset and superset of actions",
  "Exact comparison of scores; sampled.")

PA = RC + "parsers/"
P("C13", "VW text means what the documentation says",
  """Every well-formed VW text example gives exactly the features and label its documented grammar denotes: namespaces with
  optional scale, default namespace, numbered, named, anonymous and string-valued features in order, features of a repeated
  namespace together, labels with optional weight, tags ignored. A feature's index is its documented hash, chained from seed
  to namespace, name and string value, reduced to the configured bits. In multi-line examples the shared line, the position
  of each action and the single labelled action are the ones written.""",
  ["inputs", "configurations"],
  "every well-formed line or group of lines, hash seed and number of bits",
  "Tests parse a handful of lines; combinations of scale, anonymous counters, repeated namespaces, tags, blanks, spellings of numbers and hash settings are endless.",
  [PA + "vw_text_parser.rs", RC + "parsers.rs", RC + "hash.rs", RC + "sparse_namespaced_features.rs"],
  [("segment, namespace and feature parsing", PA + "vw_text_parser.rs"), ("hash chain", RC + "parsers.rs")],
  ["features and label returned by the text parser"],
  "grammar-based generation of texts together with their meaning (reference model)",
  "Exact comparison; the XXH3 implementation itself is shared with the code under test.")

P("C14", "JSON examples mean what the documentation says",
  """Every well-formed JSON example, simple or contextual bandit, gives exactly the features and label the documented format
  denotes: objects of numbers, strings and booleans (true is one, false is absent), arrays of numbers (numbered by position) or of
  names, the default namespace, optional label and weight (default one), shared and action features. The order of keys,
  blanks and the way strings are escaped do not matter.""",
  ["inputs", "configurations"],
  "every document of the format, hash seed and number of bits",
  "Tests parse a few documents; escapes, empty collections, optional parts, key order and odd names multiply beyond them.",
  [PA + "json_parser.rs", RC + "parsers.rs", RC + "hash.rs"],
  [("JSON features and labels", PA + "json_parser.rs")],
  ["features and label returned by the JSON parser"],
  "grammar-based generation of documents together with their meaning (reference model)",
  "Exact comparison of the features of each namespace as a multiset; the XXH3 implementation is shared with the code under test.")

P("C15", "DSJSON examples mean what the documentation says",
  """Every well-formed DSJSON example gives exactly the features and label it denotes: shared features from the context and
  actions from its list, scalars in the default namespace or that of the nearest enclosing key, nested objects, arrays (numbers
  by position, objects and nulls allowed), keys starting with an underscore skipped, and the label from the three label
  fields or none. Key order, unrelated fields, blanks and escapes do not matter.""",
  ["inputs", "configurations"],
  "every document of the format up to the generated nesting depth, hash seed and number of bits",
  "Tests parse a few logged lines; nesting, arrays mixing numbers with objects and nulls, and skipped keys at any depth are not covered.",
  [PA + "dsjson_parser.rs", RC + "parsers.rs", RC + "hash.rs"],
  [("recursive walk of the context", PA + "dsjson_parser.rs")],
  ["features and label returned by the DSJSON parser"],
  "grammar-based generation of documents together with their meaning (reference model)",
  "Exact comparison of the features of each namespace as a multiset; nesting depth up to four.")

P("C16", "The input formats are interchangeable",
  """The same example written as VW text, JSON or (for contextual bandits) DSJSON gives the same features and label, and a
  data set written in each of the formats trains the same model with the same predictions, bit for bit.""",
  ["inputs", "configurations", "histories"],
  "every example expressible in all formats and every data set of such examples, for every stack",
  "Tests never compare two formats; a difference in hashing, default namespace, order or number conversion is invisible to each parser's own tests.",
  [PA + "vw_text_parser.rs", PA + "json_parser.rs", PA + "dsjson_parser.rs"],
  [("three parsers of one semantics", PA)],
  ["features, labels, predictions and model bytes"],
  "differential property-based testing of the parsers on one abstract example",
  "Exact comparison; names avoid characters that one of the formats gives a meaning to.")

P("C17", "Streams are split into the examples they contain",
  """Reading examples one after another from a stream yields exactly the examples written to it, in order, and then the end:
  whatever the sizes in which the stream delivers its bytes, whatever buffer is handed in, with LF or CRLF line ends, with
  or without a final newline, and for VW text with any number of blank lines between examples.""",
  ["inputs", "histories"],
  "every sequence of examples, placement of blank lines, line ending and chunking of the reads",
  "Tests read two small in-memory strings; leftovers in the reused buffer, split reads and odd ends are not exercised.",
  [PA + "text_parser.rs", PA + "vw_text_parser.rs", PA + "json_parser.rs", PA + "dsjson_parser.rs"],
  [("get_next_chunk", PA)],
  ["sequence of parsed examples until the end of the stream"],
  "property-based testing: round trip of a list of examples through a written stream with injected short reads",
  "Exact comparison of all parsed examples.")

P("C18", "Parsing an example does not depend on what was parsed before",
  """A parser gives each text the same features and label however many other texts, well-formed or malformed, it parsed
  before, however many parsed examples are alive, after their storage was returned for reuse, and when used from several
  threads at once; parsed examples never change afterwards.""",
  ["histories", "schedules"],
  "every sequence of texts, lifetime of the parsed examples and number of threads",
  "Tests use a fresh parser and pool per text; stale features of recycled storage appear only in sequences.",
  [RC + "object_pool.rs", RC + "sparse_namespaced_features.rs", PA],
  [("object pool", RC + "object_pool.rs"), ("clearing of recycled features", RC + "sparse_namespaced_features.rs")],
  ["features and labels of every parse in a sequence"],
  "stateful property-based testing of sequences over one parser and pool, compared with the meaning of each text",
  "Thread schedules are those of the operating system.")

P("C29", "Feature names lead to the indices the features have",
  """The names extracted from a VW text example name every feature its parse yields, once per occurrence, under its namespace,
  and the hash of each name, with the hash seed and bits in use, is the index the parsed feature has; the hash of an interaction of two or three named
  features is the index at which the interaction is evaluated. The inverse table returns exactly the names inserted for
  an index, each once.""",
  ["inputs", "configurations"],
  "every VW text example, hash seed, number of bits and interaction of two or three features",
  "Tests check one feature of each kind; the extraction duplicates the parser's grammar and the hash logic and can drift from both.",
  [RC + "inverse_hash_table.rs", PA + "vw_text_parser.rs", RC + "parsers.rs", RC + "interactions.rs"],
  [("extract_feature_names", PA + "vw_text_parser.rs"), ("Feature::hash", RC + "inverse_hash_table.rs")],
  ["extracted names, hashes of names, parsed indices, table contents"],
  "differential property-based testing: names against parsed features and against interaction indices",
  "VW text only; the other formats do not implement the extraction.")

P("C32", "Malformed examples are refused, never crash",
  """Whatever text is given to a parser as an example, it returns an example or an error and never panics or hangs. Texts
  that are plainly malformed (labels that are not numbers or have extra or missing parts, values of a wrong type, missing
  required fields, more than one labelled action, incomplete label fields, broken JSON) and bytes that are not UTF-8 give
  an error.""",
  ["inputs", "fault_sequences"],
  "every text derived from well-formed ones by insertion, deletion, truncation, repetition and swaps, and every generated member of the malformed classes",
  "Tests have no malformed input at all.",
  [PA + "vw_text_parser.rs", PA + "json_parser.rs", PA + "dsjson_parser.rs"],
  [("error paths of the parsers", PA)],
  ["Ok or Err of parsing, panics"],
  "structure-aware mutation fuzzing with a no-panic oracle, plus generated members of malformed classes that must be refused",
  "Malformedness is judged only for the classes listed; elsewhere either answer is accepted but no panic.")


P("C11", "The coin regressor is the documented coin betting algorithm",
  """A coin regressor predicts the sum of feature values times weights, clipped to the range of the labels seen so far (zero
  included; with the logistic loss to [-50, 50]) and passed through its link function. Each learned example updates every feature's wealth, bet, gradient sum
  and scale by the coin betting rule with its alpha and beta, the example's weight scaling the gradient of the configured loss, and
  the prediction scaled by the weighted average norm of the examples. This holds after every learned example of any history.""",
  ["histories", "configurations"],
  "every history of weighted examples, alpha, beta, loss and link function and set of interactions",
  "Tests learn a constant and check convergence; a wrong normaliser, clip, weight or update order still converges on tame data.",
  [R + "coin.rs", RC + "weights.rs", RC + "dense_weights.rs"],
  [("coin betting update and prediction", R + "coin.rs"), ("link function", R + "coin.rs")],
  ["Prediction::Scalar, raw and linked, after every step"],
  "stateful property-based testing against a double-precision reference model of the algorithm",
  "Tolerance of 1e-2 of the summed terms; histories in which single and double precision references differ, or feature indices collide, are skipped.")

P("C12", "Interactions add exactly the documented features",
  """For every example and every set of pairs and triples of namespaces, the regressor sees the example's own features once,
  for each interaction every combination of one feature per namespace (combinations of a namespace with itself once each,
  with repetition), and the constant feature if enabled. An interaction feature's index is the documented combination of
  its parts' indices reduced to the configured bits, its value the product of theirs, in prediction and in learning alike.""",
  ["inputs", "configurations"],
  "every example, set of two- and three-way interactions, repeated and missing namespaces, number of bits and constant setting",
  "Tests check a few products; repeated namespaces, empty ones, the default namespace and masks need combinations.",
  [RC + "weights.rs", RC + "interactions.rs", RC + "sparse_namespaced_features.rs"],
  [("traversal of features and interactions", RC + "weights.rs"), ("product iterators", RC + "sparse_namespaced_features.rs"), ("index combination", RC + "interactions.rs")],
  ["visited (index, value) pairs", "predictions of a regressor with interactions"],
  "property-based testing against a reference expansion, and end to end against explicit features",
  "Visiting order is not judged; the end-to-end suite skips colliding indices.")

P("C19", "Sparse feature containers hold what was put into them",
  """A container of features behaves as a map from namespaces to lists of (index, value) under every sequence of creating,
  adding, setting, removing, appending another container and taking it off again, clearing, cloning, comparing and
  recycling through the pool. A recycled or cleared container is empty, clones are independent, and two containers compare
  equal exactly if their namespaces hold the same features.""",
  ["histories"],
  "every sequence of container operations over several kinds of namespaces",
  "Tests do a few operations on one or two namespaces; inactive namespaces kept for reuse make mistakes visible only in sequences.",
  [RC + "sparse_namespaced_features.rs", RC + "object_pool.rs"],
  [("active and inactive namespaces", RC + "sparse_namespaced_features.rs"), ("object pool", RC + "object_pool.rs")],
  ["namespaces, features, lookups, comparison, pool"],
  "stateful model-based property testing against a map",
  "Empty and absent namespaces are not told apart; sampled.")

P("C20", "Weight tables keep every weight apart",
  """A table of weights for any number of features, models and state values per weight keeps each cell separate: reading a
  cell gives what was last written to it (zero if nothing was), whatever is written elsewhere. Its serialised forms, plain and
  nested by feature, restore every cell and the latter lists exactly the features with a nonzero value.""",
  ["histories", "configurations"],
  "every shape of table and sequence of writes",
  "Tests touch a few cells of power-of-two tables with one model; strides that overlap need other shapes.",
  [RC + "dense_weights.rs"],
  [("index arithmetic", RC + "dense_weights.rs"), ("sparse and nested serialisation", RC + "dense_weights.rs")],
  ["weights and states read back", "JSON forms"],
  "stateful model-based property testing against a map, and round trips",
  "Exact comparison; tables of up to 70 features, 6 models and 9 state values.")

P("C27", "Metrics report what they are defined to be",
  """After any sequence of evaluated examples, the mean squared error is the mean of (label - prediction)^2, the IPS estimate
  the mean of -cost * probability given to the labelled action / logged probability, the feature count the total number of
  features of the examples, and the example number that of the last example counted from zero. Unknown metrics are not resolved.""",
  ["histories"],
  "every sequence of examples, labels and predictions",
  "No test computes a metric over more than a trivial sequence; order of action probabilities and owned versus borrowed features vary.",
  [RC + "metrics"],
  [("metric accumulators", RC + "metrics")],
  ["Metric::get_value after each point"],
  "stateful property-based testing against double-precision reference formulas",
  "Tolerance of 1e-5 of the mean magnitude.")

P("C28", "Loss functions agree with their derivatives and updates",
  """The squared and logistic losses, their first and second derivatives, squared gradient and plain gradient step agree
  with the definition of the loss for every prediction, label and label range, the squared loss continuing along its tangent
  outside the range. The importance-aware update is the exact movement of following the negative gradient for the given
  update scale (for the logistic loss at the two extreme labels, up to its approximation error).""",
  ["inputs"],
  "every prediction, label, label range, update scale and prediction change per update",
  "Tests evaluate a few points; signs, label mappings and closed forms must agree everywhere.",
  [RC + "loss_function.rs"],
  [("SquaredLoss and LogisticLoss", RC + "loss_function.rs")],
  ["values returned by the loss functions"],
  "property-based testing against analytic formulas and numeric integration of the gradient flow",
  "Tolerances for single precision and for the approximated inverse used by the logistic update.")

P("C30", "The elementwise reduction adds exactly the products of its two vectors",
  """The elementwise interaction reduction behaves exactly as its regressor would on examples in which the products of equally
  numbered features of its two namespaces were added by hand as a further namespace, and the two originals dropped
  unless they are to be kept: for every history, with the namespaces in one or different parts of a contextual bandit example, absent, of
  different lengths, the default one, or the same one twice. The example is left unchanged.""",
  ["histories", "configurations", "inputs"],
  "every pair of namespaces, vectors, histories, interactions and stack above",
  "Tests use one small example; wrap-around of indices, missing entries, repeated use and namespaces in the shared part are not covered.",
  [R + "elementwise_interaction.rs"],
  [("temporary namespace of products", R + "elementwise_interaction.rs")],
  ["predictions after every step", "features after the call"],
  "stateful property-based testing: differential against the regressor on hand-expanded examples",
  "Vectors are given as anonymous features; compared with a float tolerance.")

P("C31", "Binary classification is the sign of its regressor",
  """A binary stack predicts true exactly if its regressor's prediction is positive, and learns exactly what the regressor
  learns from the label +1 for true and -1 for false with unit weight; this holds for every regressor stack and history.""",
  ["histories", "configurations"],
  "every history of binary labels and regressor below",
  "Tests check a single prediction; ties at zero and the label mapping over histories are not covered.",
  [R + "binary.rs"],
  [("sign and label mapping", R + "binary.rs")],
  ["Prediction::Binary against the regressor's prediction", "learned state in the exported model"],
  "stateful property-based testing: differential against the regressor",
  "Exact comparison; sampled.")


CLI = "reductionml-cli/src/"

P("C21", "A setting that is left out has its documented default",
  """A configuration in which any settings are left out, at any depth of nested reductions, gives a workspace that predicts and
  learns exactly as the one in which those settings are written with the defaults published in the configuration
  schema; the defaults published by each reduction, by the schema and by the command `config new` are these same values and form a
  configuration that can be loaded. Order of keys, layout, comments and the choice between JSON and YAML make no difference.""",
  ["configurations", "histories"],
  "every stack of reductions, every subset of settings left out, every JSON or YAML writing of the configuration, every history",
  "Tests load two or three literal configurations; a changed or misspelt default of a nested setting loads fine and only changes what is learned.",
  [RC + "config_schema.rs", RC + "global_config.rs", R, CLI + "config.rs"],
  [("serde defaults of each reduction's configuration", R), ("GlobalConfig defaults", RC + "global_config.rs"), ("get_config_default", RC + "reduction_factory.rs"), ("config new", CLI + "config.rs")],
  ["predictions and saved model of both workspaces", "schema defaults", "output of config new"],
  "property-based testing: metamorphic (settings removed, configuration rewritten) and a reference table of defaults",
  "The table of documented defaults is part of the harness; default numBits is exercised in a third of the cases; sampled.")

P("C22", "Configurations that do not fit together are refused, all others work",
  """A stack is accepted exactly if each reduction's needs for label, features and the prediction below it are met; whatever is
  accepted can predict, learn and save an example of its own types without failing. A numBits or hash seed out of range,
  an interaction that is not a pair or triple, an exploration rate outside [0, 1] and a square-cb parameter below zero are
  refused with an error, and the command `config check` exits with zero exactly for what the loader accepts.""",
  ["configurations"],
  "every nesting of reductions including ill-typed ones, every invalid value, every example of the accepted types",
  "Tests contain no ill-typed stack; a missing check lets a configuration load that fails or misbehaves at the first example.",
  [RC + "reduction.rs", RC + "reduction_factory.rs", RC + "global_config.rs", R, CLI + "config.rs"],
  [("ReductionTypeDescription::check_and_get_reason", RC + "reduction.rs"), ("range checks in the factories", R), ("config check", CLI + "config.rs")],
  ["Workspace::new / create_from_config result", "first predictions", "exit code of config check"],
  "property-based testing: generated well- and ill-typed stacks against a reference type checker, fault injection into valid configurations",
  "numBits above 20 is not created as the tables would be too large; whether square-cb finds an ips learner hidden behind Debug is left open.")

P("C23", "The configuration schema accepts exactly what the loader accepts",
  """Every configuration that loads is valid under the published JSON schema, and a configuration with an unknown key, a value of the wrong
  type, an unknown name of a reduction or a missing required part, at any depth, is refused by the loader
  with an error as well as by the schema. The command `gen-schema` prints that schema.""",
  ["configurations", "inputs"],
  "every valid configuration and every single mutation of one: key, type, enum value, section, at every depth",
  "Tests never validate against the schema; loader and schema are two descriptions that drift apart silently.",
  [RC + "config_schema.rs", RC + "reduction_factory.rs", "schemas/config/latest/schema.json", CLI + "gen_schema.rs"],
  [("ConfigSchema", RC + "config_schema.rs"), ("deny_unknown_fields of every configuration", R), ("JsonReductionConfig", RC + "reduction_factory.rs")],
  ["Workspace::create_from_config result", "verdict of a JSON-schema evaluator on the generated and the committed schema", "output of gen-schema"],
  "property-based testing: differential between loader and schema on generated and mutated configurations",
  "Value ranges and the fit of reductions are not expressible in the schema and not judged; null or arrays in place of objects, which the loader reads as absent or by position, are left out.")

P("C24", "Training from the command line equals learning in order",
  """`reml train` on a data file gives exactly the model, the predictions file, the progress table and the metrics that result from
  giving the examples of the file, one after another in the order of the file, to predict-then-learn (or learn). Neither the number of parsing
  threads nor the size of the queue, the timing of threads, the way the data arrives or any output option
  changes the outcome, and training can go on from a saved model as if it had never been interrupted. With --quiet nothing goes to standard output.""",
  ["schedules", "inputs", "configurations", "histories"],
  "every data file in each format, stack, number of threads, queue size, progress and metrics option, thread interleaving",
  "No test runs the program; lost, repeated or reordered examples appear only with several parsing threads and unlucky timing, and a dropped last example or batch shows only in the model.",
  [CLI + "train.rs", RC + "metrics/", RC + "parsers/"],
  [("reading, parsing threads and reordering of examples", CLI + "train.rs"), ("metrics", RC + "metrics/"), ("TextModeParser::get_next_chunk", RC + "parsers/")],
  ["saved model", "predictions file", "printed table and metrics", "exit status"],
  "property-based testing: the program against the library fed in order, over generated data, options and schedules",
  "Schedules are perturbed (thread counts, queue sizes, confinement to 1-2 processors, data through pipes in pieces, load), not enumerated.")

P("C25", "Training stops with an error on the first bad example",
  """If an example of the data cannot be read, parsed or learnt from, if an option or a file given to `reml train` is unusable, or an output cannot be
  written, the program ends in bounded time with an error message and a non-zero exit status, whatever the number
  of threads and the place of the error. It does not write a model in that case.""",
  ["fault_sequences", "inputs", "schedules"],
  "every kind of damage at every place in the data, every unusable option, every unwritable output, every number of threads",
  "No test gives the program bad data; an error inside a parsing thread can hang the others, be swallowed, or leave a model that looks finished.",
  [CLI + "train.rs", CLI + "main.rs", RC + "parsers/"],
  [("error paths of the reader, parsing and learning threads", CLI + "train.rs")],
  ["exit status", "error output", "presence of the model file", "time until the end"],
  "property-based testing with injected faults: damaged examples, files, options and outputs",
  "Hangs are judged by a limit of 60 s; a full disk is imitated with /dev/full.")

P("C26", "Exported models and programs work together without loss",
  """`reml export-model` writes a model as JSON and `import-model` turns it back into a binary model that predicts
  and learns exactly as the original; models written by the program load in the library and the other way round. An input that is no model is
  refused with a non-zero exit status and leaves no output and existing outputs unchanged.""",
  ["histories", "inputs"],
  "every trained model, every sequence of export, import and further training, every damaged input",
  "No test runs these commands; precision, file handling and error paths are only exercised by real models and files.",
  [CLI + "export_model.rs", CLI + "import_model.rs", CLI + "train.rs", RC + "workspace.rs"],
  [("export-model / import-model", CLI + "export_model.rs"), ("serialize_to_json / deserialize_from_json", RC + "workspace.rs")],
  ["files and standard output of the programs", "predictions of the resulting models"],
  "property-based testing: pipelines of programs against the library",
  "Models with infinite or undefined numbers are left out, as JSON cannot carry them.")

P("C33", "Loading anything but a model gives an error",
  """Bytes or JSON that are not a complete model (cut off at any point, of another kind, with a part missing, of the wrong type, or with
  weights that do not fit their declared sizes) are refused with an error and never end in a panic; what is accepted
  can be saved again.""",
  ["inputs", "crash_points"],
  "every model cut off at every byte, other documents, every structural damage of a model in either encoding",
  "Tests load only what was just saved; a partly written file is the ordinary result of a crash while saving.",
  [RC + "workspace.rs", RC + "dense_weights.rs", R],
  [("create_from_model / deserialize_from_json", RC + "workspace.rs"), ("weights deserialisation", RC + "dense_weights.rs"), ("typetag deserialisation of reductions", R)],
  ["Workspace::create_from_model", "Workspace::deserialize_from_json"],
  "property-based testing: truncation, foreign input and structured damage of generated models",
  "Flipped bytes within the binary encoding are left out: the decoder, a dependency, may itself panic on them.")

PY = "reductionml-python/"

P("C34", "The Python package does exactly what the library does",
  """Any sequence of calls on the Python package, over any number of workspaces, parsers and example objects, reused or dropped in any
  order, gives exactly the labels, predictions, types and models the library gives for the same calls, whether examples come as text or as
  dictionaries, and printed labels and predictions show the same numbers. What the library refuses (a configuration, model or text) raises an ordinary exception and
  leaves every other object usable.""",
  ["programs", "histories", "inputs"],
  "every program of calls, every stack without binary labels, every example in each format",
  "The package's tests check types of a few results; recycled example objects, mixed-up fields and defaults of labels appear only when values are compared over longer programs.",
  [PY + "src/", PY + "python/reductionml/__init__.py", RC + "object_pool.rs"],
  [("conversions of labels, predictions and types", PY + "src/"), ("shared pool of examples", PY + "src/features.rs"), ("Workspace wrapper", PY + "python/reductionml/__init__.py")],
  ["results of every call in a Python process", "bytes and dictionaries of saved models"],
  "stateful property-based testing: generated programs in a Python process against the library",
  "The library built from the same tree is the reference; binary stacks, which the package documents as not implemented, are left out.")

P("C35", "Debug prints the calls that reach it, as configured",
  """A Debug reduction prints, for every predict, learn and predict-then-learn that reaches it, one line on standard error
  for each of features, label and prediction that its configuration enables and the call has, and nothing else. Each line carries the
  configured id, the kind of call and the configured indent, and shows the values of that call; several Debug reductions in a row print
  in the order in which the call passes them, also in a reloaded model.""",
  ["configurations", "histories"],
  "every chain of Debug reductions over every stack, every sequence of calls",
  "No test looks at what Debug prints; a switch that controls the wrong line, or an id that is not printed, goes unnoticed.",
  [R + "debug.rs"],
  [("DebugReduction predict / learn / predict_then_learn", R + "debug.rs"), ("print_debug", R + "debug.rs")],
  ["standard error of a process that makes the calls"],
  "property-based testing: generated configurations and calls in a child process against the expected lines",
  "The values are compared in the form in which the library itself formats them; Debug reductions below another reduction than Debug are left out.")

P("C36", "Workspaces next to each other do not influence one another",
  """A workspace and its parsers give the same predictions, parsed examples and saved models, bit for bit, whatever other workspaces and
  parsers of the same process do: in turns with them, on other threads at the same time, sharing one pool of recycled examples or not.
  Making the same calls with the same configuration twice in one process gives the same results twice.""",
  ["programs", "histories", "schedules"],
  "every set of workspaces, configurations and histories, every order in which their calls alternate and every schedule of their threads",
  "Every test uses one workspace on one thread; state shared by accident (a cache, a counter, a pool) shows only with several.",
  [RC + "workspace.rs", RC + "object_pool.rs", RC + "parsers/", RC + "reduction_registry.rs", RC + "hash.rs"],
  [("Workspace", RC + "workspace.rs"), ("pool of recycled examples", RC + "object_pool.rs"), ("registry of reductions", RC + "reduction_registry.rs")],
  ["predictions, parsed examples, saved models of each workspace"],
  "property-based testing: generated programs of several workspaces, in turns and on threads, against each of them alone",
  "Threads run as the machine schedules them, three times per case; the schedule is not controlled.")

P("C37", "Optimised builds compute the same as debug builds",
  """A build with optimisations, without debug assertions and overflow checks, gives for the same calls the same predictions, saved
  models, parsed examples, stream chunks, feature names and error messages as the debug build that the tests run. The optimised command
  line program ends with the same exit status and writes the same models, predictions and tables.""",
  ["configurations", "histories", "inputs"],
  "every configuration, every history of calls, every text read by the parsers, every training run",
  "The tests run in the debug build only; users install the other one. Work done inside an assertion, a branch on the build, or arithmetic that wraps, shows in no test.",
  [RC + "workspace.rs", R, RC + "parsers/", RC + "reduction.rs", "reductionml-cli/src/"],
  [("debug assertions around reductions", RC + "reduction.rs"), ("parsers", RC + "parsers/"), ("reml", "reductionml-cli/src/main.rs")],
  ["the same answers of two processes, one of each build"],
  "differential property-based testing: generated histories, texts, configurations and training runs in both builds",
  "Numbers that are not numbers are equal whatever their sign bit; one compiler and one machine.")
