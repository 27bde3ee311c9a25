#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
CAT='veroku/factors/categorical.py'; SP='veroku/factors/sparse_categorical.py'; GA='veroku/factors/gaussian.py'
FA='veroku/factors/_factor.py'; FU='veroku/factors/_factor_utils.py'; TM='veroku/factors/_factor_template.py'
SG='veroku/factors/_sigma_points.py'; GM='veroku/factors/experimental/gaussian_mixture.py'
FF='veroku/factors/experimental/factorised_factor.py'; NL='veroku/factors/experimental/nonlinear_gaussian.py'
CG='veroku/cluster_graph.py'; CL='veroku/_cg_helpers/_cluster.py'; AN='veroku/_cg_helpers/_animation.py'
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)

p('C01', 'Dense categorical product and quotient are pointwise',
  "Multiplying (or absorbing) two dense categorical factors gives a factor whose scope is exactly the union of the operands' scopes and whose value at every joint assignment is the product of the operands' values there; dividing gives the quotient at every joint assignment in the same way. This holds for every variable order, overlap (disjoint, partial, nested, equal) and cardinality, and every variable of the result keeps its own cardinality and assignment names.",
  ['inputs'], 'all pairs of factors: any number of variables, any orders and overlaps, any cardinalities, any table entries including zeros',
  'The tests multiply a handful of two- and three-variable tables; the axis bookkeeping (transposes, inserted axes, result labels) depends on the relative order and overlap of the two scopes, which is an unbounded set.',
  [CAT, FA], [('tensor_operation (axis alignment)', CAT), ('multiply / divide', CAT), ('constructor checks', CAT)],
  ['Categorical.multiply', 'Categorical.divide', 'Categorical.absorb', 'Categorical.potential'],
  [('log_probs_tensor', 'log table, axis i is var_names[i]', CAT), ('vars_assignments_names_dict', 'names of the values of each variable', CAT)])
p('C02', 'Dense categorical marginalisation sums out exactly the other variables',
  "Marginalising a dense categorical factor (keeping a list of variables, or summing out a list with keep=False) gives a factor over exactly the kept variables, whose value at each assignment of them is the sum of the original values over all assignments of the removed variables. This holds for whatever order the variables are listed in and for any cardinalities (including one), and each kept variable keeps its own cardinality and assignment names.",
  ['inputs'], 'all dense factors, all subsets of variables listed in any order, keep=True and keep=False',
  'The tests only keep variables in the order of the table and never use cardinality one; axis-to-name mistakes show only for other orders, and the set of scopes is unbounded.',
  [CAT, FA], [('marginalize', CAT), ('get_marginal_vars', FA)], ['Categorical.marginalize'])
p('C03', 'Observing evidence in a dense categorical slices the table',
  "Observing values for some variables of a dense categorical factor gives a factor over exactly the unobserved variables, whose value at every assignment equals the original value at that assignment extended with the observed values. The order in which evidence is listed, or extra variables outside the scope, do not matter, and the remaining variables keep their cardinalities and assignment names.",
  ['inputs'], 'all dense factors, all evidence subsets in any order with in-range values',
  'Only single variables of small tables are observed in the tests.', [CAT], [('reduce / observe', CAT)], ['Categorical.reduce', 'Categorical.observe'])
p('C04', 'Reordering, copying and evaluating a dense categorical keep its function',
  "Reordering a dense categorical factor to any permutation of its variables, or copying it, gives a factor with the requested variable order that has the same value at every named assignment, with cardinalities and assignment names moved along; asking for a different variable set is refused. Evaluating the factor with variables listed in any order returns the table value of that named assignment.",
  ['inputs'], 'all dense factors and all permutations of their variables',
  'Tests swap two variables, for which a permutation equals its inverse; a permutation used the wrong way round shows only from three variables on.',
  [CAT], [('reorder', CAT), ('copy', CAT), ('potential', CAT)], ['Categorical.reorder', 'Categorical.copy', 'Categorical.potential'])
p('C05', 'Categorical cancelling divides, with zero over zero giving zero',
  "Cancelling one dense or sparse categorical factor by another gives, at every joint assignment over the union scope, the quotient of the two values, except that zero divided by zero is zero. For sparse factors this is claimed where the dividing factor is zero only at assignments at which the cancelled factor is zero (the situation of belief update). The relative order and overlap of the scopes do not matter.",
  ['inputs'], 'all pairs of categorical factors with zeros anywhere (sparse: support of the first within the support of the second)',
  'The tests cancel factors with identical or leading scopes only; zero handling combined with different orders and partial scopes is not sampled.',
  [CAT, SP], [('Categorical.cancel', CAT), ('SparseCategorical.cancel special_divide', SP)], ['Categorical.cancel', 'SparseCategorical.cancel'])
p('C06', 'Normalising a categorical factor rescales it to total one',
  "Normalising a dense or sparse categorical factor with positive finite total gives a factor over the same variables, in the same order, whose values sum to one over all assignments and are all the original values divided by one common constant.",
  ['inputs'], 'all dense and sparse factors with positive finite total mass',
  'Tests normalise a few tables; implicit (default) entries of sparse tables and tables of any shape are not covered.',
  [CAT, SP], [('Categorical.normalize', CAT), ('SparseCategorical.normalize', SP)], ['Categorical.normalize', 'SparseCategorical.normalize'])
p('C07', 'Categorical KL-divergence is sum p log(p/q), whatever the variable order',
  "For two dense or two sparse categorical factors over the same variables, kl_divergence of the first from the second equals the sum over assignments of p*log(p/q) of the normalised first factor p and the (normalised, unless told otherwise) second factor q, matched by variable name; terms with p=0 count zero and p>0=q gives infinity. It is never negative, and distance_from_vacuous is the same quantity against the uniform distribution over all assignments.",
  ['inputs'], 'all pairs of factors with the same variable set in any orders, zeros anywhere',
  'Tests use a few hand-computed pairs in one variable order.', [CAT, SP], [('kl_divergence / _raw_kld / distance_from_vacuous', CAT), ('kl_divergence / _raw_kld', SP)],
  ['kl_divergence', 'distance_from_vacuous'])
p('C08', 'Categorical equality means same scope and pointwise-close tables',
  "equals (and == and !=) on two dense or two sparse categorical factors answers true exactly when the two have the same set of variables and, after matching variables by name, log values that agree within the given tolerances at every assignment, with implicit sparse entries counted at their default value (for sparse factors an implicit entry must match its counterpart exactly, without tolerance). A different factor kind raises TypeError.",
  ['inputs'], 'all pairs of factors, any variable orders, any tolerances, zeros and implicit entries anywhere',
  'Tests compare a handful of tables; a comparison that skips some entries or mislabels axes agrees on those.', [CAT, SP, FA],
  [('Categorical.equals', CAT), ('SparseCategorical.equals / _all_non_default_equal', SP), ('__eq__/__ne__', FA)], ['equals', '==', '!='])
p('C09', 'Sparse categorical product and quotient are pointwise, as for dense tables',
  "Multiplying two sparse categorical factors with the same default value gives a factor over the union of the scopes whose value at every joint assignment, explicit or implicit, is the product of the operands' values; dividing gives the quotient (on assignments where it is defined). The result does not depend on which entries happen to be stored explicitly.",
  ['inputs'], 'all pairs of sparse factors with equal defaults: any scopes, orders, cardinalities, any sets of stored entries',
  'The nested-dictionary algorithm treats stored and missing entries along separate code paths whose combinations (missing on either side, in the outer or inner part) are unbounded; tests sample a few.',
  [SP], [('_apply_binary_operator', SP), ('_get_nested_sorted_probs', SP), ('_any_scope_binary_operation', SP), ('_same_scope_binary_operation', SP)],
  ['SparseCategorical.multiply', 'SparseCategorical.divide'], [('log_probs_table', 'stored assignments -> log value', SP), ('default_log_prob', 'log value of all other assignments', SP)])
p('C10', 'Sparse categorical marginalisation and observation match the dense meaning',
  "Marginalising a sparse categorical factor gives, over exactly the kept variables in the order given, the sum of its values (explicit and implicit) over all assignments of the removed variables. Observing evidence gives, over exactly the unobserved variables, the values at the observed slice, including a slice with no stored entries at all.",
  ['inputs'], 'all sparse factors, any subset of variables in any order, any in-range evidence, any stored entries and default',
  'Tests never marginalise with a default other than zero probability nor observe an empty slice.',
  [SP], [('marginalize', SP), ('reduce', SP), ('_get_nested_sorted_probs', SP)], ['SparseCategorical.marginalize', 'SparseCategorical.reduce'])
p('C11', 'Reordering, copying and evaluating a sparse categorical keep its function',
  "Reordering a sparse categorical factor to any permutation of its variables, or copying it, preserves the value of every named assignment, explicit or implicit, and the cardinality of every variable. Evaluating it with variables listed in any order returns the value of that named assignment, including implicit ones.",
  ['inputs'], 'all sparse factors and all permutations of their variables', 'Tests use two variables, where a permutation is its own inverse, and stored entries only.',
  [SP], [('reorder', SP), ('copy', SP), ('potential', SP)], ['SparseCategorical.reorder', 'SparseCategorical.copy', 'SparseCategorical.potential'])
p('C12', 'Categorical argmax and enumeration report the table faithfully',
  "argmax of a dense or sparse categorical factor (sparse: with at least one stored entry and a zero-probability default) returns an assignment, in the factor's variable order, at which no other assignment has a larger value, and argmax_assignment_names the corresponding names. The dense enumeration of a factor (dense_distribution_array, get_df) lists every assignment exactly once with its value.",
  ['inputs'], 'all dense factors and all sparse factors with non-empty table and zero default', 'Tests read out a few tables.',
  [CAT, SP], [('argmax / argmax_assignment_names / dense_distribution_array / get_df', CAT), ('argmax / dense_distribution_array', SP)], ['argmax', 'dense_distribution_array', 'get_df'])
p('C13', 'Gaussian product and quotient are pointwise',
  "Multiplying two Gaussian factors gives a Gaussian over the union of their variables whose log value at every point is the sum of the operands' log values there, and dividing gives the difference, whichever parameter form each operand is held in and whatever the order and overlap of their variables.",
  ['inputs'], 'all pairs of Gaussians (any dimension, variable orders, overlaps, parameter forms)',
  'The tests check a few one- to three-dimensional examples by parameter comparison.', [GA, FU],
  [('_absorb_or_cancel', GA), ('indexed_square_matrix_operation', FU), ('indexed_column_vector_operation', FU)], ['Gaussian.multiply', 'Gaussian.divide', 'log_potential'])
p('C14', 'Both parameter forms of a Gaussian describe one function',
  "Whatever form a Gaussian was built in and whatever queries were made before, the canonical parameters (precision, h, g) and the covariance parameters (covariance, mean, log weight) it reports describe the same function: precision is the inverse covariance, h is precision times mean, and g makes the integral equal the weight. Point evaluation gives that function's value in either form, with the point's entries matched to variables by name when names are given, and queries never change the function.",
  ['inputs', 'histories'], 'all Gaussians with positive definite covariance, both constructors, all sequences of getter, copy and evaluation calls',
  'Tests convert a few matrices in one direction; stale caches need a particular sequence of queries and updates.', [GA],
  [('_update_canform / _update_covform', GA), ('copy', GA), ('log_potential / potential', GA), ('_add_log_weight', GA)],
  ['get_prec', 'get_h', 'get_g', 'get_cov', 'get_mean', 'get_log_weight', 'log_potential'],
  [('canform/covform', 'which parameter sets are currently valid', GA)])
p('C15', 'Gaussian marginalisation integrates out exactly the other variables',
  "Marginalising a non-vacuous Gaussian onto any subset of its variables, given in any order (or by listing the variables to remove), gives the Gaussian over exactly the kept variables whose mean and covariance are the corresponding blocks and whose weight is unchanged; computing it from the canonical form or from the covariance form gives the same function.",
  ['inputs'], 'all positive definite Gaussians, all variable subsets in any order, both forms, keep=True and keep=False',
  'Tests use a few matrices with leading blocks.', [GA, FA], [('marginalize', GA), ('_canform_marginalise', GA), ('get_marginal_vars', FA)], ['Gaussian.marginalize'])
p('C16', 'Observing evidence in a Gaussian slices its function',
  "Observing values for a non-empty proper subset of a Gaussian's variables, listed in any order, gives a Gaussian over exactly the remaining variables whose log value at every point equals the original log value at that point extended with the observed values.",
  ['inputs'], 'all Gaussians, all proper evidence subsets in any order, all values', 'Tests check a few examples of dimension at most four.', [GA],
  [('reduce', GA), ('_get_observation_reduced_canonical_vars', GA)], ['Gaussian.reduce', 'Gaussian.observe'])
p('C17', 'Gaussian normalisation, equality and KL ignore variable order and form',
  "normalize gives the same mean and covariance with weight one. equals compares two non-vacuous Gaussians as functions of named variables within tolerance (log-weight or g, mean or h, covariance or precision matched by name), and kl_divergence is the closed-form Gaussian divergence between the normalised factors, matched by name (reported as zero when the two are equal within the default tolerances); neither answer depends on the order of either operand's variables.",
  ['inputs'], 'all pairs of positive definite Gaussians over the same variables in any orders and forms', 'Tests compare Gaussians in one variable order.',
  [GA], [('normalize', GA), ('equals / _canform_equals / _covform_equals', GA), ('kl_divergence', GA)], ['normalize', 'equals', 'kl_divergence'])
p('C18', 'The linear Gaussian constructor is the conditional density',
  "The factor built by make_linear_gaussian for a square transform A and noise covariance N over conditioning variables x and conditional variables y has, at every point, the log value of the normal density of y with mean A x and covariance N.",
  ['inputs'], 'all square matrices A and positive definite N of any dimension', 'Tests and the Kalman notebook use one model.', [GA], [('make_linear_gaussian', GA)], ['make_linear_gaussian'])
p('C19', 'Factor operations leave their operands unchanged',
  "No query or operation on a factor of any kind (multiply, divide, cancel, marginalise, reduce, normalise, reorder, equality, divergence, copy, evaluation, building a cluster graph) changes the function, variable names or variable order of any factor or list passed to it. Later in-place changes to a result, or to containers used to build it, are not visible in another factor.",
  ['inputs', 'histories'], 'all factors of every kind, all operations and operation sequences',
  'Tests rarely look at operands after an operation, and aliasing shows only when one of the sharers is changed later.', [CAT, SP, GA, GM, FF, FA, CG],
  [('copies at construction', CAT), ('copy methods', SP), ('Factor.__init__', FA), ('equals', GA)], ['all operations'])
p('C20', 'Mismatched operands are refused rather than combined',
  "Categorical operations on operands that disagree about a shared variable's cardinality, or (dense) about its assignment names, raise an error instead of returning a factor, as do operations on a factor of the wrong kind, duplicate variables in a scope, dense tables whose dimensions (and sparse factors whose number of cardinalities) do not fit the variables, and incomplete Gaussian parameters. Well-matched operands are never refused.",
  ['inputs'], 'all operands of the dense, sparse and Gaussian factor kinds', 'Tests trigger each error with one example.', [CAT, SP, GA, FA],
  [('_assert_consistent_cardinalities', CAT), ('_check_consistent_assignment_names', CAT), ('constructors', FA)], ['multiply', 'divide', 'cancel', 'constructors'])
p('C21', 'Gaussian mixture operations act on the mixture as a sum of components',
  "A Gaussian mixture's value at every point is the sum of its components' values. Multiplying by a Gaussian or a mixture gives the pointwise product, dividing by a single Gaussian the pointwise quotient; marginalising, observing and normalising give the mixture of the marginals, the slice of the mixture, and the mixture scaled to total weight one. Copies and results keep the mixture's division method, and equality does not depend on component order.",
  ['inputs'], 'all mixtures with any number of components and variables', 'Tests use two-component mixtures.', [GM],
  [('multiply / divide / reduce / marginalize / normalize', GM), ('potential / log_potential', GM), ('equals / copy', GM)], ['GaussianMixture methods'])
p('C22', 'Moment matching a mixture preserves mass, mean and covariance',
  "Approximating a Gaussian mixture by a single Gaussian gives the Gaussian over the same variables with the mixture's total weight, its mean and its full covariance (within-component plus between-component).",
  ['inputs'], 'all mixtures with any number of components, dimensions and weights', 'One example in the tests.', [GM], [('moment_match_to_single_gaussian', GM)], ['moment_match_to_single_gaussian'])
p('C23', 'A factorised factor acts as the product of its parts',
  "A factorised factor denotes the product of its parts: multiplying, dividing, observing, marginalising and normalising it give factors that denote what the same operation gives on the multiplied-out joint, and its variable names are exactly those of its parts after every operation.",
  ['inputs'], 'all factorised Gaussian factors (any number of parts with any scopes), all operands and variable subsets for which the operation is defined',
  'Which parts must be merged depends on the whole overlap pattern of the parts; tests use two or three parts.', [FF],
  [('multiply / divide', FF), ('marginalize / _merge_factors_with_shared_scope', FF), ('reduce', FF), ('normalize', FF)], ['FactorizedFactor methods'])
p('C24', 'Sigma points reproduce the mean and covariance they came from',
  "The sigma points of a Gaussian have that Gaussian's mean and covariance as their sample mean and (biased) sample covariance, in every dimension; through a linear transform the joint parameters computed from them are those of the exact joint distribution.",
  ['inputs'], 'all positive definite Gaussians of any dimension, all linear transforms', 'Tests check one example in low dimension.', [SG],
  [('get_sigma_points_array', SG), ('sigma_point_array_to_gaussian_params', SG), ('sigma_points_array_to_joint_params', SG)], ['get_sigma_points_array'])
p('C25', 'Non-linear Gaussian factors absorb, cancel and observe consistently',
  "Multiplying a non-linear Gaussian by a Gaussian over its conditioning variables supplies the input distribution and over its conditional variables updates the output; for a linear transform the resulting joint equals the exact linear-Gaussian joint (times the update, sliced at the evidence), multiplication followed by division by the same factor restores the joint, and marginals are marginals of that joint.",
  ['inputs', 'histories'], 'all linear transforms, noise covariances, input and update Gaussians, evidence subsets', 'Tests use one transform.', [NL, SG],
  [('_recompute_joint', NL), ('multiply / divide / reduce / marginalize', NL)], ['NonLinearGaussian methods'])
p('C26', 'Templates instantiate exactly the factor they describe',
  "A factor made from a dense, sparse or Gaussian template equals the factor constructed directly from the template's table or parameters over the formatted (or given) variable names, in template order. Every instance is independent: changing one instance changes neither the template nor any other instance.",
  ['inputs', 'histories'], 'all templates, all format dictionaries, all sequences of instantiations', 'Tests instantiate once.', [CAT, SP, GA, TM, FU],
  [('make_factor', CAT), ('make_factor', SP), ('make_factor', GA), ('format_list_elements', FU)], ['make_factor'])
p('C27', 'Building a cluster graph preserves the modelled distribution',
  "The product of the cluster potentials of a new cluster graph equals the product of the given factors, each observed at the evidence: every factor is included exactly once, and absorbing factors whose scope is contained in another loses or repeats none. Before any message is passed the posterior joint equals this product, and the given factors are left unchanged.",
  ['inputs'], 'all lists of factors with any scope overlaps (including duplicates and chains of nested scopes) and any evidence (evidence leaves every Gaussian or sparse factor an unobserved variable; sparse factors have a zero-probability default)',
  'Which factor absorbs which depends on the whole containment pattern of scopes; tests use one small graph.', [CG],
  [('_evidence_reduce_factors', CG), ('_absorb_subset_factors', CG), ('ClusterGraph.__init__', CG)], ['ClusterGraph(...)', 'get_posterior_joint'])
p('C28', 'Cluster graphs satisfy the running intersection property',
  "In every constructed cluster graph, for each unobserved variable the edges whose sepset contains it form a tree connecting exactly the clusters that contain it (when at least two do). Sepsets are non-empty, contained in both clusters' scopes, never contain observed variables, and are the same seen from either end of the edge, with one message path in each direction.",
  ['inputs'], 'all lists of factors and evidence (evidence leaves every Gaussian or sparse factor an unobserved variable; sparse factors have a zero-probability default)', 'The property quantifies over all scope hypergraphs; tests check one graph.', [CG, CL],
  [('_set_non_rip_sepsets_dict', CG), ('_get_vars_min_spanning_trees / _get_running_intersection_sepsets', CG), ('_build_graph', CG)], ['cluster neighbours and sepsets'])
p('C29', 'Message passing never changes the represented joint distribution',
  "After any sequence of message passes along any paths, the product of all cluster potentials divided by the product of the messages last sent along each path equals the joint distribution the graph was built from, which is what get_posterior_joint returns. A message is the sender's marginal over the sepset with what it last received from that neighbour divided out, and receiving it replaces the previous message from that sender.",
  ['schedules', 'histories'], 'all graphs and all sequences of message passes (including none and partial schedules), with strictly positive tables or Gaussians',
  'The invariant is about every prefix of every schedule; tests run one schedule to convergence.', [CG, CL],
  [('make_message / receive_message', CL), ('pass_next_message', CG), ('get_posterior_joint', CG)], ['get_posterior_joint', 'cluster factors'])
p('C30', 'Message passing is greedy, bounded and stops only when converged',
  "process_graph passes at most max_iter times the number of message paths messages, each time the one with the largest pending information gain, and every pending message and gain is up to date with the sender's current potential. It returns before the limit only when no path's pending gain exceeds the tolerance, and counts passes and records the largest pending gain after each.",
  ['schedules', 'inputs'], 'all graphs, tolerances and iteration limits', 'Tests run one or two graphs.', [CG],
  [('process_graph', CG), ('_GraphMessagePath', CG)], ['process_graph', 'num_messages_passed', 'sync_message_passing_max_distances'])
p('C31', 'Converged marginals on tree-shaped graphs are exact',
  "When the cluster graph is a tree and message passing has converged, every marginal it reports equals, up to normalisation, the marginal of the product of all factors given the evidence.",
  ['schedules', 'histories', 'inputs'], 'all tree-shaped graphs, all factor tables, all evidence', 'Whole-history fixpoint property over unbounded graphs; tests check one tree.', [CG, CL],
  [('process_graph / get_marginal', CG)], ['get_marginal'])
p('C32', 'Asking for a marginal reads one consistent cluster and nothing else',
  "get_marginal for a variable or list of variables contained in some cluster returns the marginal, onto exactly those variables, of the potential of a cluster that contains them, sliced at any special evidence in its scope; it changes nothing in the graph, and raises ValueError when no cluster contains them.",
  ['inputs'], 'all graphs and variable lists', 'Tests ask for a few single variables.', [CG, CL], [('get_marginal', CG), ('get_subset_evidence', FU)], ['get_marginal'])
p('C33', 'Animation recolours exactly the addressed edge or node',
  "Changing the colour of a node or an edge of the drawn graph changes the colour attribute of that node or edge only, and naming a missing one raises ValueError.",
  ['inputs'], 'all graphs and node names', 'Substring matching of names depends on how names overlap.', [AN],
  [('change_graph_edge_color / change_graph_node_color', AN)], ['graph.body'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
