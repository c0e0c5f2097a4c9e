"""
Writes /verif/properties.jsonl.
"""
import json
import os

CAT = "veroku/factors/categorical.py"
SPA = "veroku/factors/sparse_categorical.py"
GAU = "veroku/factors/gaussian.py"
MIX = "veroku/factors/experimental/gaussian_mixture.py"
FAC = "veroku/factors/experimental/factorised_factor.py"
NLG = "veroku/factors/experimental/nonlinear_gaussian.py"
SIG = "veroku/factors/_sigma_points.py"
BASE = "veroku/factors/_factor.py"
TPL = "veroku/factors/_factor_template.py"
UTL = "veroku/factors/_factor_utils.py"
CG = "veroku/cluster_graph.py"
CLU = "veroku/_cg_helpers/_cluster.py"
ANI = "veroku/_cg_helpers/_animation.py"

P = []


def add(pid, title, statement, over, quantifier, why, files, mechanism):
    assert len(title) <= 80, (pid, len(title))
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quantifier},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None},
    })


add("C01", "Discrete products are pointwise over the union of the scopes",
    "The product of two discrete factors (dense or sparse) is the factor over the union of their variables whose value at "
    "every joint assignment is the product of the two values, whatever the overlap, the order or the cardinalities of the "
    "variables, the zeros, the implicit default entries of sparse factors and the magnitudes of the (log) values. It does not "
    "depend on the order or grouping in which several factors are multiplied, and the assignment names of the variables are "
    "kept.",
    ["inputs"], "all pairs and sequences of discrete factors over any scopes",
    "The tests multiply a handful of fixed two and three variable tables; the scopes, orders, cardinalities (1 included), zero "
    "patterns and defaults form an unbounded space.",
    [CAT, SPA, BASE], [("Categorical.multiply / tensor_operation", CAT), ("SparseCategorical.multiply / _apply_binary_operator", SPA)])

add("C02", "Discrete division and cancellation are pointwise and undo multiplication",
    "Dividing a discrete factor by another one gives, over the union of their variables, the pointwise quotient wherever the "
    "divisor is positive. Cancelling does the same and gives zero where both values are zero, so that cancelling a factor "
    "that was multiplied in restores the original factor wherever the cancelled factor is positive, and multiplying a factor "
    "cancelled by its own marginal with that marginal restores it everywhere.",
    ["inputs"], "all pairs of discrete factors over any scopes, with zeros anywhere",
    "The tests use fixed examples in which the scopes are nested in one particular way and few zeros coincide.",
    [CAT, SPA, BASE], [("Categorical.divide / cancel", CAT), ("SparseCategorical.divide / cancel", SPA)])

add("C03", "Discrete marginalisation sums out exactly the requested variables",
    "Marginalising a discrete factor (naming the variables to keep or those to sum out, in any order) gives the factor over "
    "the remaining variables whose values are the sums over all the assignments of the removed variables. The total mass is "
    "unchanged, removing the variables one at a time in any order gives the same factor, and variables that occur in only one "
    "factor of a product can be summed out of that factor first.",
    ["inputs"], "all discrete factors, subsets and orders of their variables, both keep modes",
    "The tests sum out one or two variables of fixed tables; orders of the kept variables, singleton variables, zero rows and "
    "non-zero defaults are not combined.",
    [CAT, SPA, BASE], [("Categorical.marginalize", CAT), ("SparseCategorical.marginalize", SPA), ("Factor.get_marginal_vars", BASE)])

add("C04", "Discrete conditioning selects exactly the slice of the evidence",
    "Reducing a discrete factor by evidence on any subset of its variables (in any order, including all of them and "
    "assignments with zero probability) gives the factor over the other variables whose values are those of the original "
    "factor at the extended assignments. Evidence can be applied in several steps, and reducing commutes with products and "
    "with summing out other variables.",
    ["inputs"], "all discrete factors and evidence assignments",
    "The tests reduce fixed tables by one or two values that are in the table.",
    [CAT, SPA, BASE], [("Categorical.reduce / potential", CAT), ("SparseCategorical.reduce / potential", SPA)])

add("C05", "Normalisation, divergences and argmax of discrete factors follow definitions",
    "Normalising a discrete factor scales it to total mass one, the KL-divergence is the sum of p log(p/q) between the normalised "
    "factors (0 log 0 = 0, infinite where only q is zero, never negative, zero for proportional factors and independent of the "
    "variable orders) and the distance from vacuous is the divergence from the uniform factor. Argmax (as indices or names) "
    "returns an assignment, aligned with the factor's variables, at which the factor is maximal.",
    ["inputs"], "all pairs of discrete factors over one set of variables",
    "The tests compare a few fixed divergences of small tables in a single variable order.",
    [CAT, SPA, BASE], [("normalize, kl_divergence, _raw_kld, distance_from_vacuous, argmax", CAT), ("the same methods and weight", SPA)])

add("C06", "Every view of a discrete factor shows the same function",
    "A discrete factor built from a probability table or from log probabilities represents the given function, and the "
    "potential of any assignment, the dense distribution array, the data frame with or without assignment names, the printed "
    "table, reordered versions and copies all show exactly that function. Two factors are equal if and only if they are the "
    "same function (within the tolerance) of the same variables with the same cardinalities, however they are represented.",
    ["inputs"], "all discrete factors, variable orders, representations and single entry changes",
    "The tests look at one view of a fixed table at a time, and compare hand written equal and unequal pairs.",
    [CAT, SPA], [("constructors, reorder, equals, potential, dense_distribution_array, get_df, __repr__", CAT),
                 ("constructor, reorder, equals, potential, dense_distribution_array, _to_df, __repr__", SPA)])

add("C07", "Dense and sparse factors agree with each other along any history of operations",
    "Any sequence of products, quotients, cancellations, marginalisations, reductions, reorderings, normalisations and copies "
    "gives the same function whether it is carried out on dense factors, on sparse factors or on a plain table of all the "
    "assignments. No operation changes a factor that was computed before.",
    ["histories"], "all operation sequences over pools of factors",
    "The tests apply single operations; representation errors (implicit entries, defaults, orders) only show in later "
    "operations of a history.",
    [CAT, SPA], [("all the operations of Categorical", CAT), ("all the operations of SparseCategorical", SPA)])

add("G01", "Both parametrisations of a Gaussian factor describe the same function",
    "A Gaussian factor built from covariance parameters (mean, covariance, log weight) and one built from the corresponding "
    "canonical parameters (K, h, g) have the same log potential everywhere, and every getter returns the parameters of that "
    "function however and in whatever order the forms are computed, reordered or copied. The log potential can be evaluated "
    "with the variables in any order.",
    ["inputs", "histories"], "all proper Gaussian parameters, dimensions and sequences of queries, copies and reorderings",
    "The tests convert a few fixed one and two dimensional parameter sets.",
    [GAU, UTL], [("Gaussian._update_canform / _update_covform / getters / log_potential / copy", GAU), ("make_square_matrix, make_column_vector", UTL)])

add("G02", "Gaussian multiplication and division add and subtract log potentials",
    "The product (quotient) of two Gaussian factors over any scopes and in any parametrisation is the factor over the union of "
    "their variables whose log potential is the sum (difference) of theirs at every point. Division undoes multiplication, "
    "products do not depend on the order and grouping, and vacuous factors are neutral up to their constant.",
    ["inputs"], "all sequences of Gaussian factors over any scopes and variable orders",
    "The tests multiply and divide fixed factors with one or two particular scope relations.",
    [GAU, UTL], [("Gaussian.multiply / divide / _absorb_or_cancel", GAU), ("indexed_square_matrix_operation, indexed_column_vector_operation", UTL)])

add("G03", "Gaussian marginalisation and conditioning are exact",
    "Marginalising a proper Gaussian factor over any subset of its variables gives the integral of the function (same mean and "
    "covariance blocks and same total weight), from either parametrisation and in either keep mode. Reducing it by any evidence "
    "gives the function of the remaining variables with the observed values filled in, also for factors without a covariance "
    "form, and the two operations commute on different variables.",
    ["inputs"], "all Gaussian factors, subsets of variables and observed values",
    "The tests use fixed two and three variable Gaussians and do not vary parametrisation, order and subset together.",
    [GAU, BASE], [("Gaussian.marginalize / _canform_marginalise / reduce", GAU)])

add("G04", "Weight, divergence, vacuousness and equality of Gaussian factors are consistent",
    "Normalising a Gaussian factor scales its integral to one without changing its shape, the KL-divergence is the closed form "
    "value between the normalised factors for any variable orders and parametrisations, and exactly zero information in "
    "canonical form means vacuous. Equality is symmetric, holds for factors that represent the same function in any variable "
    "order and parametrisation, and fails for factors whose function or variables clearly differ.",
    ["inputs"], "all pairs of Gaussian factors over one set of variables",
    "The tests evaluate single divergences and hand written equal and unequal pairs.",
    [GAU], [("normalize, get_weight, kl_divergence, distance_from_vacuous, is_vacuous, equals", GAU)])

add("G05", "Linear Gaussian factors and templates represent N(y; Ax, N)",
    "The factor (direct or from a template) of a linear Gaussian conditional distribution with any matrix shape has log "
    "potential log N(y; Ax, N) at every point and integrates to one over y for every x. Multiplied with a Gaussian over x it "
    "gives the joint Gaussian whose marginal over y has mean Am and covariance A C A' + N and whose conditioning on y is the "
    "exact Bayesian posterior.",
    ["inputs"], "all matrices A, positive definite N, Gaussians over x and observations of y",
    "The tests check one square example.",
    [GAU], [("make_linear_gaussian, make_linear_gaussian_cpd_template, GaussianTemplate", GAU)])

add("M01", "Gaussian mixture operations act on the sum of the components",
    "A Gaussian mixture represents the sum of its components, and multiplying by Gaussians or mixtures over any scopes, "
    "dividing by a single Gaussian, marginalising, reducing and normalising give mixtures that represent the product, quotient, "
    "integral, slice and normalised version of that function. Weights may be anything positive and the components may overlap "
    "or be far apart. The results keep the mixture's cancel method.",
    ["inputs", "histories"], "all mixtures of proper Gaussians and operations on them",
    "The tests use fixed mixtures of two or three components.",
    [MIX], [("GaussianMixture.multiply / divide / marginalize / reduce / normalize / potential", MIX)])

add("M02", "Moment matching, argmax, equality and copies of mixtures are faithful",
    "Moment matching gives the Gaussian with exactly the weight, mean and covariance of the mixture; equality does not depend "
    "on the component order, matches every component once and detects a changed, missing or duplicated component; a copy is "
    "equal and independent. The argmax has a potential at least as high as all the component means.",
    ["inputs"], "all mixtures of proper Gaussians, permutations and single component changes",
    "The tests check moment matching and equality on one or two fixed mixtures.",
    [MIX], [("GaussianMixture.moment_match_to_single_gaussian / equals / argmax / copy", MIX)])

add("F01", "Factorised factors represent the product of their parts under all operations",
    "A factorised factor represents the product of its parts: its joint distribution equals that product, and multiplying, "
    "dividing, marginalising, reducing, normalising and comparing factorised factors give the same function as the operations "
    "on the joint distribution, for any scopes of the parts and any history of operations.",
    ["inputs", "histories"], "all collections of Gaussian parts and operation histories on them",
    "The tests use two or three fixed parts and single operations.",
    [FAC], [("FactorizedFactor.multiply / divide / marginalize / reduce / normalize / equals / joint_distribution", FAC)])

add("N01", "Nonlinear Gaussian conditionals equal the sigma point transform of their input",
    "Multiplying a nonlinear Gaussian conditional with a Gaussian over its conditioning variables gives the joint Gaussian with "
    "the mean and covariance of the transformed sigma points of that Gaussian (the noise covariance added to the conditional "
    "variables), whatever the order in which the Gaussian lists its variables. For affine transforms this is exactly the linear "
    "Gaussian joint distribution.",
    ["inputs"], "all Gaussians over the conditioning variables, affine and nonlinear transforms, noise covariances and orders",
    "The tests use one or two fixed transforms and inputs.",
    [NLG, SIG], [("NonLinearGaussian._update_conditioning_scope, joint_distribution", NLG), ("get_sigma_points_array, sigma_points_array_to_joint_params", SIG)])

add("N02", "Operations on nonlinear Gaussian factors follow the joint distribution",
    "With an affine transform, any history of products and quotients with Gaussians over the conditioning or conditional "
    "variables, followed by marginalising, observing or normalising a nonlinear Gaussian factor gives the result of the same "
    "operations on the linear Gaussian factor. Before the conditioning scope is complete, the absorbed factors are kept and count in "
    "the marginals over the variables they cover. The mixture version gives, for a Gaussian mixture input, the mixture of the "
    "results for its components.",
    ["inputs", "histories"], "all histories of supported operations with Gaussian (mixture) factors",
    "The tests apply single operations to fixed factors.",
    [NLG], [("NonLinearGaussian.multiply / divide / marginalize / reduce / normalize", NLG), ("NonLinearGaussianMixture", NLG)])

add("K01", "Cluster graphs use every factor once and satisfy the running intersection rule",
    "A cluster graph built from any factors and evidence has an initial joint that is the product of the factors reduced by the "
    "evidence, each factor being used in exactly one cluster whose scope covers it. Every unobserved variable occurs in the "
    "separators of a tree of edges that connects exactly the clusters that contain it, the separators lie in the scopes of both "
    "their clusters, and observed variables occur in no cluster.",
    ["inputs", "configurations"], "all sets of factors and evidence",
    "The tests build a few fixed graphs.",
    [CG, CLU], [("ClusterGraph.__init__, _absorb_subset_factors, _set_non_rip_sepsets_dict, RIP path removal", CG), ("Cluster.add_neighbour", CLU)])

add("K02", "Message passing never changes the distribution that a cluster graph represents",
    "At every point of every schedule of messages (in any order, repeated or partial, on trees and on graphs with loops) the "
    "product of the cluster potentials divided by the last message sent over every edge remains the product of the original "
    "factors given the evidence, and the posterior joint that the graph reports stays proportional to it. A message is the "
    "marginal of the sender over the separator without what was received over that edge.",
    ["schedules", "inputs"], "all message schedules on all cluster graphs of discrete or Gaussian factors",
    "The tests pass the messages of one schedule on fixed graphs; the schedules form an exponential space.",
    [CG, CLU, CAT, SPA, GAU], [("MessagePath.pass_next_message", CG), ("Cluster.make_message / receive_message", CLU), ("ClusterGraph.get_posterior_joint", CG)])

add("K03", "Inference on trees of discrete factors gives the exact posterior marginals",
    "If the cluster graph is a tree, the (normalised) marginal of any set of variables within a cluster after message passing "
    "equals the exact marginal of the product of the factors given the evidence, for dense and sparse factors, including "
    "deterministic factors with zeros, evidence given at construction, and disconnected models. The marginals of all the "
    "clusters that share variables agree.",
    ["inputs", "configurations"], "all tree structured discrete models and evidence with positive probability",
    "The tests and notebooks run a few fixed networks.",
    [CG, CLU, CAT, SPA], [("ClusterGraph.process_graph / get_marginal", CG), ("Cluster.make_message", CLU)])

add("K04", "Inference on Gaussian trees gives the exact posterior, as Kalman smoothing does",
    "For tree structured Gaussian models, in particular linear state space models of any length and dimension with partial "
    "measurements, the marginals after message passing equal the exact conditional Gaussian (the Kalman smoother), whether the "
    "dynamics are given as linear Gaussian factors, templates or affine nonlinear factors.",
    ["inputs", "configurations"], "all linear state space and tree structured Gaussian models, observations and priors",
    "The tests run one or two fixed chains.",
    [CG, CLU, GAU, NLG], [("ClusterGraph.process_graph / get_marginal", CG), ("Gaussian operations and kl_divergence", GAU)])

add("K05", "Message passing terminates, reports and repeats consistently",
    "Each call of process_graph stops after at most the given number of iterations over the message paths or as soon as no message "
    "would change a belief by more than the tolerance, always sends the message with the largest change first (the change is the KL "
    "divergence KL(previous message || next message)), and records one distance per message of that run. After convergence "
    "every next message equals the previous one, processing again does not change any marginal, and the marginals do not depend on "
    "the order of the factors or the names and order of the variables. Recording messages, printing, progress bars, animations and "
    "questions between the runs (marginals, joint, figures, messages made for inspection) make no difference.",
    ["inputs", "schedules", "configurations"], "all models, tolerances and iteration limits, repeated runs",
    "The tests check the number of messages of a single graph.",
    [CG, CLU], [("ClusterGraph.process_graph, _set/_sort message paths, deque handling", CG), ("MessagePath.next_information_gain", CG)])

add("K06", "Evidence can be given at construction or later with the same result",
    "Marginals obtained with special evidence equal those of the model in "
    "which the same evidence is applied to the factors at construction, for discrete and Gaussian trees and for single clusters. "
    "Observed variables are fixed at their values in every message and marginal.",
    ["inputs", "configurations"], "all tree structured models, splits of the evidence over both mechanisms and repeated processing",
    "The tests use special evidence in one fixed model.",
    [CG, CLU], [("ClusterGraph special_evidence handling, get_marginal", CG), ("Cluster.make_message with evidence", CLU)])

add("K07", "Clusters absorb, replace and make messages by the belief update algebra",
    "Whatever messages a cluster receives from its neighbours, and in whatever order, its factor is its initial factor times the "
    "last message from every neighbour, and the message that it makes for a neighbour is the marginal of that factor (given the "
    "special evidence) over their separator divided by the last message from that neighbour; messages for another cluster are "
    "rejected without effect. Two messages are equal exactly if they have the same sender, receiver and factor, and their "
    "divergence is that of their normalised factors.",
    ["inputs", "histories"], "all clusters, sets of neighbours and sequences of received and made messages",
    "The tests receive and make single messages with fixed parameters.",
    [CLU], [("Cluster.receive_message, make_message, add_neighbour, get_sepset", CLU), ("Message.equals, kl_divergence", CLU)])

add("K08", "Converged message passing on loops is calibrated and at the right fixed point",
    "If the message passing has converged on a cluster graph with loops (no next message differs from the last one along its path), "
    "neighbouring clusters have the same marginal over their separator, for discrete and Gaussian models and with evidence of either "
    "kind. The means of all the Gaussian clusters are then those of the exact posterior. If the couplings of the variables are weak, the message "
    "passing converges, the beliefs are those of the only fixed point of belief propagation on that graph, and the marginals that "
    "are read from the graph are those of its beliefs; multiplying a factor by a constant, calling the processing again with a "
    "smaller tolerance and the units of the variables make no difference. With zeros, no assignment of positive probability is ever "
    "excluded from a belief, and after convergence a cluster excludes exactly what its factors and the exclusions of its neighbours "
    "(passed on over the separators, again and again) imply.",
    ["inputs", "schedules"], "all models with loops for which the message passing converges",
    "The tests of graphs with loops compare one or two fixed models.",
    [CG, CLU], [("ClusterGraph.process_graph, _GraphMessagePath", CG), ("Cluster.make_message, receive_message", CLU)])

add("X01", "Operations leave their operands unchanged and their results are independent",
    "No operation on a factor (product, quotient, marginal, reduction, normalisation, comparison, divergence, reordering, "
    "printing, building a cluster graph from it and passing messages) changes the function that one of its operands represents, "
    "or the lists and dictionaries (variables, values, evidence, factors) that are passed to it. Changing a result, or the arguments that a factor was built from, never changes another factor.",
    ["inputs", "histories"], "all factor types, operations and in-place changes of results and arguments",
    "The tests hardly compare operands before and after operations.",
    [CAT, SPA, GAU, MIX, FAC, NLG, CG, CLU, BASE], [("copies in the constructors and operations of all the factor classes", BASE), ("Cluster / ClusterGraph copies", CLU)])

add("X02", "Templates make the same factors as direct construction",
    "A factor made from a template with a format dictionary or with explicit variable names equals the factor built directly from "
    "the same parameters over the formatted names. Factors made from one template are independent of each other and of later "
    "changes of the template's inputs, and a template is formattable exactly by the dictionaries that provide all its fields.",
    ["inputs"], "all template types, format strings and dictionaries",
    "The tests format one or two fixed templates.",
    [TPL, CAT, SPA, GAU, NLG], [("FactorTemplate.formattable", TPL), ("make_factor of the template classes", CAT)])

add("X03", "Malformed factors and incompatible operands are rejected",
    "Building a factor with duplicate variables, parameters whose number or dimensions do not match the variables, or missing or "
    "incomplete parameters raises an exception. So do operations on factors of incompatible types, inconsistent cardinalities or "
    "assignment names, reordering to another set of variables, and asking a cluster graph for a marginal that no cluster covers.",
    ["inputs"], "all single corruptions of valid inputs",
    "The tests try a few fixed malformed inputs.",
    [BASE, CAT, SPA, GAU, MIX, FAC, CG, UTL], [("argument checks of the constructors and operations", BASE), ("_assert_consistent_cardinalities, _check_consistent_assignment_names", CAT)])

add("X04", "Samples follow the represented distribution",
    "Samples drawn from a Gaussian, a Gaussian mixture or a (mixture) nonlinear Gaussian factor have one column per sample and one "
    "row per variable (in the factor's variable order), and their mean and covariance converge to those of the represented "
    "distribution, with every mixture component drawn in proportion to its weight. The same holds for any part of the samples, "
    "such as the first of them.",
    ["inputs"], "all proper parameters, numbers of samples and weights",
    "The tests draw from one fixed distribution.",
    [GAU, MIX, NLG], [("sample", GAU), ("sample", MIX), ("sample", NLG)])

add("X05", "Indexed operations and conversions of parameters respect names and shapes",
    "Element wise operations on matrices and vectors with named indices combine exactly the entries of the same variables (absent "
    "entries being zero) for every overlap and order of the names. Conversions of scalars, lists and arrays to column vectors, "
    "square matrices and scalars keep the values, and selecting the evidence of a scope returns exactly the observed variables of "
    "that scope with their own values.",
    ["inputs"], "all name lists, orders, overlaps and representations of values",
    "The tests use one or two fixed examples per helper.",
    [UTL], [("indexed_square_matrix_operation, indexed_column_vector_operation, make_column_vector, make_square_matrix, get_subset_evidence", UTL)])

add("X06", "Drawing a cluster graph's messages changes the colours of the right edges only",
    "The figure of a cluster graph shows every cluster with its scope and every separator between its two clusters, and recolouring "
    "a message edge or a cluster in an animation frame changes the colour of exactly that edge or cluster and nothing else in the "
    "figure, whatever the names of the clusters (an edge or cluster that is not in the figure is rejected with a ValueError); the "
    "frames of an animation highlight the senders and receivers of the passed messages in order.",
    ["inputs", "histories"], "all cluster names, graphs and recolouring sequences",
    "The tests recolour one edge of one graph.",
    [ANI, CG], [("change_graph_edge_color, change_graph_node_color", ANI), ("ClusterGraph._build_graph, process_graph", CG)])

add("X07", "What is printed and plotted is what the factors and graphs hold",
    "Any factor can be printed, in any form, and the printout names its variables and shows its current parameters. The curves and "
    "contours that are plotted of Gaussians, mixtures and non-linear Gaussians are their (log) potentials over the given limits, or "
    "over limits that cover the components; the bars of a categorical factor are its values, with the names of the assignments; the "
    "convergence and information gain plots of a cluster graph show the recorded values of every message.",
    ["inputs", "histories"], "all factors, limits and processed graphs",
    "The tests check that the plot functions are called, with mocks, for one or two factors.",
    [GAU, CAT, SPA, MIX, NLG, FAC, CG],
    [("show, __repr__, plot of the factor classes", GAU), ("GaussianMixture.plot", MIX), ("Categorical.plot", CAT),
     ("plot_message_convergence, plot_next_messages_info_gain", CG)])


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w", encoding="utf-8") as handle:
        for entry in P:
            handle.write(json.dumps(entry) + "\n")


if __name__ == "__main__":
    main()
