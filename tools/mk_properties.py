"""Single source of /verif/properties.jsonl (regenerate with python3 tools/mk_properties.py)."""
import json
S = "src/pysatl_criterion/"
G = S + "statistics/goodness_of_fit/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

ONE = "the existing tests compare each criterion with one or two hard-coded samples (n<=20, default parameters); a wrong branch for another sample size, parameter value or tie pattern is never executed."

p("C01", "Distance criteria equal the EDF distance to the null they declare",
  "For every distribution family and every choice of null parameters, the Kolmogorov-Smirnov (two-sided, D+ and D-), Lilliefors-type, Anderson-Darling, Cramer-von Mises, Watson, Kuiper, Min-Toshiyuki and Zhang-type criteria return exactly the distance between the sample's empirical distribution function and the null distribution function that defines them. The null used is the one given by the constructor parameters, or the fitted one where the criterion is documented to estimate parameters from the sample.",
  ["inputs", "configurations"], "all samples (any size >= the criterion's minimum, ties, any scale), all null parameters, all one- and two-sided variants",
  ONE, [G + f for f in ("common.py", "normal.py", "exponent.py", "weibull.py", "uniform.py", "student.py", "gamma.py", "beta.py", "log_normal.py")],
  [("shared KS/AD/CvM/Lilliefors/MinToshiyuki kernels", G + "common.py"), ("per-family probability integral transform in execute_statistic", G + "*.py")], ["return value of execute_statistic"])

p("C02", "Normality criteria equal their published formulas",
  "Every non-distance normality criterion (regression/correlation, moment, L-moment, spacing, kernel, robust and characteristic-function types) returns the value of its published test statistic on the given sample. This holds for every admissible sample size, including both sides of every sample-size threshold at which constants or approximations change.",
  ["inputs"], "all samples with non-zero spread whose size is at least the criterion's minimum",
  ONE, [G + "normal.py"], [("execute_statistic of each normality criterion", G + "normal.py")], ["return value of execute_statistic"])

p("C03", "Exponentiality criteria equal their published formulas",
  "Every non-distance exponentiality criterion returns the value of its published test statistic on the given sample, for every admissible sample size.",
  ["inputs"], "all samples of positive observations, any size from the criterion's minimum, with and without ties where the formula is tie-free, any scale",
  ONE, [G + "exponent.py"], [("execute_statistic of each exponentiality criterion", G + "exponent.py")], ["return value of execute_statistic"])

p("C04", "Weibull criteria equal their published formulas",
  "Every non-distance Weibull criterion (normalized spacings, stabilized probability plot, correlation, Laplace transform, Kullback-Leibler, likelihood-based, chi-square) returns the value of its published test statistic, using the null parameters it was constructed with where the null is fully specified.",
  ["inputs", "configurations"], "all positive samples, sizes and (scale/shape) parameters",
  ONE, [G + "weibull.py"], [("execute_statistic of each Weibull criterion", G + "weibull.py")], ["return value of execute_statistic"])

p("C05", "Uniformity criteria equal their published formulas",
  "Every non-distance uniformity criterion (spacings, smooth, kernel-density, Stein-type, chi-square, Sherman, Quesenberry-Miller, Greenwood) returns the value of its published test statistic relative to the interval it was constructed for, for every option value it accepts.",
  ["inputs", "configurations"], "all samples inside the declared interval, all intervals and options",
  ONE, [G + "uniform.py"], [("execute_statistic of each uniformity criterion", G + "uniform.py")], ["return value of execute_statistic"])

p("C06", "Gamma, Beta and Student criteria equal their published formulas",
  "Every non-distance Gamma, Beta and Student criterion (binned chi-square family, spacings, probability-plot correlation, moments, skewness-kurtosis, ratio, entropy, mode) returns the value of its published test statistic relative to the null parameters, bin counts and power parameters it was constructed with.",
  ["inputs", "configurations"], "all samples in the support, all shape/scale/location parameters, bin counts and powers",
  ONE, [G + "gamma.py", G + "beta.py", G + "student.py"], [("execute_statistic of each criterion", G + "gamma.py, beta.py, student.py")], ["return value of execute_statistic"])

p("C07", "Log-normal criteria are the normal criteria on the log scale",
  "For every criterion offered for both families, the log-normal criterion on a positive sample equals the normality criterion on the logarithms of that sample, with the same tail and the same short code. The log-normal-only criteria (Quesenberry-Miller and the Kullback-Leibler pair) equal their published formulas.",
  ["inputs", "configurations"], "all positive samples and all (s, scale) parameters",
  ONE, [G + "log_normal.py"], [("dynamic class generation from the normality criteria", G + "log_normal.py")], ["return value of execute_statistic, alternative(), code()"])

p("C08", "Graph criteria equal the graph quantity of the proximity graph",
  "Each graph criterion returns exactly the edge count, maximum degree, average degree, number of connected components, clique number or independence number of the graph that joins two observations when their distance is below the family's threshold. The six criteria of one sample are mutually consistent because they describe the same graph.",
  ["inputs"], "all samples of size >= 1, with ties, clusters and isolated points, for the normal, exponential and gamma families",
  "tests use one fixed sample per criterion; the graph relations must hold for every point configuration (chains, clusters, single component, isolated maximum).",
  [G + "graph_goodness_of_fit.py", G + "normal.py", G + "exponent.py", G + "gamma.py"],
  [("adjacency construction and get_graph_stat", G + "graph_goodness_of_fit.py"), ("threshold normalisation", G + "normal.py, exponent.py, gamma.py")], ["return value of execute_statistic, get_graph_stat"])

p("C09", "Criteria do not depend on the order of the observations",
  "Every goodness-of-fit criterion gives the same value for any permutation of the sample, because the sample is an unordered collection of observations.",
  ["inputs"], "all criteria x all samples x all permutations (sorted, reversed, random, swaps at the ends, tie blocks)",
  "tests call every criterion on one ordering of each sample.",
  [G + "*.py"], [("sorting at the start of execute_statistic", G + "*.py")], ["pairs of execute_statistic calls"])

p("C10", "Evaluating a criterion is pure",
  "Evaluating a criterion never modifies the caller's sample or the criterion object, writes nothing to standard output, does not consume or reseed global random state, and returns the same value when repeated, whatever other criteria were evaluated in between and whichever equal instance is used.",
  ["inputs", "histories"], "all criteria, all sample containers, all interleavings of evaluations of several criteria on several samples",
  "tests evaluate each criterion once per process on a literal and discard the sample, so mutation, leaked state or nondeterminism cannot show.",
  [G + "*.py"], [("copy-before-sort in execute_statistic", G + "*.py"), ("absence of instance/class state", G + "*.py")], ["sample before/after, instance attributes, stdout, numpy/random global state"])

p("C11", "Criteria accept every sequence container of the same numbers alike",
  "A sample given as a list, a tuple, a NumPy array (contiguous, strided, read-only) or with integer instead of floating dtype gives the same value of the criterion. No container that holds valid observations is rejected or misread.",
  ["inputs"], "all criteria x all containers of equal numeric content",
  "tests pass Python lists while the Monte Carlo resolver passes NumPy arrays; no test passes both.",
  [G + "*.py", S + "hypothesis_testing/limit_distribution/base.py"], [("asarray/sort conversions", G + "*.py")], ["execute_statistic on converted samples"])

p("C12", "Composite-null criteria ignore the nuisance parameters",
  "A criterion for a composite null has a value that does not change when the sample is moved along the nuisance parameters: location and scale for composite normality, scale for composite exponentiality, scale and power for composite Weibull, log-location and log-scale for composite log-normality. A criterion for a simple null is equivariant: moving the sample and the declared location/scale/interval parameters together leaves it unchanged.",
  ["inputs", "configurations"], "all samples x all affine (or scale/power) transformations x all parameters",
  "tests use one sample in one unit of measurement.",
  [G + "*.py"], [("standardisation by estimated or declared parameters", G + "*.py")], ["pairs of execute_statistic calls"])

p("C13", "Criteria return one finite real number on every valid sample",
  "On every sample that lies in the support of the null, has at least the criterion's minimum size and is not degenerate, each criterion terminates and returns one finite real number within the theoretical range of the statistic (for example distances in [0,1], correlation statistics at most 1, quadratic statistics non-negative). It never returns nothing, NaN or an array.",
  ["inputs"], "all criteria x sizes from the minimum to large x spread from 1e-6 to 1e6, shifted, skewed, heavy-tailed and discrete samples",
  "tests use small, well-behaved samples.",
  [G + "*.py"], [("numeric kernels of each criterion", G + "*.py")], ["return value and exceptions of execute_statistic"])

p("C14", "Criterion identity: unique codes, complete registry, faithful hypothesis",
  "Every criterion has a code that no other criterion shares, is discoverable for its own distribution and no other, and reports a hypothesis whose parameters are exactly those it was constructed with, in a stable order. Storage keys derived from code and hypothesis parameters therefore never confuse two different nulls.",
  ["configurations", "inputs"], "all criterion classes x all constructor parameters x any order of imports",
  "tests assert individual codes and one registry snapshot; uniqueness and parameter reporting are relations over all classes.",
  [G + "*.py", S + "utils/statistic.py", S + "statistics/hypothesis.py"],
  [("code()/short_code()/hypothesis()", G + "*.py"), ("subclass walk", S + "utils/statistic.py")], ["code(), short_code(), hypothesis(), get_available_criteria"])

p("C15", "Monte Carlo null distributions are simulated from the declared null",
  "The limit distribution obtained by Monte Carlo for a criterion is that criterion's distribution when the data really come from the distribution and parameters it was constructed with. Consequently a simple-null test at level alpha rejects true-null data with probability about alpha for every null parameter value, not only the default ones.",
  ["configurations", "inputs"], "all criteria with explicit null parameters x parameter values x sample sizes",
  "no test runs the Monte Carlo path against data generated independently from the declared null; a silently ignored parameter is invisible at default values.",
  [S + "hypothesis_testing/limit_distribution/base.py", S + "utils/generator.py", S + "generator/generators.py", S + "generator/model.py", G + "*.py"],
  [("hypothesis -> generator mapping", S + "hypothesis_testing/limit_distribution/base.py"), ("generator lookup by distribution", S + "utils/generator.py")], ["samples handed to execute_statistic by the resolver; rejection frequency"])

p("C16", "The rejection tail is the tail towards which departures move the criterion",
  "For every criterion the declared alternative points its critical region at the side to which data that grossly violate the null push the statistic, so a full test with simulated null distribution rejects gross departures. No criterion's declared one-sided region lies entirely on the side that indicates a good fit.",
  ["inputs", "configurations"], "all criteria x a battery of gross departures from each family x both decision methods",
  "tests never combine a criterion with its own alternative, a null distribution and non-null data.",
  [G + "*.py", S + "statistics/alternative.py", S + "hypothesis_testing/alternative_factory/alternative_factories.py"],
  [("alternative() of each criterion", G + "*.py"), ("alternative factories", S + "hypothesis_testing/alternative_factory")], ["alternative(), position of the statistic under departures relative to its null distribution"])

p("C17", "Generators draw from the distribution they declare",
  "Every random generator draws independent observations from the distribution family it declares with exactly the parameters it was given, for every valid parameter value; two different valid parameterisations give the corresponding different distributions.",
  ["inputs", "configurations"], "all generators x parameter grid x sample sizes",
  "tests check only metadata; no test looks at generated values.",
  [S + "generator/generators.py", S + "core/distributions/*.py"], [("generate() -> core sampling function", S + "generator/generators.py"), ("scipy rvs argument mapping", S + "core/distributions")], ["generated samples against an independent cdf"])

p("C18", "Generator contract: size, reproducibility, identity, lookup",
  "A generator returns exactly the requested number of finite observations inside the support, is reproducible under a fixed global seed and advances the random stream between calls, never changes its own parameters, and reports parameters and a code that distinguish any two different parameterisations. Looking a generator up by distribution and parameters yields one that behaves identically to constructing it directly.",
  ["inputs", "histories", "configurations"], "all generators x sizes (0, 1, many, tuple where supported) x parameters x call sequences",
  "tests check metadata of one instance each.",
  [S + "generator/generators.py", S + "generator/model.py", S + "utils/generator.py"], [("BaseGenerator and subclasses", S + "generator/model.py, generators.py"), ("get_available_generator", S + "utils/generator.py")], ["generate(), parameters(), code()"])

p("C19", "Density, cdf, survival helpers agree; sample moments are exact",
  "For every distribution helper the cdf is a monotone function from 0 to 1, the density integrates to it, log-cdf and log-survival agree with it even far in the tails, and all follow the distribution and parameters they name. The sample moment helpers return the raw, centred and central moments of the given sample for every order.",
  ["inputs", "configurations"], "all helper functions x arguments from deep tails to centre x parameters x moment orders",
  "no test calls these helpers.",
  [S + "core/distributions/*.py"], [("cdf/pdf/logcdf/logsf/moment helpers", S + "core/distributions")], ["function values"])

p("C20", "P-values are the empirical tail probabilities of the statistic",
  "Given a limit sample, the left p-value is the fraction of simulated values not above the observed one, the right p-value is its complement, and the two-sided p-value is twice the smaller of the two; all lie in [0,1]. They are monotone in the observed value, do not depend on the order of the simulated values, and never alter the limit sample.",
  ["inputs"], "all limit samples (ties, duplicates, single value, unsorted, any size) x all observed values (below, between, equal to, above the simulated ones)",
  "one test row per calculator on [1,2,3,4].",
  [S + "hypothesis_testing/p_value/calculator/p_value_calculator.py", S + "hypothesis_testing/p_value"], [("ecdf based calculators", S + "hypothesis_testing/p_value/calculator")], ["calculate()"])

p("C21", "Critical values are quantiles of the simulated limit distribution",
  "For every limit sample and significance level the critical value is the corresponding quantile of the simulated values (upper for right, lower for left, both halves for two-sided), so it is order-independent, lies within the simulated range, is monotone in the level, and leaves at most about the significance level of simulated values outside the acceptance area. Acceptance areas contain their critical values and are nested as the level decreases.",
  ["inputs"], "all limit samples including tied and unsorted ones x levels in (0,1)",
  "tests use [1,2,3,4] once per calculator; repeated simulated values never occur.",
  [S + "hypothesis_testing/critical_values/calculator/critical_value_calculator.py", S + "hypothesis_testing/critical_values/critical_area/critical_areas.py"], [("quantile calculators", S + "hypothesis_testing/critical_values/calculator"), ("areas", S + "hypothesis_testing/critical_values/critical_area")], ["calculate(), contains()"])

p("C22", "Test decisions are consistent, monotone and fully reported",
  "The outcome of a goodness-of-fit test is determined by the criterion value, the limit distribution and the level alone: the p-value method rejects exactly when the reported p-value is at most the level, the critical-value method exactly when the reported critical value excludes the statistic, and rejection at a level implies rejection at every larger level. The result reports the computed statistic, the level, and the p-value or critical value actually used, and the two methods agree except where the statistic is within one simulated value of the critical value.",
  ["inputs", "configurations", "histories"], "all criteria, samples, limit distributions, levels, decision methods, reuse of one test object for many samples",
  "tests use fakes with one value each.",
  [S + "hypothesis_testing/goodness_of_fit_test/goodness_of_fit_test.py", S + "hypothesis_testing/model.py", S + "hypothesis_testing/alternative_factory"], [("decision methods", S + "hypothesis_testing/goodness_of_fit_test/goodness_of_fit_test.py"), ("factories by alternative", S + "hypothesis_testing/alternative_factory")], ["TestResult"])

p("C23", "The Monte Carlo resolver runs the requested, independent simulation",
  "Resolving a limit distribution by Monte Carlo evaluates the given criterion on exactly the requested number of freshly generated samples of exactly the requested size and returns exactly those values, in a form independent of earlier resolutions. It is reproducible under a fixed seed, gives fresh values otherwise, rejects non-positive counts and sizes, and reports failures of the criterion instead of returning a partial distribution.",
  ["inputs", "histories", "fault_sequences"], "all counts, sample sizes, criteria, sequences of resolutions, criterion failures at any position",
  "no test runs the resolver.",
  [S + "hypothesis_testing/limit_distribution/base.py"], [("MonteCarloLimitDistributionResolver.resolve", S + "hypothesis_testing/limit_distribution/base.py")], ["calls observed by a probing criterion, returned list"])

p("C24", "Adjusted p-values equal the textbook multiple-testing procedures",
  "For every list of p-values, Bonferroni, Sidak, Holm, Sidak-Holm and Benjamini-Yekutieli adjusted p-values equal their textbook definitions, in the order of the input. Adjusted values never exceed 1, never fall below the raw p-values, and preserve the ordering of the raw p-values.",
  ["inputs"], "all lists of p-values (any length including thousands, ties, 0 and 1, tiny values, any order)",
  "tests use a handful of short lists, some of which do not distinguish a step-down from a step-up procedure.",
  [S + "hypothesis_testing/multiple_testing/fwer.py", S + "hypothesis_testing/multiple_testing/fdr.py"], [("adjust()", S + "hypothesis_testing/multiple_testing")], ["adjust()"])

p("C25", "Multiple-testing decisions are well-formed, equivariant and consistent",
  "For every method, decisions and adjusted values come back in input order with input length, permuting the p-values permutes the result, a hypothesis is rejected exactly when its adjusted p-value is below the threshold, rejections grow with the threshold and shrink when p-values grow or further hypotheses with p-value one are added. Values outside [0,1] are refused, empty input gives empty output, and the input list is left unchanged.",
  ["inputs", "configurations"], "all methods x lists x thresholds x permutations x invalid values at any position",
  "tests cover validation for two of five methods and no relation between calls.",
  [S + "hypothesis_testing/multiple_testing/abstract_multiple_testing.py", S + "hypothesis_testing/multiple_testing/fwer.py", S + "hypothesis_testing/multiple_testing/fdr.py"], [("test() and validation", S + "hypothesis_testing/multiple_testing/abstract_multiple_testing.py")], ["test(), adjust()"])

p("C26", "Limit-distribution storage behaves as a keyed map under any history",
  "After any sequence of single and bulk inserts, overwrites, deletes and reads, a read by exact key returns the last stored record with that key or nothing, a bulk read and a read for critical values return the record with the largest Monte Carlo count among those matching criterion and sample size, and operations on one key never affect another. Keys differing in any component (criterion, parameters, sample size, Monte Carlo count, experiment) are distinct.",
  ["histories", "inputs"], "all operation histories over few colliding keys, several experiments per key, unicode codes, float parameters",
  "tests run two- or three-operation histories with one key.",
  [S + "persistence/sqlalchemy/datastorage.py", S + "persistence/sqlalchemy/models/limit_distribution_orm.py", S + "persistence/models/limit_distribution.py"], [("AlchemyLimitDistributionStorage operations", S + "persistence/sqlalchemy/datastorage.py"), ("primary key", S + "persistence/sqlalchemy/models/limit_distribution_orm.py")], ["client call/return history"])

p("C27", "Stored simulated values come back unchanged",
  "The simulated statistic values read back from storage are the stored ones, in the same order and number, to the declared storage precision, for every length and magnitude including empty lists, duplicates, negative, subnormal, huge and special values. Corrupt or unknown stored bytes are reported, not silently decoded.",
  ["inputs", "fault_sequences"], "all arrays of values in both precisions; all truncations and corruptions of the stored bytes",
  "tests store one-element lists.",
  [S + "persistence/sqlalchemy/alchemy_decorator.py", S + "persistence/sqlalchemy/datastorage.py"], [("CompressedFloatArray encode/decode", S + "persistence/sqlalchemy/alchemy_decorator.py")], ["bind/result processing, round trip through a database"])

p("C28", "Storage writes are atomic, durable and safe with several clients",
  "A write that returned is visible to every later read, including after the database is reopened or the writing process is killed, and from other storage objects, threads and processes; a bulk insert that fails part-way leaves the storage as it was. Failed operations leave the storage usable, and an unreachable database yields no storage object instead of an exception when opened safely.",
  ["crash_points", "fault_sequences", "histories"], "faults injected at every statement of a write, process kill at random points, concurrent writers and readers on distinct and equal keys",
  "tests use one in-memory connection and no faults.",
  [S + "persistence/sqlalchemy/datastorage.py"], [("session/transaction scope per operation", S + "persistence/sqlalchemy/datastorage.py")], ["history of acknowledged writes and reads after reopen"])

p("C29", "The critical-value loader caches exactly what is missing and reports it",
  "Loading criteria for a sample size makes every criterion that the local or remote storage has available locally, fetches only what is missing, stores the remote record with the largest Monte Carlo count unchanged, and never touches the remote storage or overwrites local records when everything is cached. The reported counts and not-found list partition the request exactly and describe what is really in the local storage afterwards, also when a storage is absent or fails.",
  ["histories", "fault_sequences", "inputs"], "all subsets of criteria present locally/remotely, repeated and duplicate requests, failing or missing remote, failing local writes",
  "tests cover the bulk path for two criteria and no failure; the single-criterion path is never called.",
  [S + "hypothesis_testing/critical_values/loader/remote_loader.py"], [("CriticalValueLoader.load / load_bulk", S + "hypothesis_testing/critical_values/loader/remote_loader.py")], ["calls made on both storages; contents of local storage; returned counters"])

p("C30", "Tests backed by stored distributions use the record for that exact null",
  "A test that takes its limit distribution from storage uses the record stored for the same criterion, the same null parameters and the same sample size, reports clearly when there is none, and then decides exactly as it would with that list of simulated values. Records of other criteria, parameters or sample sizes never influence the decision.",
  ["histories", "inputs", "configurations"], "all stores with decoy records x criteria x parameters x sample sizes",
  "no test runs the storage-backed resolver.",
  [S + "hypothesis_testing/limit_distribution/base.py", S + "persistence/sqlalchemy/datastorage.py"], [("StorageLimitDistributionResolver.resolve", S + "hypothesis_testing/limit_distribution/base.py")], ["resolve() results, queries seen by the storage, TestResult"])

p("C31", "Maximised likelihood functions return the likelihood at the maximum",
  "For every family, the maximised likelihood of a sample equals the product of the family's densities (or probabilities) at the maximum-likelihood estimate; it is at least the likelihood at any other parameter value, does not depend on the order of the data, and is zero (never an exception) for data outside the support. The family search returns the family whose maximised likelihood is the largest.",
  ["inputs"], "all families x all samples (in, on the edge of and outside the support, constant samples, long samples)",
  "tests check a few short samples against the code's own formulas.",
  [S + "estimation/maximum_likelihood/function_for_maximum_likelihood.py", S + "estimation/maximum_likelihood/maximum_likelihood.py"], [("likelihood functions", S + "estimation/maximum_likelihood/function_for_maximum_likelihood.py")], ["function values"])

p("C32", "Distribution descriptors and validators describe what generators accept",
  "Every distribution descriptor lists exactly the parameters of that distribution's generator, with defaults that its own validators accept and from which the generator can draw, and every validator accepts a value exactly when it lies in the stated range (including its boundary and non-finite values).",
  ["configurations", "inputs"], "all distribution types x parameters x boundary, interior, exterior and non-finite values",
  "tests compare seven descriptors with literals and never run a validator.",
  [S + "distribution/distributions.py", S + "distribution/validator.py", S + "distribution/distribution_type.py", S + "utils/distribution.py"], [("descriptor.parameters()", S + "distribution/distributions.py"), ("validators", S + "distribution/validator.py")], ["parameters(), validate(), generator built from defaults"])

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P))
