#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place where titles and statements are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=list(observe), hook_needed=hook)))
H='templatefitter/histograms/'; T='templatefitter/templates/'; TF='templatefitter/'

p("H01","Weighted fills of a 1D histogram are booked exactly",
"After any sequence of fills of a one-dimensional histogram (at construction or later), every bin holds the sum of the weights of exactly those entries that lie in it, and its squared error is the sum of their squared weights; a bin contains its lower edge and not its upper one, except the last bin, which contains both. Entries outside the range contribute nothing (those above the upper edge by less than about a millionth of a bin width may count as on it), entries without weights count 1, and neither the order and batching of the fills nor the kind of container or number type of data and weights matters. A fill that is rejected changes nothing.",
["inputs","histories"],"all binnings (equal or variable width), all data and weights (negative, integer, zero, empty, out of range, on an edge), all sequences of fills",
"The tests fill one data set once or twice into ten equal bins; edges, negative or integer weights, variable bins, empty and repeated fills are not sampled.",
[H+'hist1d.py',H+'abstract_hist.py'],[("fill adds binned sums of weights and squared weights",H+'hist1d.py:fill')],
[("bin contents","sum of weights per bin",H+'abstract_hist.py:bin_counts'),("squared errors","sum of squared weights per bin",H+'abstract_hist.py:bin_errors_sq')],["bin_counts","bin_errors_sq","bin_errors","is_empty"])

p("H02","2D fills and projections are booked exactly",
"After any sequence of fills of a two-dimensional histogram, the cell at position (i, j) holds the sum of the weights, and as squared error the sum of squared weights, of exactly the entries whose first coordinate lies in x-bin i and whose second lies in y-bin j, with the same edge, range and weight rules as in one dimension. The x (y) projection is a one-dimensional histogram on the x (y) edges whose contents and squared errors are the sums over the other axis of the present cells.",
["inputs","histories"],"all pairs of binnings (also non-square and of variable width), all data and weights, all sequences of fills and projections",
"The 2D tests use one data set, square binnings, unit weights and never look at errors, projections or repeated fills.",
[H+'hist2d.py'],[("fill, x_projection, y_projection",H+'hist2d.py')],
[("cells","sum of weights per cell",H+'hist2d.py')],["bin_counts","bin_errors_sq","x_projection","y_projection"])

p("H03","Histograms from bin contents report and own them",
"A histogram created from given bin contents, edges and errors reports exactly these (without errors: the square roots of the contents) and counts as filled, and later fills add to them. It shares nothing with the arrays it was created from: whatever happens later to the histogram does not change these arrays, and changes of the arrays do not change the histogram.",
["inputs","histories"],"all contents (integer or float), edges, errors, both dimensions, followed by any sequence of fills and of changes of the caller's arrays",
"The tests create such a histogram and read it back once; none fills it afterwards or keeps using the arrays.",
[H+'hist1d.py',H+'hist2d.py'],[("from_binned_data",H+'hist1d.py, '+H+'hist2d.py')],
[("bin contents","owned copy",H+'abstract_hist.py')],["bin_counts","bin_errors","bin_edges","is_empty"])

p("H04","Histogram geometry is consistent",
"A histogram with a number of bins and a range has that many bins of equal width from the lower to the upper limit; one with explicit edges has exactly these bins. Number of bins, shape, range, bin mids (centres) and bin widths (upper minus lower edge) always agree with the edges, for every axis, and no operation on the histogram changes them.",
["inputs","configurations"],"all ways to specify bins in one and two dimensions, before and after any operations",
"Tests look at one or two equal-width binnings right after construction.",
[H+'hist1d.py',H+'hist2d.py',H+'hist_utils.py'],[("bin edge initialisation, mids, widths, range",H+'hist1d.py:_init_bin_edges, '+H+'hist_utils.py')],
[],["bin_edges","bin_mids","bin_widths","num_bins","shape","range"])

p("T01","Template expectation is the yield times normalised bin fractions",
"For all yields and nuisance parameters the expected number of events of a template in bin i is the yield times n_i(1+theta_i e_i) / sum_j n_j(1+theta_j e_j), with the bin contents n and the relative bin uncertainties e of the template. Hence the fractions always sum to one, vanishing nuisance parameters reproduce the shape of the histogram, and the freshly made template reproduces its contents; a template of an empty histogram expects nothing in every bin.",
["inputs","histories"],"all histograms (1D, 2D, weighted, with empty bins), all yields and nuisance parameters, after any sequence of added uncertainties and parameter changes",
"The tests only look at the initial parameters, where the nuisance parameters and the normalisation play no role.",
[T+'abstract_template.py'],[("values, fractions, bin_fractions",T+'abstract_template.py')],
[("parameters","yield and nuisance parameters",T+'abstract_template.py:params')],["values","fractions"])

p("T02","Template uncertainties compose additively",
"The covariance matrix of a template is the diagonal matrix of the squared bin errors of its histogram (1e-14 for a bin with none) plus all covariance matrices added since, whatever their number and order; it never depends on the parameters, and the list of contributions keeps each one as given. The relative bin uncertainty is the root of the diagonal over the bin content (1e-7 in a bin without content), the bin errors are this times the current expectation, and the correlation matrix and its inverse are those of the covariance matrix.",
["inputs","histories"],"all histograms, all sequences of added covariance matrices and variations interleaved with parameter changes",
"One test adds one variation to one template; correlation, inverse, several contributions and later parameter changes are not tested.",
[T+'abstract_template.py',TF+'utility.py'],[("_init_errors, _add_cov_mat, errors",T+'abstract_template.py'),("cov2corr",TF+'utility.py')],
[("covariance","statistical plus systematic covariance",T+'abstract_template.py:cov_mat')],["cov_mat","cov_mats","corr","inv_corr_mat","errors"])

p("T03","Systematic variations become fully correlated covariances",
"Adding an up and a down variation of the event weights adds the outer product s s^T, where s_i is the average of the absolute shifts of bin i in the two variations, with a minus sign where the up variation lies below the down variation. The varied contents are obtained in the template's own bins, for equal or variable bin widths and in one or two dimensions, and a wrongly shaped covariance matrix is rejected without effect.",
["inputs","histories"],"all templates (1D, 2D, equal or variable bins), all variations (one-sided, crossing, equal), repeated",
"One test in one dimension with equal bins and a variation of the same sign in all bins; the 2D test failed.",
[T+'template1d.py',T+'template2d.py',TF+'utility.py'],[("add_variation, add_cov_mat",T+'template1d.py, '+T+'template2d.py'),("get_systematic_cov_mat",TF+'utility.py')],
[],["cov_mat","cov_mats"])

p("T04","Template parameters have a clean life cycle",
"Setting the yield, the nuisance parameters or all parameters of a template changes exactly these and can be read back; values of a wrong shape are rejected and change nothing. A reset restores the original yield (the content of the histogram the template was made from) and vanishing nuisance parameters and touches nothing else. Later changes of that histogram or of the arrays that were passed in never change the template, and templates never influence each other.",
["inputs","histories"],"all sequences of setting, resetting, rejected settings, fills of the source histogram and changes of passed arrays, over several templates",
"Tests read the initial parameters once; no test resets, rejects, or changes anything after construction.",
[T+'abstract_template.py',T+'template1d.py',T+'template2d.py'],[("params, yield_param, nui_params setters; reset",T+'abstract_template.py')],
[("parameters","yield and nuisance parameters",T+'abstract_template.py')],["params","yield_param","nui_params","reset"])

p("M01","Incompatible registrations are rejected without effect",
"A channel accepts a template or data histogram only if its bins and range are those of the channel, all its templates are of one kind, and each process has at most one template per channel; names of channels and processes must be defined before they are used, and a process only once. Every violation of this, and a constraint on an unknown process or a parameter operation on one, is answered with an error, and the model is then exactly what it was before the call, also if the call concerned several channels.",
["inputs","histories","configurations"],"all sequences of definitions, registrations, data and constraint calls, valid or not, in every state of the model",
"Tests try two rejections on one channel and never look at the state afterwards.",
[T+'channel.py',T+'multi_channel_template.py'],[("add_template, add_data, compatibility checks",T+'channel.py'),("define_process, add_template, add_data, add_gaussian_constraint_on_yield",T+'multi_channel_template.py')],
[("model","channels, processes, templates, data, constraints",T+'multi_channel_template.py')],["channels","processes","templates","has_data","num_nui_params"])

p("M02","The flat parameter vector is routed to the right templates",
"The parameter vector of a model lists one yield per process in order of definition and then, channel by channel and template by template in order of registration, one nuisance parameter per bin; names, start values, and the parts handed to the channels all follow this one layout. Writing a vector into the model gives every template its own process's yield times its efficiency and its own nuisance parameters, for any order of registration, any channel lacking some processes, and any number of bins per channel. A vector of any other length is rejected, wherever it is handed over, and changes nothing.",
["inputs","configurations"],"all models (numbers and orders of channels, processes, templates, bins, dimensions, missing templates), all parameter vectors",
"Tests check the shapes of the parts for two channels; only one test sets parameters, of one channel with one order.",
[T+'multi_channel_template.py',T+'channel.py'],[("generate_per_channel_parameters, update_parameters, NegLogLikelihood.param_names and x0",T+'multi_channel_template.py'),("process_indices, update_parameters",T+'channel.py')],
[("layout","yields, then nuisance parameters",T+'multi_channel_template.py')],["param_names","x0","generate_per_channel_parameters","update_parameters"])

p("M03","Yields and efficiencies are tracked per process",
"Setting the yield of a process gives each of its templates this value times the efficiency of the process in that channel and changes nothing else; the reported yield of a process is the sum over its templates, so it equals the value set whenever the efficiencies add up to one, and the reported yield error is the root of the summed squared bin errors of its templates. Resetting the model resets every template and nothing else.",
["inputs","histories","configurations"],"all models, all sequences of setting yields, parameters, resets and reads",
"One test reads the initial yields of one model; yields are never set, reset or read with efficiencies.",
[T+'multi_channel_template.py',T+'channel.py'],[("set_yield, get_yield, process_yields, process_yield_errors, reset_parameters",T+'multi_channel_template.py')],
[("yields","per template",T+'abstract_template.py')],["get_yield","process_yields","process_yield_errors"])

p("M04","The negative log-likelihood has its documented value",
"At every parameter vector the negative log-likelihood is the sum over all channels and bins of nu - n - n ln(nu/n) (for n = 0 just nu), with n the data and nu the efficiency-weighted sum of the templates' expectations, plus half the quadratic form of the nuisance parameters with the inverse correlation matrix of each template, plus ((y-m)/s)^2/2 for each constrained yield y. It is infinite where a bin has data although every template is empty there, or although a negative number of events is expected. A later constraint on the same process replaces the earlier one, and evaluating the likelihood changes nothing.",
["inputs","configurations"],"all models, data, constraints and all parameter vectors at which no bin with data expects exactly nothing by cancellation",
"Tests only check that the value is a scalar.",
[T+'channel.py',T+'multi_channel_template.py',TF+'utility.py'],[("nll_contribution, _expected_evts_per_bin, _gauss_term",T+'channel.py'),("NegLogLikelihood.__call__",T+'multi_channel_template.py'),("xlogyx",TF+'utility.py')],
[],["create_nll()(x)"])

p("M05","The likelihood always reflects the present model",
"The value of the likelihood at given parameters depends only on the present channels, templates, uncertainties, data and constraints, not on what was evaluated or fitted before: a template, covariance matrix, variation, data set, yield constraint or channel added after an evaluation counts in the next one, also for a likelihood object obtained earlier. It never depends on the parameter values currently stored in the model.",
["histories"],"all interleavings of evaluations and fits with every kind of change of the model",
"No test evaluates a likelihood, changes the model and evaluates again.",
[T+'channel.py',T+'multi_channel_template.py'],[("no caching across changes in _get_efficiencies_as_array, process_indices, _create_block_diag_inv_corr_mat",T+'channel.py')],
[],["create_nll()(x)","nll_contribution"])

p("M06","Asimov data sets equal the current expectation",
"The Asimov data set of a model contains for every channel, and nothing else, a histogram with the channel's edges, the sum of the current expectations of its templates as contents (rounded to the nearest integer if requested) and their square roots as errors. Using it as data, the likelihood without penalty terms vanishes at parameters that generated it and is larger elsewhere, and generating it leaves the model unchanged.",
["inputs","histories","configurations"],"all models in every parameter state, 1D and 2D",
"One test generates it from the initial parameters of one channel.",
[T+'channel.py',T+'multi_channel_template.py'],[("generate_asimov_dataset",T+'channel.py, '+T+'multi_channel_template.py')],
[],["generate_asimov_dataset","create_nll()(x)"])

p("M07","Toy data sets are independent Poisson draws of the expectation",
"A toy data set contains for every channel a histogram with the channel's edges whose contents are non-negative integers drawn independently, per bin and per call, from Poisson distributions with the current total expectations of the templates as means, with the square roots of the contents as errors. A bin with no expectation is always empty, a negative expectation is refused, the draws are reproducible from the seed of the global random generator, and generating them leaves the model unchanged.",
["inputs","histories","configurations"],"all models in every parameter state, all seeds",
"One test compares shapes.",
[T+'channel.py',T+'multi_channel_template.py'],[("generate_toy_dataset",T+'channel.py, '+T+'multi_channel_template.py')],
[],["generate_toy_dataset"])

p("M08","Post-fit uncertainties propagate the fit covariance",
"The post-fit covariance of a channel's bins is J C J^T, with C the covariance of the channel's parameters in the fit result and J the derivatives of the channel's total expectation with respect to them at the fitted values; the post-fit bin uncertainties are the roots of its diagonal. This holds for every order of processes and templates and for fits of several channels.",
["inputs","configurations"],"all models (several channels, any order), all parameter values and covariance matrices",
"No test touches post-fit uncertainties.",
[T+'channel.py'],[("propagate_parameter_uncertainties, get_post_fit_bin_uncertainty, bin_counts_from_param_values",T+'channel.py')],
[],["propagate_parameter_uncertainties","get_post_fit_bin_uncertainty","bin_counts_from_param_values"])

p("F01","Fixed and bounded parameters are honoured in fits",
"With either minimizer, every parameter fixed by name or by index, one by one or as all nuisance parameters together, keeps its start value exactly, every bounded parameter stays inside its bounds, and the other parameters are free to reach their optimum. This holds for any combination and order of such settings, also repeated ones, and for all later fits with the same fitter.",
["inputs","histories","configurations"],"all sets and orders of fixed and bounded parameters, both minimizers, repeated fits",
"No test runs a fit.",
[TF+'fitter.py',TF+'minimizer.py'],[("do_fit, set_parameter_fixed, set_parameter_bounds, fix_nui_params",TF+'fitter.py'),("set_param_fixed, set_param_bounds, minimize, _create_constraints",TF+'minimizer.py')],
[("fit settings","fixed and bounded parameters",TF+'fitter.py')],["do_fit().params.values"])

p("F02","A fit returns the minimum and describes it consistently",
"A successful fit reports parameter values at which the likelihood has no lower value anywhere nearby that the settings allow, the likelihood value at exactly these parameters, and a covariance that is the inverse of the likelihood's matrix of second derivatives with errors and correlations to match. From Asimov data it recovers the generating parameters, and both minimizers agree. A fit with all nuisance parameters fixed succeeds from any positive start values of the yields. A result that was returned stays what it was, whatever is fitted later.",
["inputs","configurations"],"all models and data with a well-defined minimum, both minimizers, with and without fixed or bounded parameters",
"No test runs a fit.",
[TF+'fitter.py',TF+'minimizer.py'],[("IMinuitMinimizer.minimize, ScipyMinimizer.minimize",TF+'minimizer.py'),("do_fit",TF+'fitter.py')],
[],["do_fit()"])

p("F03","Fits change the model only as requested",
"A fit writes its result into the templates, yields times efficiencies and nuisance parameters, exactly if it was asked to update them; otherwise, and if the fit fails, the model is unchanged. Profile scans and significance calculations never change parameters, data or settings, and a fit never changes data, uncertainties, constraints or efficiencies.",
["histories","fault_sequences"],"all sequences of fits (updating or not, failing or not), profiles, significances and reads",
"No test runs a fit.",
[TF+'fitter.py'],[("do_fit, profile, get_significance",TF+'fitter.py')],
[("parameters","of all templates",T+'abstract_template.py')],["process_yields","nui_params","data_bin_counts"])

p("F04","Profile scans give the conditional minima in scan order",
"A profile scan returns equidistant points from minus to plus the given number of errors around the fitted value, for every point the minimum of the likelihood with the scanned parameter held at that point (by default minus the global minimum), and the parabola given by fitted value and error. Parameters that are fixed or bounded in the fitter stay so at every point, and the result does not depend on the number of worker processes or on the order in which they finish.",
["inputs","schedules","configurations"],"all scanned parameters (name or index), settings, numbers of points and workers, completion orders of the workers",
"No test runs a profile scan.",
[TF+'fitter.py'],[("profile, _profile_helper, _get_hesse_approx",TF+'fitter.py')],
[],["profile()"])

p("F05","Significance is the root of the profile likelihood ratio",
"The significance of a process is the root of twice the difference between the minimum of the likelihood with this process's yield held at zero and its minimum with the yield free, under the fitter's settings in both, and zero if the fitted yield is negative. It is never negative or undefined because of numerical noise, and repeating the calculation gives the same result.",
["inputs","histories","configurations"],"all models, data and settings for which both minima exist, repeated and interleaved with fits",
"No test computes a significance.",
[TF+'fitter.py'],[("get_significance",TF+'fitter.py')],[],["get_significance()"])

p("F06","Parameters are found by name and by index alike",
"Value and error of a fit parameter can be read by its name or by its position with the same result, in the order of the names; an unknown name or a position outside the list is answered with an error rather than with another parameter. Setting values or errors of the wrong number is rejected and changes nothing. What a minimiser itself tells about values, errors, covariance, correlation and minimum is what its last result says.",
["inputs"],"all lists of names, names and indices (also negative, boolean, unknown), all values",
"No test covers parameter look-up.",
[TF+'minimizer.py',TF+'utility.py'],[("Parameters",TF+'minimizer.py'),("id_to_index",TF+'utility.py')],[],["Parameters"])

p("Y01","A toy study yields one result per experiment despite failures",
"After a study of n experiments there are exactly n results, in order, each holding values and uncertainties of a fit to the toy data set drawn for that experiment, with nuisance parameters fixed; an attempt that fails is repeated with a new toy and leaves no trace in the results. If one experiment fails the maximal number of times in a row the study stops with an error; results are then unavailable, as before any study, and a new study starts from scratch.",
["fault_sequences","histories"],"all sequences of failing and succeeding attempts, all numbers of experiments and tries, repeated studies",
"No test runs a toy study.",
[TF+'toy_study.py'],[("do_experiments, _experiment, _reset_state, _check_state",TF+'toy_study.py')],
[("results","parameter values and uncertainties per experiment",TF+'toy_study.py')],["result_parameters","result_uncertainties","get_toy_results"])

p("Y02","Linearity tests scan the requested yields",
"A linearity test visits the requested number of equidistant yields between the given limits; at each one it resets the model, sets the yield of the tested process, generates all toys of the point from exactly that model and reports mean and standard deviation of the fitted yield of that process over the experiments of this point alone.",
["inputs","histories","fault_sequences"],"all processes, limits, numbers of points and experiments, any state of the model before, failing attempts",
"No test runs a linearity test.",
[TF+'toy_study.py'],[("do_linearity_test",TF+'toy_study.py')],[],["do_linearity_test()"])

p("Y03","Toy results and pulls belong to the requested process",
"Results, uncertainties and pulls of a toy study requested for a process are those of that process's yield, one per experiment and in order, and the pull of an experiment is the fitted yield minus the present yield of the process in the model, divided by the fitted uncertainty. Toy fits never change the parameters of the model they are generated from.",
["inputs","configurations"],"all models, orders of processes and numbers of experiments",
"No test runs a toy study.",
[TF+'toy_study.py'],[("get_toy_results, get_toy_result_pulls",TF+'toy_study.py')],[],["get_toy_results","get_toy_result_pulls"])

p("S01","Goodness-of-fit statistics and p-values are correct",
"The Pearson test returns sum (n-nu)^2/nu and the likelihood-ratio test 2 sum (n ln(n/nu) + nu - n), where an empty data bin contributes 2 nu, and the test with given uncertainties u returns sum ((n-nu)/u)^2, each with its ratio to the degrees of freedom and with the probability that a chi-square variable with that many degrees of freedom exceeds it. This holds for any number of bins and degrees of freedom and any agreement between data and expectation.",
["inputs"],"all data, positive expectations and degrees of freedom",
"No test covers the module.",
[TF+'stats.py'],[("pearson_chi2_test, cowan_binned_likelihood_gof, default_chi2_test",TF+'stats.py')],[],["return values"])

p("U01","Matrix and splitting helpers obey their laws",
"Turning a covariance into a correlation matrix divides each element by the roots of its two variances, and turning a correlation matrix back with the standard deviations restores the covariance. What does not vary has no correlation. The stable x ln(y/x) equals its definition and is 0 for vanishing x, element by element, and splitting a sequence into parts of given sizes returns consecutive, non-overlapping parts in order, the rest for an unspecified size and whatever is left where more is asked for.",
["inputs"],"all covariances, all arguments, all sizes",
"No test covers them except through one template.",
[TF+'utility.py'],[("cov2corr, corr2cov, xlogyx, array_split_into",TF+'utility.py')],[],["return values"])

p("P01","Plots show exactly the current model",
"A plot of a template shows its current expectation per bin with a band of plus and minus its current errors; a stacked plot of a channel shows the current expectations of all its templates stacked in order of registration, a band of the combined errors (or of the post-fit uncertainties) around their sum, and the data, if any, with its errors. 2D templates show their cells at the right place and their projections onto x and y, legacy templates and stacks show the same as present templates and channels. Templates are drawn in their colour if they have one (in a stack: if all have one) and labelled with their pretty label or, without one, their name, and axes with the pretty variable or the variable; plotting changes nothing.",
["inputs","histories","configurations"],"all templates and channels in every parameter state, with and without data, colours and labels",
"No test draws a plot.",
[T+'template1d.py',T+'template2d.py',T+'channel.py'],[("plot_on, plot_x_projection_on, plot_y_projection_on",T+'template1d.py, '+T+'template2d.py'),("plot_stacked_on, plot_post_fit_stacked_on",T+'channel.py'),("Template.plot_on, StackedTemplate.plot_on",TF+'templates_legacy.py')],[],["artists on the axes"])

p("L01","Legacy histograms keep exact books",
"The histograms of the legacy module book weighted fills, in one and two dimensions, like the present ones, also over repeated fills, and count entries and give relative errors (errors divided by contents, a small number in place of zero) where they offer that; scaling multiplies contents by the factor and squared errors by its square and leaves entries alone. Edges, mids, widths and limits describe the binning, and projections always reflect all fills made so far. Data and weights count by their numbers, whatever container or number type holds them, the arguments of a fill or construction are neither changed nor kept (writing to them afterwards has no effect), and a rejected fill has no effect.",
["inputs","histories"],"all binnings, data, weights and sequences of fills, scalings and projections",
"No test uses the legacy modules.",
[TF+'histogram_legacy.py'],[("fill, scale, projections",TF+'histogram_legacy.py')],[],["bin_counts","bin_errors_sq","bin_entries","x_projection","y_projection"])

p("L02","Legacy stacked templates and their likelihood are consistent",
"A legacy template expects in each bin its yield times its normalised nuisance-scaled fraction with errors from its accumulated covariance, and nothing in every bin if it has no content; a stack expects the sum of its templates with errors added in quadrature, routes a flat vector of yields and nuisance parameters to the templates in order, restores the original values on reset, and rejects templates with another variable, binning or range, and vectors of any other length, without effect. Its likelihood has the documented Poisson and nuisance terms of the templates and covariances the stack has when it is evaluated (an empty data bin contributes its expectation, and events where a negative number is expected make it infinite), its Asimov data set is its expectation, rounded to whole numbers on request, and its toy data sets are independent Poisson counts around the expectation, reproducible from the seed of numpy. Weights may come from any column of any number type, and arrays passed to a template or stack are neither changed nor kept.",
["inputs","histories"],"all stacks, sequences of parameter changes, resets and added covariances, all data",
"No test uses the legacy modules.",
[TF+'templates_legacy.py',TF+'nll.py'],[("Template, StackedTemplate",TF+'templates_legacy.py'),("StackedTemplateNegLogLikelihood",TF+'nll.py')],[],["values()","errors()","create_nll()(x)"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
