"""The single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parents[1]
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, technique, note, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(
        dict(
            id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=tests,
            anchors={
                "files": [f"src/chainconsumer/{f}" for f in files],
                "mechanism": [{"name": n, "where": f"src/chainconsumer/{w}"} for n, w in mechanism],
                **({"observe_at": observe} if observe else {}),
                **({"state": state} if state else {}),
                "hook_needed": None,
            },
            technique=technique, note=note,
        )
    )


I, H, C, G = "inputs", "histories", "configurations", "programs"

prop("C01", "Quantile summaries are the weighted quantiles of the samples",
  "For the CUMULATIVE, MEAN and MAX_CENTRAL statistics the lower and upper value of a parameter's summary are the values below which (1-area)/2 and (1+area)/2 of the chain's weighted samples of that parameter lie, up to the resolution set by bins, smooth and kde. The central value is the weighted median for CUMULATIVE, the midpoint of the two for MEAN, and where the marginal density peaks for MAX_CENTRAL. A larger area never gives an interval that fails to contain the one for a smaller area.",
  [I, C], "every chain (any distribution, weights, row labels, magnitude), every area in (0, 1], every bins/smooth/kde setting",
  "The tests summarise a handful of Gaussian and skewed samples of one size and unit weights with the default settings; the guarantee is over all weighted samples and settings.",
  ["analysis.py", "helpers.py"], [("_get_smoothed_histogram, get_parameter_summary_mean/_cumulative/_max_central", "analysis.py"), ("get_extents, get_smoothed_bins", "helpers.py")],
  "runtime monitor: each summary judged against the empirical weighted CDF of the samples (reference oracle)", "Held on the generated chains only. Tolerances follow the blur the documented settings allow.", ["ChainConsumer.analysis.get_summary", "get_parameter_summary"])

prop("C02", "MAX summaries: the mode with the equal-density interval that holds the area",
  "With the MAX statistic (the default) a parameter's central value is where its weighted marginal density peaks. The lower and upper value surround it, lie at equal density (or at the edge of a distribution that is cut off there) and hold the requested area of the weighted samples; if no such interval is found both are None and only the centre is given. A well-sampled single-peaked parameter always gets its interval.",
  [I, C], "every chain and parameter, including cut-off and multi-peaked distributions, all weights, row labels, magnitudes, areas and bins/smooth/kde settings",
  "The tests compare a few fixed-seed Gaussian samples with hard-coded numbers.",
  ["analysis.py"], [("get_parameter_summary_max (bisection for the level)", "analysis.py")],
  "runtime monitor: mode, iso-density and enclosed mass judged against a reference density of the same samples", "Held on the generated chains only.", ["ChainConsumer.analysis.get_summary"])

prop("C03", "HDI summaries: narrowest interval, and one band per separated peak",
  "With the HDI statistic a parameter's summary is the narrowest interval that holds the requested area of the weighted samples, with its centre halving the mass in it. For a chain marked multimodal, well separated peaks give one band each: disjoint, in increasing order, together holding the requested area, no point outside denser than a point inside, each centred on its own density peak. A multimodal chain with a single peak gives a single interval.",
  [I, C], "every chain, mixture, weights, row labels, magnitude, area and bins/smooth setting",
  "The tests look at one bimodal sample with unit scale; bands and widths depend on scale, weights and mixture.",
  ["analysis.py"], [("get_parameter_summary_hdi, get_parameter_hdi_intervals, get_parameter_multimodal_bounds, _mask_to_intervals", "analysis.py")],
  "runtime monitor: width compared with every sample interval of that mass; bands against the known mixture", "Held on the generated chains only.", ["ChainConsumer.analysis.get_summary"])

prop("C04", "Results depend only on the weighted sample distribution",
  "Multiplying all weights by a positive constant, permuting the rows, relabelling the DataFrame's index, reordering its columns, storing integer weights in a smaller numeric type, or replacing integer weights by repeated rows changes no summary, covariance, correlation, information criterion, maximum posterior, axis range, drawn marginal or drawn contour (repeated rows: up to finite-sample terms and, for KDE, the bandwidth's dependence on the number of rows).",
  [I], "every chain, every positive factor, permutation and relabelling",
  "A metamorphic relation between pairs of runs over all inputs: no test runs the same chain twice in different guises.",
  ["analysis.py", "chain.py", "helpers.py", "plotting/contours.py", "comparisons.py"], [("weights threaded through histograms, covariance and criteria", "helpers.py, analysis.py, chain.py")],
  "runtime metamorphic monitor over pairs of executions", "Compares outputs of two executions; a bug that breaks both the same way is left to the reference oracles.", ["get_summary", "get_covariance", "Comparison.dic", "plot"])

prop("C05", "Results follow a change of units",
  "Rescaling and shifting a parameter (x to a*x+b, a nonzero) rescales and shifts its summary values, bands, axis range and drawn curves and contours in the same way, multiplies its covariances with other parameters by a (its variance by a squared), leaves correlations unchanged up to the sign of a, and changes nothing about the other parameters. This holds for every statistic, with and without KDE, at any magnitude.",
  [I, C], "every chain, a in 1e-20..1e20 (both signs), b up to 1e6 times the spread",
  "Tests use parameters of order one; constants with absolute tolerance hide there.",
  ["analysis.py", "helpers.py", "kde.py"], [("bin edges and searches relative to the data's range", "helpers.py, analysis.py")],
  "runtime metamorphic monitor over pairs of executions", "As for C04.", ["get_summary", "get_covariance", "plot"])

prop("C06", "Analysing and plotting never change what the user gave, and leave no trace",
  "No analysis, comparison, diagnostic, table or plot call changes the user's DataFrame, the stored chains (samples and settings), truths, override or plot config, nor any list or dict passed in; a chain keeps its own copy of the samples. The result of a call depends only on the chains, override and config in force: it is the same after any sequence of other calls, and a chain's own results are the same whichever other chains are present.",
  [H, I], "every sequence of public calls on every set of chains",
  "Needs histories of calls; tests build a fresh object for a single call.",
  ["chain.py", "chainconsumer.py", "plotter.py", "analysis.py"], [("_copy_df; _get_final_chains copies before overriding", "chain.py, chainconsumer.py")],
  "runtime monitor: snapshots around every call of random call histories, results compared with a fresh replica", "Held on the generated histories.", ["ChainConsumer", "Plotter", "Analysis"])

prop("C07", "Chain accepts every valid sample set and rejects every invalid one",
  "Constructing a chain fails if any column holds a NaN or infinity, a weight is not positive, the frame is empty, a column name is not a string, the walkers do not divide the rows, a renamed weight column or a colour parameter is missing, an option is out of its range, or it is multimodal with a statistic other than HDI; otherwise it succeeds. On success weights default to one, the weight and posterior columns (and the reserved weight/posterior names) are not parameters, every other column is one, in order, and the default statistic is MAX, or HDI if multimodal.",
  [I, C], "every DataFrame and combination of options, with a single fault at any row of any column",
  "Tests place one NaN in one place; the guarantee is for every position, kind of fault and option.",
  ["chain.py"], [("_validate_model, field constraints, data_columns", "chain.py")],
  "runtime monitor: fault-injected constructions judged by a reference predicate", "Held on the generated frames.", ["Chain(...)"])

prop("C08", "Settings resolve as: override, then the user's own, then automatic",
  "When chains are plotted or summarised, a field set in the global override applies to every chain, otherwise a field the user set on the chain applies, otherwise the automatic value. Automatic colours are given in chain order, distinct for up to 88 chains; filled contours and shaded marginals are on for fewer than five chains drawn with contours; fill opacity is one over the square root of their number, halved for a chain that shows contour labels. Nothing else changes, and the chains given by the user keep their settings.",
  [C, H], "every subset of user-set fields, override fields and numbers of chains",
  "Combinations of sources for every field; tests look at a few fields one at a time.",
  ["chainconsumer.py", "chain.py", "base.py", "color_finder.py"], [("_get_final_chains, _apply_if_not_user_set, get_user_specified_dump", "chainconsumer.py, chain.py, base.py")],
  "runtime monitor: what is drawn and summarised compared with a reference resolution of settings", "Observed on the drawn artists and summaries of generated configurations.", ["plot", "get_summary"])

prop("C09", "The set of chains follows every history of additions and removals",
  "After any history of adding and removing chains and markers, get_names lists exactly the names present in the order they were added, get_chain returns the very chain added under that name, tables, comparisons, summaries and legends cover exactly those chains in that order, adding a name already present or removing or getting an unknown one fails and changes nothing, and every mutating call returns the consumer itself. A removed name can be added again, with other data.",
  [H], "every history of add_chain, add_marker, remove_chain (by name or chain), get_chain, set_override, set_plot_config",
  "Tests run one or two steps; the guarantee is over histories, including failed calls in between.",
  ["chainconsumer.py"], [("_chains dictionary; add_chain, remove_chain, get_chain, add_marker", "chainconsumer.py")],
  "runtime monitor: random histories checked step by step against an ordered-dictionary model", "Held on the generated histories.", ["ChainConsumer"])

prop("C10", "The maximum posterior is the row with the highest log posterior",
  "The maximum posterior point of a chain is the parameter values of the row whose log posterior is highest, together with that log posterior, whatever the frame's index, row order, name of the posterior column, weights or power; without a posterior column there is none and the chain is left out of get_max_posteriors. A chain or marker drawn as a point is drawn at exactly that position in every panel that shows two of its parameters.",
  [I, C], "every chain and index (sliced, shuffled, concatenated, string or duplicate labels)",
  "Tests use a default index, where labels and positions agree.",
  ["chain.py", "plotting/contours.py", "analysis.py"], [("max_posterior_row, get_max_posterior_point; plot_point", "chain.py, plotting/contours.py")],
  "runtime monitor: reference argmax over the raw arrays, and observation of drawn points", "Held on the generated chains.", ["get_max_posterior_point", "get_max_posteriors", "plot"])

prop("C11", "Dividing a chain by walkers partitions its rows",
  "divide() gives one chain per walker, named '<name> Walker <i>' from 0, holding the i-th of equal consecutive blocks of rows in order, with every column (weights and posterior included) unchanged, so their concatenation is the original. Other settings carry over except colour and walkers, and dividing a single-walker or grid chain fails; the pieces can be added, summarised and plotted like any other chain.",
  [I, C], "every chain, index, number of walkers and settings",
  "Tests look at one Gaussian chain with a default index.",
  ["chain.py"], [("divide", "chain.py")],
  "runtime monitor: reference partition of the raw rows", "Held on the generated chains.", ["Chain.divide"])

prop("C12", "Covariance and correlation are those of the weighted samples",
  "get_covariance gives the weighted covariance matrix (unbiased for importance weights, as numpy.cov with aweights) of the requested columns in the requested order, get_correlation the same scaled to unit diagonal; both are symmetric, positive semi-definite, and never include weight or posterior columns by default. The LaTeX tables show the same numbers to two decimals, with the columns' labels on rows and header.",
  [I, C], "every chain, weights and choice of columns (one, some, all, any order)",
  "Tests use two or three columns with unit weights.",
  ["chain.py", "analysis.py"], [("get_covariance, get_correlation; _get_2d_latex_table", "chain.py, analysis.py")],
  "runtime monitor: direct weighted sums as reference, parsed tables", "Held on the generated chains.", ["get_covariance", "get_correlation", "get_covariance_table", "get_correlation_table"])

prop("C13", "AIC, BIC and DIC follow their definitions and the table reports them",
  "For the chains that carry the needed inputs (posterior; also data points and free parameters for AIC and BIC) and only those, aic() is AICc, bic() is k ln N - 2 ln P at the highest posterior, and dic() is 2<D> - D at the sample nearest the weighted mean (<D> the weighted mean deviance), each relative to the lowest, which is zero. comparison_table has a column for each requested criterion and a row for each chain that has any of them, sorted as asked, with the same numbers to one decimal.",
  [I, C], "every set of chains with any subset of the inputs, any weights, log posteriors, k and N, any table options",
  "Tests use constant posteriors and unit weights.",
  ["comparisons.py"], [("dic, bic, aic, comparison_table", "comparisons.py")],
  "runtime monitor: reference implementation from the documented formulas, parsed tables", "Held on the generated sets of chains.", ["Comparison"])

prop("C14", "Convergence diagnostics give the documented verdict for every chain",
  "gelman_rubin passes a chain exactly when the Gelman-Rubin ratio of its walkers' consecutive blocks deviates from one by less than the threshold for every parameter; geweke passes exactly when the z-scores of each walker's start against its end are consistent with normality at the threshold. Given several chains (by name, as chains, or all of them) each gets its own verdict and the overall one is their conjunction; one walker is rejected for Gelman-Rubin.",
  [I, C], "every chain with walkers, thresholds, fractions, row labels and selections of chains",
  "Tests use one converged and one diverged chain far from the threshold.",
  ["diagnostic.py"], [("gelman_rubin, geweke, _sanitise_chains", "diagnostic.py")],
  "runtime monitor: reference statistics; verdicts judged away from the threshold", "The documented ratio and the one computed differ by B/(nm); only cases where both give the same verdict are judged.", ["Diagnostic"])

prop("C15", "Parameter text states the value and errors to two significant figures",
  "The text of a bound, read back as numbers, gives the centre and the upper and lower errors, each within rounding at the second significant figure of the smaller error (the centre rounded at the same place), with a common power of ten if there is one; equal errors are given once with plus-minus. Missing limits give an empty text; a label, dollar signs and one line per band are added as asked.",
  [I], "every bound: magnitudes 1e-30..1e30, any asymmetry, zero errors, negative and zero centres, one or many bands",
  "Tests list some forty examples; formatting has branches by magnitude of either error.",
  ["analysis.py"], [("get_parameter_text, _format_single_bound", "analysis.py")],
  "runtime monitor: the text is parsed back and compared with the bound", "Held on the generated bounds.", ["Analysis.get_parameter_text"])

prop("C16", "The LaTeX parameter table reports every summary in its cell",
  "get_latex_table has one row per selected chain and one column per selected parameter (or transposed), in order, headed by names and labels; each cell holds the text of that chain's summary of that parameter, or the fill text where the chain lacks it; the column specification matches the number of columns, caption and label appear verbatim, and the file written equals the text returned.",
  [I, C], "every set of chains with overlapping parameters, selection, order, labels, caption and options",
  "Tests compare one or two complete tables.",
  ["analysis.py", "helpers.py"], [("get_latex_table; get_latex_table_frame", "analysis.py, helpers.py")],
  "runtime monitor: the table is parsed and compared cell by cell with get_summary", "Held on the generated tables.", ["Analysis.get_latex_table"])

prop("C17", "A blinded parameter's values never show",
  "In every figure (plot, plot_walks, plot_distributions, plot_summary) no axis or colour bar of a blinded parameter has a tick label, offset or any other text with its values, and no summary of it is written; the parameter table leaves it out. This holds for blinding by list or altogether, with linear or logarithmic scales, flipped or not, and for one or many chains, while unblinded parameters keep their tick labels and summaries.",
  [C, I], "every combination of plot type, blinding, scale, layout and chains",
  "A leak needs a particular combination (log scale, flipped, colour bar); tests never look at tick labels.",
  ["plotter.py", "analysis.py"], [("blind handling in _get_triangle_figure, plot, plot_walks, plot_distributions, plot_summary, get_latex_table", "plotter.py, analysis.py")],
  "runtime monitor: every text artist of the rendered figure is attributed to a parameter", "Observes rendered figures; the shapes themselves are not hidden by design.", ["plot", "plot_walks", "plot_distributions", "plot_summary", "get_latex_table"])

prop("C18", "Contours enclose the probability of their sigma level",
  "The contours drawn for a chain in a panel enclose 68.3%, 95.4%, ... of its weighted samples of the two parameters for one, two, ... sigma (39.3%, 86.5%, ... with two-dimensional sigmas) up to the smoothing and sampling resolution, are nested, have x and y the right way round, and are drawn for exactly the levels in the chain's sigmas. Contour labels, if shown, state the enclosed fraction.",
  [I, C], "every chain, correlation, weights, magnitude, sigmas, and smoothing",
  "Tests check that plotting does not crash.",
  ["plotting/contours.py", "helpers.py"], [("_convert_to_stdev, _get_levels, plot_contour", "plotting/contours.py"), ("get_smoothed_histogram2d", "helpers.py")],
  "runtime monitor: samples counted inside the drawn contour paths", "Held on the generated chains; tolerance from the smoothing and sampling noise.", ["plot", "plot_contour"])

prop("C19", "Drawn marginals are the sample density, shaded and titled as summarised",
  "The curve or histogram drawn for a parameter is the chain's weighted marginal density (unit area, times its relative height), the shaded region spans exactly the summary interval (each band if multimodal) under that curve, and the title of a single summarised chain is the text of its summary. The same holds in plot, plot_distributions, plot_summary and the stand-alone plot_dist (which shades one interval only), and the error bars of plot_summary are the summary itself.",
  [I, C], "every chain, statistic, smoothing, KDE, relative height, flip, and plot type",
  "Tests check that plotting does not crash.",
  ["plotter.py", "plotting/contours.py", "analysis.py"], [("_plot_bars, plot_summary", "plotter.py"), ("plot_dist", "plotting/contours.py")],
  "runtime monitor: drawn curves, fills and titles compared with the empirical distribution and get_summary", "Held on the generated figures.", ["plot", "plot_distributions", "plot_summary", "plot_dist"])

prop("C20", "Axes show the requested range, or the bulk of every chain",
  "In every figure an axis showing a parameter spans exactly the range the user set for it; otherwise the range contains all but a sliver of the weight of every chain shown (all but 5% at each end in plot_summary with error bars; all points of a grid, and the position of every marker), reaches no further than the data, and is the same in every panel showing that parameter. The height axis of a marginal starts at zero and shows the whole of every curve in it, whichever way it is turned.",
  [I, C], "every set of chains, extents, plot type, weights and flip",
  "Tests check that plotting does not crash.",
  ["plotter.py", "helpers.py"], [("_get_custom_extents, _get_parameter_extents, set_xlim/set_ylim", "plotter.py"), ("get_extents", "helpers.py")],
  "runtime monitor: axis limits of the figure compared with the samples and the user's extents", "Held on the generated figures.", ["plot", "plot_walks", "plot_distributions", "plot_summary"])

prop("C21", "Truths are drawn at their values, on the axes of their parameters only",
  "Each truth is drawn in every panel that shows a parameter it gives and in no other: a line at exactly its value on that parameter's axis (vertical on x, horizontal on y), or a marker at both values where it has a marker and gives both, with its own style; a truth given as a pandas Series is the same as a dict. This holds for plot (flipped or not), plot_distributions, plot_summary and plot_walks.",
  [I, C], "every set of truths, parameters, layouts and plot types",
  "Tests check that plotting does not crash.",
  ["plotting/truth.py", "truth.py", "plotter.py"], [("plot_truths", "plotting/truth.py"), ("Truth", "truth.py")],
  "runtime monitor: every line and marker of the figure attributed to a truth, both ways", "Held on the generated figures.", ["plot", "plot_walks", "plot_distributions", "plot_summary"])

prop("C22", "The triangle plot puts every chain in the right panel with its own style",
  "plot draws a lower triangle whose panel in row i, column j shows exactly the selected chains having both parameters (marginals on the diagonal for chains drawn with contours), x from column j and y from row i, in the chain's resolved colour, line style, width and order; outer axes carry the configured labels. The legend, present when asked or when several chains are shown, lists exactly the shown chains that want an entry, in order, in their colours.",
  [I, C], "every set of chains with overlapping parameters, selections, labels and layout options",
  "Tests check that plotting does not crash.",
  ["plotter.py", "plotting/contours.py"], [("plot, _get_triangle_figure, plot_surface, get_artists_from_chains", "plotter.py, plotting/contours.py")],
  "runtime monitor: every artist of the figure attributed to a chain and panel, both ways", "Held on the generated figures.", ["plot"])

prop("C23", "plot_walks shows every step of every chain in order",
  "plot_walks has one panel per selected parameter, after a log posterior panel (if asked and available) and a weight panel (if asked); each shows, for every selected chain that has it, the value against the step number in row order, in the chain's colour: the parameter itself, the log posterior relative to its maximum, the weights or their log10. All steps of all chains lie within the x range, convolve adds their moving average, and walks of more than 200 000 steps are thinned evenly, each point left at its own step.",
  [I, C], "every set of chains of different lengths, indices, weights and options",
  "Tests check that plotting does not crash.",
  ["plotter.py"], [("plot_walks, _plot_walk", "plotter.py")],
  "runtime monitor: plotted points compared with the raw columns", "Chains of up to 1e5 steps; longer ones are thinned by design, which a second monitor checks.", ["plot_walks"])

prop("C24", "Samples from emcee, NumPyro and ArviZ arrive complete, named and in order",
  "A chain made from an emcee sampler, a NumPyro run or ArviZ data with scalar variables holds exactly the draws of the source (after thin and discard for emcee): every draw once, each column under its own variable's name, draws of different variables kept together row by row. var_names keeps the named variables, with ~ leaves them out, and keeps all when empty; a mixture is rejected; further settings are passed on to the chain.",
  [I, C], "every sampler state, shape, thin, discard and list of variable names",
  "Tests check shapes and one list of names.",
  ["chain.py"], [("from_emcee, from_numpyro, from_arviz, _filter_var_names", "chain.py")],
  "runtime monitor: rows compared with the source's raw arrays", "Held on generated samplers and datasets.", ["Chain.from_emcee", "Chain.from_numpyro", "Chain.from_arviz"])

prop("C25", "The KDE is a weighted Gaussian kernel density in the data's own metric",
  "The kernel density estimate at a point is, up to a constant factor, the weighted sum of Gaussian kernels on the samples within the truncation radius (the nmin nearest ones if fewer), distances measured in the metric of the weighted covariance, with bandwidth 2*factor*n^(-1/(4+d)). It is invariant under weight rescaling up to the factor, equivariant under invertible affine maps, and a chain's kde value scales the bandwidth in every curve and contour drawn with it.",
  [I, C], "every training set, dimension 1-4, weights, factor, truncation, nmin and target",
  "The tests compare one Gaussian sample with a loose tolerance.",
  ["kde.py", "analysis.py", "helpers.py", "plotting/contours.py"], [("MegKDE", "kde.py"), ("uses of chain.kde", "analysis.py, helpers.py, plotting/contours.py")],
  "runtime monitor: direct-sum reference, and width of drawn KDE curves against the bandwidth", "Held on the generated data.", ["MegKDE.evaluate", "plot", "plot_dist"])

prop("C26", "Gridded posteriors are summarised and drawn on their own grid",
  "For a chain marked as a grid (one row per grid point, weights proportional to the posterior), the marginal of a parameter is the sum of the weights over the other parameters at each of its grid values, summaries come from that marginal, the drawn histogram has one bin centred on each grid value, axes span the grid, and contours enclose the highest-weight cells. Row order and weight scale do not matter.",
  [I, C], "every regular grid of 1-3 dimensions, posterior shape, row order and weight scale",
  "Tests check one Gaussian grid.",
  ["helpers.py", "analysis.py", "plotter.py"], [("get_grid_bins, get_smoothed_histogram2d", "helpers.py"), ("_get_smoothed_histogram", "analysis.py")],
  "runtime monitor: marginals, summaries and contours compared with sums over the grid", "Held on the generated grids.", ["get_summary", "plot"])

prop("C27", "shift_params centres every parameter and touches nothing else",
  "A chain with shift_params has every parameter shifted by its weighted mean, so that the weighted mean is zero, with weights, log posterior, covariances, interval widths and row order exactly those of the unshifted chain and its summaries those of the unshifted chain minus the mean. The user's DataFrame is not changed.",
  [I, C], "every chain, weights, posterior and column order",
  "No test combines it with weights or a posterior.",
  ["chain.py"], [("_validate_model (shift_params)", "chain.py")],
  "runtime metamorphic monitor: shifted against unshifted chain", "Held on the generated chains.", ["Chain(shift_params=True)", "get_summary"])

prop("C28", "power raises the posterior density",
  "Setting power to p replaces every marginal density used for summaries and drawn curves by its p-th power (renormalised for the purpose of intervals) and every joint density used for contours likewise: for a Gaussian parameter intervals shrink by sqrt(p) about the same centre and contours enclose the region of the p-th power density, while samples, covariance and maximum posterior are unchanged; power 1 is the identity.",
  [I, C], "every chain, p in 0.25..6, statistic, with and without KDE",
  "One test looks at one value.",
  ["analysis.py", "helpers.py", "plotting/contours.py"], [("hist**chain.power", "analysis.py, helpers.py, plotting/contours.py")],
  "runtime metamorphic monitor: powered against plain chain", "Held on the generated chains.", ["get_summary", "plot", "plot_dist"])

prop("C29", "Generated samples have the requested moments and log posterior",
  "Chain.from_covariance gives samples whose mean and covariance are the requested ones up to sampling error, under the given column names in order, with further settings passed on. make_sample gives the requested number of rows and columns named A, B, ..., with unit variances, means 0, 5, 10, ..., a log_posterior equal to the log density of each row, and the same frame for the same seed.",
  [I], "every mean, positive-definite covariance, dimension, seed and number of points",
  "Tests check one case, or only that it runs.",
  ["chain.py", "examples.py"], [("from_covariance", "chain.py"), ("make_sample", "examples.py")],
  "runtime monitor: moment tests with known sampling error", "Statistical with a bound of seven standard errors.", ["Chain.from_covariance", "make_sample"])

prop("C30", "Every colour input resolves to the colour it names",
  "Hex codes are kept, palette names, one-letter aliases and RGB(A) arrays resolve to the six-digit hex code of that colour (opacity dropped), anything else is rejected, by the colour helper and by chains alike. Scaling a colour multiplies each of its channels by the factor, clamped, and gives a valid hex code, so that it is monotonic and leaves the colour unchanged at one; what is drawn for a chain is in its colour or a shade of it; the default sequence never yields an invalid colour and repeats none in its first 88.",
  [I], "every hex code (3, 4, 6, 8 digits), name, alias, RGB array and factor",
  "Tests check a few names.",
  ["color_finder.py", "chain.py"], [("Colors.format, scale_colour, next_colour, get_colormap", "color_finder.py")],
  "runtime monitor: exhaustive over names and aliases, random over codes and factors, matplotlib as the reference parser", "Exhaustive for names and aliases.", ["colors", "Chain(color=...)"])

prop("C31", "Figures are saved as asked, with the size asked, and settings restored",
  "Every plot method given one or several filenames (strings or paths) writes each as a complete image in its format at the configured dpi, and returns the figure; without a filename it writes nothing. The figure has the size asked for (PAGE, COLUMN, GROW, a factor or a tuple), and restore_rc_params brings back the matplotlib font and tex settings in force when the consumer was made.",
  [I, C], "every plot method, format, list of names, figure size and dpi",
  "Tests check that plotting does not crash.",
  ["plotter.py"], [("_save_fig, FigSize.get_size, set_rc_params, restore_rc_params", "plotter.py")],
  "runtime monitor: files decoded, sizes compared, rc parameters snapshotted", "png, pdf, svg and jpg decoded in a scratch directory.", ["plot", "plot_walks", "plot_distributions", "plot_summary"])

prop("C32", "Selecting chains and columns selects exactly those",
  "Given a list of chains (names or chain objects) or columns, every plot, table and summary shows exactly those chains and columns in the given order, whatever order they were added in; without them all chains, and the union of their parameters in order of first appearance. Chains with nothing to draw are left out of plots; the automatic settings, colours included, do not depend on the selection.",
  [I, C], "every subset and order of chains and columns, for every plot and table",
  "Tests select one chain or one column order.",
  ["plotter.py", "analysis.py"], [("_sanitise_chains, _sanitise_columns", "plotter.py")],
  "runtime monitor: panels and rows attributed to chains and columns, against a reference selection", "Held on the generated selections.", ["plot", "plot_walks", "plot_distributions", "plot_summary", "get_summary", "get_latex_table"])

prop("C33", "Clouds show the chain's own samples, with each point's own colour value",
  "Every point of a chain's cloud is one of its rows: x, y and, with a colour parameter, the colour value come from the same row, no row twice, thinned evenly from the first row to no fewer than the requested number and fewer than twice it (all rows if there are fewer). The colour parameter is not a panel of its own when the cloud is drawn, and its colour bar is labelled with it; without one the cloud has the chain's colour.",
  [I, C], "every chain, index, weights, num_cloud, colour parameter (weights and posterior included) and colour map",
  "Tests check that plotting does not crash.",
  ["plotting/contours.py", "chain.py", "plotter.py"], [("plot_cloud; plotting_columns; colour bars in plot", "plotting/contours.py, chain.py, plotter.py")],
  "runtime monitor: plotted triples looked up among the rows", "Held on the generated chains.", ["plot"])

prop("C34", "Labels, tick labels, font sizes and watermark are as configured and truthful",
  "In every figure each panel carries the configured label of its parameter, or the parameter's own name, and every tick label, read with the offset or power of ten written on its axis, states the position of its tick. In plot and plot_distributions labels, tick labels, summaries, contour labels and legend entries have the configured font sizes, tick labels are turned when diagonal labels are asked for and no axis has more than max_ticks of them; panels are spaced as asked, legend options are passed on. A watermark is written exactly once, along the diagonal, with its own text options, and only if configured.",
  [I, C], "every magnitude and offset of the parameters, linear and logarithmic axes, every plot method and text setting",
  "Tests check that plotting does not crash; no test reads a label or a tick.",
  ["plotter.py", "plotting/config.py", "plotting/watermark.py", "plotting/contours.py"], [("_get_triangle_figure, plot, plot_distributions, plot_walks, plot_summary", "plotter.py"), ("add_watermark", "plotting/watermark.py"), ("legend_kwargs_final, watermark_text_kwargs_final, get_label", "plotting/config.py")],
  "runtime monitor: every text of the drawn figure read back and compared with tick positions and settings", "Held on the generated figures. max_ticks of 3 and more.", ["plot", "plot_walks", "plot_distributions", "plot_summary"])

LEVEL = "exploration"
NA = []


def main():
    with open(HERE / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}, ensure_ascii=False) + "\n")
    checks, na = [], list(NA)
    for p in P:
        if (HERE / "checks" / f"{p['id']}.py").exists():
            checks.append(
                dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']}", thorough_cmd=f"bash run.sh {p['id']} --thorough",
                     technique=p["technique"], level=LEVEL, level_note=p["note"])
            )
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    (HERE / "MANIFEST.json").write_text(
        json.dumps(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
                        notes="Pure Python: nothing is compiled. Checks import the library from /repo/src as it stands; no hooks in /repo are needed."), indent=1) + "\n")


main()
