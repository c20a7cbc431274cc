import subprocess, json, pathlib
prop = """C10 C12 C27 C11 C05 C03 C01 C16 C13 C30 C30 C30 C21 C23 C23 C20 C20 C21 C34 C32 C22 C04 C05 C28 C25 C25 C19 C29 C24 C15 C17 C17 C02 C06 C27 C11 C14 C08 C22 C16 C16 C19 C20 C25 C28 C29 C30 C04 C34 C19 C19 C23 C01 C19 C32""".split()
log = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","5e6a4aa..HEAD"],text=True).splitlines()
assert len(log)==len(prop),(len(log),len(prop))
failed = dict([
("take the maximum","get_max_posterior_point took the row labelled with the position of the maximum: the wrong row, or a crash, on any frame whose index is not 0..n-1"),
("return a 1x1","get_covariance of one column gave a scalar, on which tables and correlations crash"),
("shift_params only","shift_params also shifted the weights and the log posterior"),
("divide() does not","the walkers of a chain with shift_params were each centred on their own mean"),
("HDI search","the narrowest interval was compared to an absolute tolerance, so parameters of small range got a wrong interval"),
("find the HDI","the density threshold was searched to an absolute tolerance, so parameters with tiny or huge densities got the wrong area"),
("quantile summaries","summary_area=1 raised an error"),
("allow a percent","a % in a caption or label raised an error"),
("comparison_table","the column specification had a column too few with dic=True"),
("colour alias","the alias 'e' named a colour that does not exist"),
("scale short","scaling a 3-, 4- or 8-digit code returned it without its #"),
("start the default","the 89th chain without a colour raised StopIteration"),
("accept a pandas","Truth(location=Series) was rejected, as documented it is accepted"),
("plot_walks x axis","the x axis ended with the chain drawn last, cutting longer ones off"),
("plot_walks draws","convolve=1 raised an error"),
("plot_summary leaves","plot_summary crashed on a chain without contours"),
("plot_summary scales","the y range of every panel of plot_summary came from another parameter's marginals"),
("plot_distributions draws","plot_distributions drew truths across the wrong axis"),
("plot_distributions uses","plot_distributions ignored the configured labels"),
("plot_distributions copes","plot_distributions crashed on a parameter only clouds or points have"),
("only use the flipped","flip with other than two parameters spoiled the layout"),
("contours do not","with densities below 1e-16 (small weights or large values) empty cells counted as posterior mass in contours"),
("1D KDE resolution","the grid of a kernel density estimate had a number of points that depended on the parameter's value"),
("1D KDEs honour","power was ignored by kernel density summaries and marginals"),
("plot_dist uses","plot_dist took the KDE factor for another argument and did not normalise"),
("KDE contours use","contours ignored the KDE factor"),
("multimodal marginals","shading a multimodal chain with smooth=0 raised an error outside the histogram's range"),
("make_sample is","make_sample with a seed gave different samples each time"),
("an empty var_names","var_names=[] dropped every parameter"),
("format a bound","Bound(0, 0, 0) could not be formatted"),
("blinded parameters","tick labels of blinded parameters showed on logarithmic axes"),
("the colour bar of","the colour bar of a blinded parameter showed its values"),
("the MAX summary","the MAX interval of a posterior cut off at an edge held less than the area asked for"),
("plotting never","plotting with a shift_params override shifted the chain the user holds"),
("shift_params set","shift_params set by the override did not apply to summaries"),
("divide() splits","divide() split by row label on some frames"),
("gelman_rubin","gelman_rubin split the walkers by row label on some frames"),
("infer the colour","color=None gave every such chain the same colour"),
("the legend copes","the legend crashed on a point whose chain has a dashed line"),
("summarise markers","summaries of markers and constant parameters crashed"),
("get_latex_table","get_latex_table crashed or left blanks for a colour parameter asked for as a column"),
("title a multimodal","the title of a multimodal marginal with one peak was another statistic's than its shading"),
("automatic axis","automatic axis ranges left out the lowest cell of a chain's weight"),
("KDE values far","KDE densities far from every sample were cut down to integers (introduced by an earlier repair of this file)"),
("power raises","power was applied to the unsmoothed histogram, so drawn marginals and contours were the power of its noise"),
("make_sample gives","make_sample(num_points=1) raised an error"),
("weights stored","weights stored as small integers (int8 to int32) overflowed in the cells of histograms, so summaries and plots were wrong"),
("every panel of","the panels of plot_distributions shared one tick formatter, which works with the range of the last panel: tick labels of the others could all be zero"),
("titles of parameters","plot and plot_distributions raised an error for a single chain with a parameter whose name or label is not valid inside a formula (log_m_star, 50%), and titled $H_0$ [km/s] with its source"),
("title of plot_dist","drawing an axis titled by plot_dist failed for a parameter with a LaTeX name, and the configured label was not used"),
("thinned walks keep","walks of more than 200 000 steps were numbered after thinning, out of step with shorter chains"),
("summaries and contours keep","one row thousands of spreads away from the others, or more than a fifth of the weight at an extreme value, left the rest of the samples out of summaries and contours, or crashed them"),
("shading copes","plots of unsmoothed marginals raised an error where the summary interval lies outside the centres of the histogram cells"),
("plot_summary of a chain whose name","plot_summary raised an error for a chain with an empty or blank name"),
("a misspelt","'#' followed by anything was taken for a hex code"),
])
out=[l for l in pathlib.Path("/verif/KNOWN_FINDINGS.jsonl").read_text().splitlines() if '"known"' in l]
for p,l in zip(prop,log):
    h,s=l.split(" ",1); s=s.removeprefix("fix: ")
    k=[f for f in failed if s.startswith(f)]
    assert len(k)==1,(s,k)
    out.append(json.dumps(dict(kind="fixed",property=p,commit=h,text=f"fixed: property={p} {h} {failed[k[0]]}")))
pathlib.Path("/verif/KNOWN_FINDINGS.jsonl").write_text("\n".join(out)+"\n")
