From 78cd042d60286fd496371c2f5c4960d797f6017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 01/55] fix: take the maximum posterior row by position, not by
 index label

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 6f560c4..586aab3 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -197,7 +197,7 @@ class Chain(ChainConfig):
             logging.warning("No posterior column found, cannot find max posterior")
             return None
         argmax = self.samples[self.posterior_column].argmax()
-        return self.samples.loc[argmax]  # type: ignore
+        return self.samples.iloc[argmax]  # type: ignore
 
     @property
     def weights(self) -> np.ndarray:
-- 
2.43.0


From d7e3f70ef65fc4b5028b9a5e0c776a4386f9b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 02/55] fix: return a 1x1 covariance matrix when a single
 column is requested

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 586aab3..01cba15 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -379,7 +379,7 @@ class Chain(ChainConfig):
         """
         if columns is None:
             columns = self.data_columns
-        cov = np.cov(self.samples[columns], rowvar=False, aweights=self.weights)
+        cov = np.atleast_2d(np.cov(self.samples[columns], rowvar=False, aweights=self.weights))
         return Named2DMatrix(columns=columns, matrix=cov)
 
     def get_correlation(self, columns: list[str] | None = None) -> Named2DMatrix:
-- 
2.43.0


From 4b1b64707ab2a6d5ccc48d009c1be77ca4998302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 03/55] fix: shift_params only shifts parameters, never the
 weights or log posterior

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 01cba15..f6386a8 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -260,7 +260,7 @@ class Chain(ChainConfig):
 
         # Apply the mean shift if it is set to true
         if self.shift_params:
-            for param in self.samples:
+            for param in self.data_columns:
                 self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
 
         # Check the walkers
-- 
2.43.0


From 742b069fe7ebc0aefdbad4daa7dc1cffd472ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 04/55] fix: divide() does not shift each walker's samples a
 second time

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index f6386a8..3055433 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -347,7 +347,7 @@ class Chain(ChainConfig):
         chains = []
         for i, split in enumerate(splits):
             df = pd.DataFrame(split, columns=self.samples.columns)
-            options = self.model_dump(exclude={"samples", "name", "walkers"})
+            options = self.model_dump(exclude={"samples", "name", "walkers", "shift_params"})
             if "color" in options:
                 options.pop("color")
             chain = Chain(samples=df, name=f"{self.name} Walker {i}", **options)
-- 
2.43.0


From 477f3c2575d9615f4cfd3cca4bb525bda2674c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 05/55] fix: HDI search compares widths relative to the
 parameter's range

---
 src/chainconsumer/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 464e067..0cbdd3f 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -527,6 +527,7 @@ class Analysis:
         x_points = np.concatenate(([xs[0]], xs))
 
         eps = 1e-12
+        width_eps = eps * float(x_points[-1] - x_points[0])
         best_width = float("inf")
         best_lower = float(x_points[0])
         best_upper = float(x_points[-1])
@@ -554,10 +555,10 @@ class Analysis:
             lower = float(x_points[start_idx])
             upper = float(x_points[end_idx])
             width = upper - lower
-            if width <= eps:
+            if width <= width_eps:
                 continue
 
-            if width < best_width - eps:
+            if width < best_width - width_eps:
                 best_width = width
                 best_lower = lower
                 best_upper = upper
-- 
2.43.0


From 27c77deafdbe1d7cef0fee0b19b86060d9c37259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 06/55] fix: find the HDI density threshold to a tolerance
 relative to the peak density

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 0cbdd3f..8e012fc 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -600,7 +600,7 @@ class Analysis:
             bracket=(0.0, float(np.max(density))),
             args=(density, xs, chain.summary_area),
             method="bisect",
-            xtol=5e-4,
+            xtol=1e-6 * float(np.max(density)),
         )
 
         threshold = sol.root
-- 
2.43.0


From ac921e9c73585e913d76b62ac48e3fe292964e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 07/55] fix: quantile summaries accept summary_area=1

---
 src/chainconsumer/analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 8e012fc..c943b07 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -496,14 +496,14 @@ class Analysis:
     def get_parameter_summary_mean(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))(vals)
         bounds[1] = 0.5 * (bounds[0] + bounds[2])
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_cumulative(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))(vals)
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_hdi(self, chain: Chain, column: ColumnName) -> Bound:
@@ -689,7 +689,7 @@ class Analysis:
     def get_parameter_summary_max_central(self, chain, parameter):
         xs, ys, cs = self._get_smoothed_histogram(chain, parameter)
 
-        c_to_x = interp1d(cs, xs)
+        c_to_x = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))
         max_index = ys.argmax()
         x = xs[max_index]
 
-- 
2.43.0


From 02fbff12542ad5e590d2448dd5bd9bc19a792228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 08/55] fix: allow a percent sign in LaTeX table captions and
 labels

---
 src/chainconsumer/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 24d5d3e..9e50fcb 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -131,6 +131,8 @@ def get_grid_bins(data: pd.Series[float]) -> np.ndarray:
 
 
 def get_latex_table_frame(caption: str, label: str) -> str:  # pragma: no cover
+    # The frame is filled in with the % operator, so escape any literal percent signs
+    caption, label = caption.replace("%", "%%"), label.replace("%", "%%")
     base_string = rf"""\begin{{table}}
     \centering
     \caption{{{caption}}}
-- 
2.43.0


From ace165a86173223d180c3264604c1f41049ff07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 09/55] fix: comparison_table column specification counts the
 DIC column

---
 src/chainconsumer/comparisons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/comparisons.py b/src/chainconsumer/comparisons.py
index 70a9ae5..131fdad 100644
--- a/src/chainconsumer/comparisons.py
+++ b/src/chainconsumer/comparisons.py
@@ -179,7 +179,7 @@ class Comparison:
 
         base_string = get_latex_table_frame(caption, label)
         end_text = " \\\\ \n"
-        num_cols = 1 + (1 if aic else 0) + (1 if bic else 0)
+        num_cols = (1 if aic else 0) + (1 if bic else 0) + (1 if dic else 0)
         column_text = "c" * (num_cols + 1)
         center_text = ""
         hline_text = "\\hline\n"
-- 
2.43.0


From 2acf6f13369d0af5a9a056e41a67a88ed841e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 10/55] fix: colour alias 'e' points at a colour that exists

---
 src/chainconsumer/color_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 55d6ec5..f347568 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -48,7 +48,7 @@ class Colors:
             "y": "yellow",
             "a": "amber",
             "p": "purple",
-            "e": "grey",
+            "e": "gray",
             "lg": "lime",
             "lb": "sky",
             "black": "gray",
-- 
2.43.0


From c3fb7cc33136f183e12a8e491f25baa715a22458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 11/55] fix: scale short and alpha hex colours instead of
 returning an invalid colour

---
 src/chainconsumer/color_finder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index f347568..436fecc 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -108,9 +108,9 @@ class Colors:
         return scaled
 
     def scale_colour(self, color: ColorInput, scalefactor: float) -> str:  # pragma: no cover
-        hexx = self.format(color).strip("#")
-        if scalefactor < 0 or len(hexx) != 6:
-            return hexx
+        hexx = rgb2hex(self.format(color)).strip("#")
+        if scalefactor < 0:
+            return f"#{hexx}"
         r, g, b = int(hexx[:2], 16), int(hexx[2:4], 16), int(hexx[4:], 16)
         r = self._clamp(int(r * scalefactor))
         g = self._clamp(int(g * scalefactor))
-- 
2.43.0


From 9ec66c1b6fba72984970edc632313f99dc3e7647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 12/55] fix: start the default colour sequence again when it
 runs out

---
 src/chainconsumer/color_finder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 436fecc..102e6ea 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -71,9 +71,10 @@ class Colors:
 
     def next_colour(self) -> Generator[str, None, None]:
         """A generator to return a sequence of colors"""
-        for index in [4, 7, 2, 8, 3, 6, 1, 5]:
-            for color in self.default_colors:
-                yield ALL_COLOURS[color][index]
+        while True:
+            for index in [4, 7, 2, 8, 3, 6, 1, 5]:
+                for color in self.default_colors:
+                    yield ALL_COLOURS[color][index]
 
     def format(self, color: ColorInput | None) -> str:
         if color is None:
-- 
2.43.0


From 05a1defe7a9fee81f9ed0240ca9b81ce899f87e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 13/55] fix: accept a pandas Series as the location of a Truth

---
 src/chainconsumer/truth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/truth.py b/src/chainconsumer/truth.py
index db84b6a..7d5d8cb 100644
--- a/src/chainconsumer/truth.py
+++ b/src/chainconsumer/truth.py
@@ -2,7 +2,7 @@ from typing import Any
 
 import pandas as pd
 from matplotlib.lines import Line2D
-from pydantic import Field, ValidationError, field_validator, model_validator
+from pydantic import Field, field_validator, model_validator
 
 from .base import BetterBase
 from .color_finder import ColorInput
@@ -30,14 +30,14 @@ class Truth(BetterBase):
         default=_DEFAULT_EDGE_WIDTH, description="The truth marker edge width for the contour plots"
     )
 
-    @field_validator("location")
+    @field_validator("location", mode="before")
     @classmethod
     def _ensure_dict(cls, v):
         if isinstance(v, dict):
             return v
         elif isinstance(v, pd.Series):
             return v.to_dict()
-        raise ValidationError("Truth must be a dict or a pandas Series")
+        raise ValueError("Truth must be a dict or a pandas Series")
 
     @model_validator(mode="after")
     def validate_model(self):
-- 
2.43.0


From 21ecf0843145ab5fec58e36f7b2fbcdcc6773e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 14/55] fix: plot_walks x axis spans the longest chain, not the
 last one drawn

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f471865..c2786d4 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1031,7 +1031,7 @@ class Plotter:
             ax.set_ylim(extents)
         assert convolve is None or isinstance(convolve, int), "Convolve must be an integer pixel window width"
         x = np.arange(data.size)
-        ax.set_xlim(0, x[-1])
+        ax.set_xlim(0, max(x[-1], ax.get_xlim()[1]))
         ax.set_ylabel(self.config.get_label(column))
         if color is None:
             color = "#0345A1"
-- 
2.43.0


From e9646a484b764b7b41460219192d9af925cbc569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 15/55] fix: plot_walks draws the convolved walk for a window
 of one step

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index c2786d4..b4726b3 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1048,7 +1048,7 @@ class Plotter:
             color2 = colors.scale_colour(color, 0.5)
             filt = np.ones(convolve) / convolve
             filtered = np.convolve(data, filt, mode="same")
-            ax.plot(x[trim:-trim], filtered[trim:-trim], color=color2, alpha=1)
+            ax.plot(x[trim : x.size - trim], filtered[trim : x.size - trim], color=color2, alpha=1)
 
     def _plot_walk_truth(self, ax: Axes, truth: Truth, col: str) -> None:
         ax.axhline(truth.location[col], **truth._kwargs)
-- 
2.43.0


From 194af63c72ac80ab508c6ab809e5fc70b8f73397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 16/55] fix: plot_summary leaves the row of a chain without
 contours empty instead of crashing

---
 src/chainconsumer/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index b4726b3..e06cfb7 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -654,8 +654,8 @@ class Plotter:
                     if truth_value is not None:
                         ax.axvline(truth_value, **truth._kwargs)
 
-                # Skip if this chain doesn't have the parameter
-                if p not in chain.data_columns:
+                # Skip if this chain doesn't have the parameter, or has no distribution to show
+                if p not in chain.data_columns or not chain.plot_contour:
                     continue
 
                 # Plot the good stuff
-- 
2.43.0


From 995ca2bd6f64d7d4c5aa83685ba85da17ddf9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 17/55] fix: plot_summary scales the y axis of each panel by
 its own parameter

---
 src/chainconsumer/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index e06cfb7..1e4e9aa 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -672,8 +672,8 @@ class Plotter:
                         max_vals[p] = m
 
         for axes_row in axes:
-            for ax, p in zip(axes_row, base.columns, strict=False):
-                if not errorbar:
+            for ax, p in zip(axes_row[1:], base.columns, strict=False):
+                if not errorbar and p in max_vals:
                     ax.set_ylim(0, 1.1 * max_vals[p])
 
         add_watermark(fig, None, fig_size, self.config, size_scale=0.8)
-- 
2.43.0


From c82343e510bd0383487c9c236b68b8c1e494eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 18/55] fix: plot_distributions draws truths on the parameter
 axis

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 1e4e9aa..a9f5dae 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -521,7 +521,7 @@ class Plotter:
                     m = self._plot_bars(ax, p, chain, summary=param_summary)
                     if max_val is None or m > max_val:
                         max_val = m
-            plot_truths(ax, self.parent._truths, py=p)
+            plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(p, fontsize=self.config.label_font_size)
 
-- 
2.43.0


From 1317898eab4412ad61ae6615d0622f6cc493ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 19/55] fix: plot_distributions uses the configured parameter
 labels

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index a9f5dae..1b54ecd 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -523,7 +523,7 @@ class Plotter:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
-            ax.set_xlabel(p, fontsize=self.config.label_font_size)
+            ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
         self._save_fig(fig, filename, dpi=self.config.dpi)
-- 
2.43.0


From 0fae228e704455a79578d00229f1c955753182a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 20/55] fix: plot_distributions copes with a parameter no
 contour chain has

---
 src/chainconsumer/plotter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 1b54ecd..f2deca2 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -512,7 +512,7 @@ class Plotter:
                     ax.xaxis.set_major_formatter(formatter)
             ax.set_xlim(base.extents.get(p) or self._get_parameter_extents(p, base.chains))
 
-            max_val = -np.inf
+            max_val = None
             for chain in base.chains:
                 if not chain.plot_contour:
                     continue
@@ -522,7 +522,8 @@ class Plotter:
                     if max_val is None or m > max_val:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
-            ax.set_ylim(0, 1.1 * max_val)
+            if max_val is not None:
+                ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
-- 
2.43.0


From 16418adfac8c31d652f1bd93de10ab815d789fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 21/55] fix: only use the flipped layout for two parameters
 with histograms

---
 src/chainconsumer/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f2deca2..fad564e 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -769,6 +769,7 @@ class Plotter:
         self, base: PlottingBase, figsize: tuple[float, float]
     ) -> tuple[Figure, np.ndarray, list[ColumnName], list[ColumnName]]:
         n = len(base.columns)
+        flip = n == 2 and self.config.plot_hists and self.config.flip
         if not self.config.plot_hists:
             n -= 1
 
@@ -777,7 +778,7 @@ class Plotter:
             spacing = 1.0 if n < 6 else 0.0
 
         gridspec_kw = {}
-        if n == 2 and self.config.plot_hists and self.config.flip:
+        if flip:
             gridspec_kw = {"width_ratios": [3, 1], "height_ratios": [1, 3]}
 
         fig, axes = plt.subplots(n, n, figsize=figsize, squeeze=False, gridspec_kw=gridspec_kw)
@@ -817,7 +818,7 @@ class Plotter:
                     logy = False
                     if p1 == p2:
                         if p1 in base.log_scales:
-                            if self.config.flip and j == n - 1:
+                            if flip and j == n - 1:
                                 ax.set_yscale("log")
                                 logy = True
                             else:
@@ -830,7 +831,7 @@ class Plotter:
                         if p2 in base.log_scales:
                             ax.set_xscale("log")
                             logx = True
-                    if i != n - 1 or (self.config.flip and j == n - 1):
+                    if i != n - 1 or (flip and j == n - 1):
                         ax.set_xticks([])
                     else:
                         if p2 in base.blind:
@@ -870,7 +871,7 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_yticks([])
-                    if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
+                    if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
 
-- 
2.43.0


From ce0dcdddfa9c57d09dee61cb997a7404cb1799f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 22/55] fix: contours do not depend on the absolute scale of
 the weights

---
 src/chainconsumer/plotting/contours.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 1dabfc4..ea20fd1 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -202,7 +202,7 @@ def plot_contour(ax: Axes, chain: Chain, px: ColumnName, py: ColumnName, config:
     ]
 
     hist, x_centers, y_centers = get_smoothed_histogram2d(chain, px, py)
-    hist[hist == 0] = 1e-16
+    hist[hist == 0] = 1e-16 * hist.max()
     vals = _convert_to_stdev(hist)
 
     if chain.shade and chain.shade_alpha > 0:
-- 
2.43.0


From 179ec17e5e48e7f39a7783684ca722fc49a35c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 23/55] fix: 1D KDE resolution depends on the number of bins,
 not the parameter's value

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index c943b07..95ec683 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -347,7 +347,7 @@ class Analysis:
             use_kde = bool(chain.kde)
 
         if use_kde:
-            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, int(bins.max())))
+            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
-- 
2.43.0


From 6532531930abacfdd9c7d3cc9ebfc9cd86f5a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 24/55] fix: 1D KDEs honour the chain's power

---
 src/chainconsumer/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 95ec683..baec4a9 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -350,6 +350,8 @@ class Analysis:
             kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
+            if chain.power is not None:
+                ys = ys**chain.power
             area = simps(ys, x=kde_xs)
             ys = ys / area
             ys = interp1d(kde_xs, ys, kind="linear")(xs)
-- 
2.43.0


From 516f18dbbca84413a8feac42f6cb0169fab66cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 25/55] fix: plot_dist uses the KDE bandwidth it is given and
 normalises the density

---
 src/chainconsumer/plotting/contours.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index ea20fd1..2c6077e 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -1,6 +1,7 @@
 import numpy as np
 from matplotlib.axes import Axes
 from matplotlib.collections import PathCollection
+from scipy.integrate import simpson as simps
 from scipy.interpolate import interp1d
 from scipy.ndimage import gaussian_filter
 from scipy.stats import norm
@@ -93,11 +94,12 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             from ..kde import MegKDE
 
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, chain.kde)
+            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, factor=chain.kde)
             xs = np.linspace(bins.min(), bins.max(), 1000)
             ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
             if chain.power is not None:
                 ys = ys**chain.power
+            ys = ys / simps(ys, x=xs)
         else:
             # Smoothed histogram
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-- 
2.43.0


From 00881f5f8150d2abeaf89aba25bccf2997fdde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 26/55] fix: KDE contours use the bandwidth they are given

---
 src/chainconsumer/helpers.py |  2 +-
 src/chainconsumer/kde.py     | 32 +++++++++++++++++++-------------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 9e50fcb..c99d466 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -114,7 +114,7 @@ def get_smoothed_histogram2d(
         xx, yy = np.meshgrid(x_centers, y_centers, indexing="ij")
         coords = np.vstack((xx.flatten(), yy.flatten())).T
         data = np.vstack((x, y)).T
-        hist = MegKDE(data, w, chain.kde).evaluate(coords).reshape((nn, nn))
+        hist = MegKDE(data, w, factor=chain.kde).evaluate(coords).reshape((nn, nn))
         if chain.power is not None:
             hist = hist**chain.power
     elif chain.smooth_value:
diff --git a/src/chainconsumer/kde.py b/src/chainconsumer/kde.py
index 9f3caf8..6758a95 100644
--- a/src/chainconsumer/kde.py
+++ b/src/chainconsumer/kde.py
@@ -67,16 +67,22 @@ class MegKDE:
 
         _d = np.dot(data - self.mean, self.A)
 
-        # Get all points within range of kernels
-        neighbors = self.tree.query_ball_point(_d, self.sigma * self.truncation)  # type: ignore
-        out = []
-        for i, n in enumerate(neighbors):
-            if len(n) >= self.nmin:
-                diff = self.d[n, :] - _d[i]
-                distsq = np.sum(diff * diff, axis=1)
-            else:
-                # If too few points get nmin closest
-                dist, n = self.tree.query(_d[i], k=self.nmin)  # noqa: PLW2901 # TODO: I assume this isn't an error
-                distsq = dist * dist
-            out.append(np.sum(self.weights[n] * np.exp(self.sigma_fact * distsq)))
-        return np.array(out)  # * self.scaling
+        # Get all points within range of kernels, a few targets at a time to bound the memory used
+        out = np.empty(len(_d))
+        step = max(1, 5_000_000 // self.num_points)
+        for start in range(0, len(_d), step):
+            targets = _d[start : start + step]
+            pairs = spatial.cKDTree(targets).sparse_distance_matrix(
+                self.tree, self.sigma * self.truncation, output_type="ndarray"
+            )
+            kernels = self.weights[pairs["j"]] * np.exp(self.sigma_fact * pairs["v"] ** 2)
+            sums = np.bincount(pairs["i"], weights=kernels, minlength=len(targets))
+
+            # If too few points get nmin closest
+            few = np.bincount(pairs["i"], minlength=len(targets)) < self.nmin
+            if np.any(few):
+                dist, n = self.tree.query(targets[few], k=self.nmin)
+                dist, n = dist.reshape(-1, self.nmin), n.reshape(-1, self.nmin)
+                sums[few] = np.sum(self.weights[n] * np.exp(self.sigma_fact * dist * dist), axis=1)
+            out[start : start + step] = sums
+        return out  # * self.scaling
-- 
2.43.0


From 66e4ffa1d4e9522f666d65369efdaf899fa85167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 27/55] fix: multimodal marginals without smoothing are shaded
 within the histogram's range

---
 src/chainconsumer/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index fad564e..4ae73f0 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -979,7 +979,8 @@ class Plotter:
                 else:
                     display_bounds = base_bound
                     intervals = [(display_bounds.lower, display_bounds.upper)]
-                    intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
+
+                intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
 
                 for lower, upper_ in intervals:
                     x = np.linspace(lower, upper_, 1000)
-- 
2.43.0


From 31a7b2651dbbdd3c073271627d9c2ec8ade15b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 28/55] fix: make_sample is reproducible for a given seed

---
 src/chainconsumer/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/examples.py b/src/chainconsumer/examples.py
index b299e7d..d10a9ae 100644
--- a/src/chainconsumer/examples.py
+++ b/src/chainconsumer/examples.py
@@ -19,7 +19,7 @@ def make_sample(
     if randomise_mean:
         means += gen.uniform(-1, 1, num_dimensions)
     norm = mv(mean=means, cov=cor)
-    samples = norm.rvs(size=num_points)
+    samples = norm.rvs(size=num_points, random_state=gen)
     # Use the letters of the alphabet as the column names
     columns = [chr(65 + i) for i in range(num_dimensions)]
     return pd.DataFrame(samples, columns=columns).assign(log_posterior=norm.logpdf(samples))
-- 
2.43.0


From d943877caa93f9d2be8258b3e1b48d41f4fcdd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 29/55] fix: an empty var_names keeps all parameters, as
 documented

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 3055433..fa8e6e5 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -500,7 +500,7 @@ def _filter_var_names(var_names: list[str] | None, all_vars: list[str]) -> list[
     Helper function to return the var_names to allows filtering parameters names.
     """
 
-    if var_names is None:
+    if not var_names:
         return all_vars
 
     negations = set([var.startswith("~") for var in var_names])
-- 
2.43.0


From 80816f571f1057d7cc0eb4cb0de100027228f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 30/55] fix: format a bound which is exactly zero

---
 src/chainconsumer/analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index baec4a9..ca4e330 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -452,8 +452,10 @@ class Analysis:
             resolution = np.floor(np.log10(np.abs(lower_error)))
         elif upper_error != 0 and lower_error == 0:
             resolution = np.floor(np.log10(np.abs(upper_error)))
-        else:
+        elif bound.center != 0:
             resolution = np.floor(np.log10(np.abs(bound.center)))
+        else:
+            resolution = 0
         factor = 0
         fmt = "%0.1f"
         r = 1
-- 
2.43.0


From d595030660f20a3ce6c880fa514c75d42517a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 31/55] fix: blinded parameters on a log scale have no tick
 labels

---
 src/chainconsumer/plotter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 4ae73f0..c444f2e 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -391,6 +391,7 @@ class Plotter:
 
                 if p in base.blind:
                     ax.set_yticks([])
+                    ax.set_yticks([], minor=True)
             else:  # noqa: PLR5501
                 if i == 0 and plot_posterior:
                     for chain in base.chains:
@@ -500,6 +501,7 @@ class Plotter:
                 ax.set_xscale("log")
             if p in base.blind:
                 ax.set_xticks([])
+                ax.set_xticks([], minor=True)
             else:
                 if self.config.diagonal_tick_labels:
                     _ = [label.set_rotation(45) for label in ax.get_xticklabels()]
@@ -638,12 +640,13 @@ class Plotter:
                     ax.spines["top"].set_visible(False)
                 if i < (num_chains - 1):
                     ax.spines["bottom"].set_visible(False)
+                if p in base.log_scales:
+                    ax.set_xscale("log")
                 if i < (num_chains - 1) or p in base.blind:
                     ax.set_xticks([])
+                    ax.set_xticks([], minor=True)
                 ax.set_yticks([])
                 ax.set_xlim(base.extents[p])
-                if p in base.log_scales:
-                    ax.set_xscale("log")
 
                 # Put title in
                 if i == 0:
@@ -860,6 +863,7 @@ class Plotter:
                             ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_xticks([])
+                        ax.set_xticks([], minor=True)
                     if display_y_ticks:
                         if self.config.diagonal_tick_labels:
                             _ = [label.set_rotation(45) for label in ax.get_yticklabels()]
@@ -871,6 +875,7 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_yticks([])
+                        ax.set_yticks([], minor=True)
                     if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
-- 
2.43.0


From 795b0109039fa1081112aa47a70c62e8bd821623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 32/55] fix: the colour bar of a blinded parameter has no tick
 labels

---
 src/chainconsumer/plotter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index c444f2e..b9615c6 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -242,6 +242,9 @@ class Plotter:
                 elif label == "posterior":
                     label = "log(Posterior)"
                 cbar.set_label(label, fontsize=self.config.label_font_size)
+                if self.config.blind is True or column in base.blind:
+                    cbar.set_ticks([])
+                    cbar.set_ticks([], minor=True)
                 if cbar.solids is not None:
                     cbar.solids.set(alpha=1)
 
-- 
2.43.0


From 1c3b558b17a0e22f1ea90d77e13e5d2a1f1a49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 33/55] fix: the MAX summary encloses the requested area for
 posteriors cut off at an edge

---
 src/chainconsumer/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index ca4e330..9decb13 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -657,9 +657,9 @@ class Analysis:
         y_start = np.linspace(0, ys[0], n_pad)
         y_end = np.linspace(ys[-1], 0, n_pad)
         xs = np.concatenate((x_start, xs, x_end))
+        # The padding closes off the edges of the distribution, but has no width and so encloses no probability
+        cs = np.concatenate((np.zeros(n_pad), cs, np.ones(n_pad)))
         ys = np.concatenate((y_start, ys, y_end))
-        cs = ys.cumsum()
-        cs = cs / cs.max()
         start_index = ys.argmax()
         max_val = ys[start_index]
         min_val = 0
-- 
2.43.0


From e306db21c61ac230bf27c4d2f8e031aeee07c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:41 +0000
Subject: [PATCH 34/55] fix: plotting never shifts the samples of the stored
 chain

---
 src/chainconsumer/chain.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index fa8e6e5..bcf4d45 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -259,9 +259,7 @@ class Chain(ChainConfig):
             assert np.all(np.isfinite(self.samples[column])), f"Column {column} has NaN or inf in it"
 
         # Apply the mean shift if it is set to true
-        if self.shift_params:
-            for param in self.data_columns:
-                self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
+        self._shift_samples()
 
         # Check the walkers
         assert self.samples.shape[0] % self.walkers == 0, (
@@ -296,6 +294,16 @@ class Chain(ChainConfig):
 
         return self
 
+    def _shift_samples(self) -> None:
+        """Subtract the mean of each parameter if shift_params is set. This uses a new dataframe,
+        as the current one may be shared with the chain this one was copied from."""
+        if not self.shift_params:
+            return
+        samples = self.samples.copy()
+        for param in self.data_columns:
+            samples[param] -= np.average(samples[param], weights=self.weights)  # type: ignore
+        self.samples = samples
+
     def get_data(self, column: str) -> pd.Series[float]:
         """Extracts a single columns from the samples dataframe."""
         return self.samples[column]
-- 
2.43.0


From f054ff09e43809d57b878a2b668c48ad7dc46ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 35/55] fix: shift_params set by the override applies to
 summaries as well as plots

---
 src/chainconsumer/chainconsumer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index a6037e9..85b708c 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -180,6 +180,7 @@ class ChainConsumer:
             # Apply user overrides
             if self._global_chain_override is not None:
                 chain._apply(**self._global_chain_override.get_user_specified_dump())
+                chain._shift_samples()
 
         return final_chains
 
-- 
2.43.0


From f893fc767a3fb0ced091814f9f8c88977a2715b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 36/55] fix: divide() splits by position, whatever the index

---
 src/chainconsumer/chain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index bcf4d45..f4042bb 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -351,10 +351,11 @@ class Chain(ChainConfig):
         assert self.walkers > 1, "Cannot divide a chain with only one walker"
         assert not self.grid, "Cannot divide a grid chain"
 
-        splits = np.split(self.samples, self.walkers)
+        # Split by position, slicing the dataframe itself can go by the index labels
+        splits = np.split(np.arange(len(self.samples)), self.walkers)
         chains = []
         for i, split in enumerate(splits):
-            df = pd.DataFrame(split, columns=self.samples.columns)
+            df = self.samples.iloc[split]
             options = self.model_dump(exclude={"samples", "name", "walkers", "shift_params"})
             if "color" in options:
                 options.pop("color")
-- 
2.43.0


From 9cbd86c2a6dc1277ec4d43d651e242cc27bc07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 37/55] fix: gelman_rubin splits the walkers by position,
 whatever the index

---
 src/chainconsumer/diagnostic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/diagnostic.py b/src/chainconsumer/diagnostic.py
index 9b1b9b1..75f80d5 100644
--- a/src/chainconsumer/diagnostic.py
+++ b/src/chainconsumer/diagnostic.py
@@ -73,7 +73,7 @@ class Diagnostic:
         parameters = chain.data_columns
         name = chain.name
         data = chain.data_samples
-        split_samples = np.split(data, num_walkers)
+        split_samples = np.split(data.to_numpy(), num_walkers)
         assert num_walkers > 1, "Cannot run Gelman-Rubin statistic with only one walker"
         m = 1.0 * len(split_samples)
         n = 1.0 * split_samples[0].shape[0]
-- 
2.43.0


From b3b3ca5bfa3f0fe10787579520e8b6def41f6b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 38/55] fix: infer the colour of a chain given color=None, as
 documented

---
 src/chainconsumer/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index f4042bb..4cc2fd8 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -89,7 +89,8 @@ class ChainConfig(BetterBase):
 
     def _apply_if_not_user_set(self, **kwargs: Any) -> None:
         for key, value in kwargs.items():
-            if key not in self._user_specified:
+            # An explicit None asks for the value to be inferred, just like leaving it out
+            if key not in self._user_specified or getattr(self, key) is None:
                 setattr(self, key, value)
 
     def _apply(self, **kwargs: Any) -> None:
-- 
2.43.0


From b5f128d187716eb8ebdfd01ec817f150ce5ccbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 39/55] fix: the legend copes with a point whose chain has a
 dashed line style

---
 src/chainconsumer/plotter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index b9615c6..22acb3b 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -88,8 +88,7 @@ def get_artists_from_chains(chains: list[Chain]) -> list[Artist]:
                     (0, 1),
                     (0, 0),
                     color=colors.format(chain.color),
-                    ls=chain.linestyle,
-                    lw=0,
+                    ls="none",
                     marker=chain.marker_style,
                     markersize=np.sqrt(chain.marker_size),
                     label="  " + chain.name,
-- 
2.43.0


From aed96067a36bd68d138604c487227d91bf30bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 40/55] fix: summarise markers and constant parameters by their
 value instead of crashing

---
 src/chainconsumer/analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 9decb13..43cfa4b 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -214,7 +214,7 @@ class Analysis:
                 summary = self.get_parameter_summary(chain, p)
                 res[p] = summary
 
-                if chain.multimodal:
+                if chain.multimodal and summary is not None and summary.lower is not None:
                     intervals = self.get_parameter_hdi_intervals(chain, p)
                     # If there is a single interval, we skip
                     if len(intervals) >= 2:
@@ -260,6 +260,10 @@ class Analysis:
         return results
 
     def get_parameter_summary(self, chain: Chain, column: ColumnName) -> Bound | None:
+        data = chain.get_data(column)
+        if data.min() == data.max():
+            # All samples are the same, as for a marker. There is a value, but no interval to find
+            return Bound(lower=None, center=float(data.iloc[0]), upper=None)
         callback = self._summaries[chain.statistics]
         return callback(chain, column)
 
-- 
2.43.0


From 046cb949983aae6b97d444b087ad897fca84b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 41/55] fix: get_latex_table summarises the columns it was
 asked for, a chain's colour parameter included

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 43cfa4b..732adef 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -134,7 +134,7 @@ class Analysis:
         final_columns = [c for c in final_columns if c not in blind]
         num_chains = len(final_chains)
         num_parameters = len(final_columns)
-        fit_values = self.get_summary(chains=final_chains)
+        fit_values = self.get_summary(chains=final_chains, columns=final_columns)
         if label is None:
             label = ""
         if caption is None:
-- 
2.43.0


From 0fc7797ef64aebdc03cc2fbe3e988e3306954413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 42/55] fix: title a multimodal marginal with a single peak
 with the summary it is shaded with

---
 src/chainconsumer/plotter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 22acb3b..eb7c1b9 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -981,6 +981,7 @@ class Plotter:
 
                     # If we get a single interval, fallback to unimodal HDI
                     if len(intervals) < 2:
+                        display_bounds = base_bound
                         intervals = [(base_bound.lower, base_bound.upper)]
 
                 else:
-- 
2.43.0


From 1b62224f7fc958a2bee0f0676d2087583165ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 43/55] fix: automatic axis ranges cover the lowest cell of a
 chain's weight as they do the highest

---
 src/chainconsumer/helpers.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index c99d466..0662b84 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -20,18 +20,24 @@ def get_extents(
     bc = 0.5 * (be[1:] + be[:-1])
     cdf = hist.cumsum()
     cdf = cdf / cdf.max()
-    icdf = (1 - cdf)[::-1]
-    icdf = icdf / icdf.max()
-    cdf = 1 - icdf[::-1]
     threshold = 1e-4 if plot else 1e-5
     if plot and not wide_extents:
         threshold = 0.05
     if tiny:
         threshold = 0.3
-    i1 = np.where(cdf > threshold)[0][0]
-    i2 = np.where(icdf > threshold)[0][0]
-    lower = float(bc[i1])
-    upper = float(bc[-i2])
+    if plot:
+        # Axes show whole cells, from the first to the last which is needed
+        rcdf = hist[::-1].cumsum() / hist.sum()
+        lower = float(be[np.argmax(cdf > threshold)])
+        upper = float(be[-1 - np.argmax(rcdf > threshold)])
+    else:
+        icdf = (1 - cdf)[::-1]
+        icdf = icdf / icdf.max()
+        cdf = 1 - icdf[::-1]
+        i1 = np.where(cdf > threshold)[0][0]
+        i2 = np.where(icdf > threshold)[0][0]
+        lower = float(bc[i1])
+        upper = float(bc[-i2])
     if pad:
         width = upper - lower
         lower -= 0.2 * width
-- 
2.43.0


From 82c0fd98047ad31dcc44729e8c70a5189a3f7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 44/55] fix: KDE values far from every sample are not cut down
 to integers

---
 src/chainconsumer/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/kde.py b/src/chainconsumer/kde.py
index 6758a95..f5a01f4 100644
--- a/src/chainconsumer/kde.py
+++ b/src/chainconsumer/kde.py
@@ -76,7 +76,7 @@ class MegKDE:
                 self.tree, self.sigma * self.truncation, output_type="ndarray"
             )
             kernels = self.weights[pairs["j"]] * np.exp(self.sigma_fact * pairs["v"] ** 2)
-            sums = np.bincount(pairs["i"], weights=kernels, minlength=len(targets))
+            sums = np.bincount(pairs["i"], weights=kernels, minlength=len(targets)).astype(float)
 
             # If too few points get nmin closest
             few = np.bincount(pairs["i"], minlength=len(targets)) < self.nmin
-- 
2.43.0


From 30b15580b9f3cc9d22ef40987fafb3e2619747ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 45/55] fix: power raises the smoothed density, not the noise
 of the bins it is smoothed from

---
 src/chainconsumer/analysis.py          | 4 ++--
 src/chainconsumer/helpers.py           | 8 +++-----
 src/chainconsumer/plotting/contours.py | 2 +-
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 732adef..87ace71 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -340,13 +340,13 @@ class Analysis:
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=pad)
 
         hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
-        if chain.power is not None:
-            hist = hist**chain.power
         edge_centers = 0.5 * (edges[1:] + edges[:-1])
         xs = np.linspace(edge_centers[0], edge_centers[-1], 10000)
 
         if chain.smooth_value:
             hist = gaussian_filter(hist, chain.smooth_value, mode="reflect")
+        if chain.power is not None:
+            hist = hist**chain.power
         if use_kde is None:
             use_kde = bool(chain.kde)
 
diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 0662b84..9184a04 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -107,9 +107,6 @@ def get_smoothed_histogram2d(
         binsy, _ = get_smoothed_bins(smooth, get_bins(chain), y, w)
         hist, x_bins, y_bins = np.histogram2d(x, y, bins=[binsx, binsy], weights=w)
 
-    if chain.power is not None:
-        hist = hist**chain.power
-
     x_centers = 0.5 * (x_bins[:-1] + x_bins[1:])
     y_centers = 0.5 * (y_bins[:-1] + y_bins[1:])
 
@@ -121,11 +118,12 @@ def get_smoothed_histogram2d(
         coords = np.vstack((xx.flatten(), yy.flatten())).T
         data = np.vstack((x, y)).T
         hist = MegKDE(data, w, factor=chain.kde).evaluate(coords).reshape((nn, nn))
-        if chain.power is not None:
-            hist = hist**chain.power
     elif chain.smooth_value:
         hist = gaussian_filter(hist, chain.smooth_value, mode="reflect")
 
+    if chain.power is not None:
+        hist = hist**chain.power
+
     return hist, x_centers, y_centers
 
 
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 2c6077e..fce932f 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -104,9 +104,9 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             # Smoothed histogram
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
             hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
+            hist = gaussian_filter(hist, chain.smooth_value, mode="reflect")
             if chain.power is not None:
                 hist = hist**chain.power
-            hist = gaussian_filter(hist, chain.smooth_value, mode="reflect")
             xs = 0.5 * (edges[:-1] + edges[1:])
             ys = hist
 
-- 
2.43.0


From 563d7a0541971f3c39476d81aeddff4089cc084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 46/55] fix: make_sample gives a frame of one row when asked
 for one point

---
 src/chainconsumer/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/examples.py b/src/chainconsumer/examples.py
index d10a9ae..08ad3c4 100644
--- a/src/chainconsumer/examples.py
+++ b/src/chainconsumer/examples.py
@@ -19,7 +19,7 @@ def make_sample(
     if randomise_mean:
         means += gen.uniform(-1, 1, num_dimensions)
     norm = mv(mean=means, cov=cor)
-    samples = norm.rvs(size=num_points, random_state=gen)
+    samples = norm.rvs(size=num_points, random_state=gen).reshape(num_points, num_dimensions)
     # Use the letters of the alphabet as the column names
     columns = [chr(65 + i) for i in range(num_dimensions)]
     return pd.DataFrame(samples, columns=columns).assign(log_posterior=norm.logpdf(samples))
-- 
2.43.0


From 47ea00240099aef7de3275d5564f99436a760bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 47/55] fix: a misspelt hex code is rejected like any other
 unknown colour

---
 src/chainconsumer/color_finder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 102e6ea..571238d 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -2,7 +2,7 @@ from collections.abc import Generator, Iterable
 
 import matplotlib.pyplot as plt
 import numpy as np
-from matplotlib.colors import rgb2hex
+from matplotlib.colors import is_color_like, rgb2hex
 
 # Colours drawn from tailwind: https://tailwindcss.com/docs/customizing-colors
 
@@ -81,7 +81,7 @@ class Colors:
             return next(iter(self.next_colour()))
         elif isinstance(color, np.ndarray | list):
             color = rgb2hex(color)  # type: ignore
-        if color[0] == "#":
+        if color.startswith("#") and is_color_like(color):
             return color
         elif color in ALL_COLOURS:
             return ALL_COLOURS[color][4]
-- 
2.43.0


From 8c4a812aedbcfc7b1b432907edff1365c4640d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 48/55] fix: weights stored as small integers do not overflow
 in histograms

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 4cc2fd8..7a9f4fc 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -203,7 +203,7 @@ class Chain(ChainConfig):
     @property
     def weights(self) -> np.ndarray:
         """The column of weights in the samples."""
-        return self.samples[self.weight_column].to_numpy()
+        return self.samples[self.weight_column].to_numpy(dtype=float)
 
     @property
     def log_posterior(self) -> np.ndarray | None:
-- 
2.43.0


From 39914a036b7e9e7bafcc11820f9942b9806d2ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 49/55] fix: every panel of plot_distributions has its own tick
 formatter

---
 src/chainconsumer/plotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index eb7c1b9..af5e0df 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -489,9 +489,6 @@ class Plotter:
         fig, axes = plt.subplots(nrows=num_rows, ncols=num_cols, figsize=figsize, squeeze=False)
         fig.subplots_adjust(left=0.1, right=0.95, top=0.95, bottom=0.1, wspace=0.05, hspace=hspace)
 
-        formatter = ScalarFormatter(useOffset=False)
-        formatter.set_powerlimits((-3, 4))
-
         for i, ax in enumerate(axes.flatten()):
             if i >= n:
                 ax.set_axis_off()
@@ -513,6 +510,9 @@ class Plotter:
                     ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                 else:
                     ax.xaxis.set_major_locator(MaxNLocator(self.config.max_ticks, prune="lower"))
+                    # One for each axis: a formatter works with the range of the axis it was last given to
+                    formatter = ScalarFormatter(useOffset=False)
+                    formatter.set_powerlimits((-3, 4))
                     ax.xaxis.set_major_formatter(formatter)
             ax.set_xlim(base.extents.get(p) or self._get_parameter_extents(p, base.chains))
 
-- 
2.43.0


From 2a49cba3974a4b8173b99324fa17e11210bb8bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 50/55] fix: titles of parameters whose label is not valid
 inside a formula

The label was always put inside the formula of the summary, so that plot and
plot_distributions raised for a single chain with a parameter such as
log_m_star or 50%, and showed the source of labels such as '$H_0$ [km/s]'.
---
 src/chainconsumer/plotter.py         | 12 +++---------
 src/chainconsumer/plotting/config.py | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index af5e0df..dcd02da 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1014,16 +1014,10 @@ class Plotter:
                         )
 
                 if summary:
-                    label = self.config.get_label(column)
-                    label_text = label.strip("$") if isinstance(column, str) else None
+                    text = self.parent.analysis.get_parameter_text(display_bounds, wrap=True)
 
-                    title = self.parent.analysis.get_parameter_text(
-                        display_bounds,
-                        wrap=True,
-                        label=label_text,
-                    )
-
-                    if title:
+                    if text:
+                        title = self.config.get_title(column, text)
                         ax.set_title(title, fontsize=self.config.summary_font_size)
 
         return float(ys.max())
diff --git a/src/chainconsumer/plotting/config.py b/src/chainconsumer/plotting/config.py
index fc8faca..cb75a5b 100644
--- a/src/chainconsumer/plotting/config.py
+++ b/src/chainconsumer/plotting/config.py
@@ -1,3 +1,4 @@
+import re
 from typing import Any
 
 from pydantic import Field
@@ -74,3 +75,21 @@ class PlotConfig(BetterBase):
 
     def get_label(self, column: ColumnName) -> str:
         return self.labels.get(column, column)
+
+    def get_title(self, column: ColumnName, text: str) -> str:
+        """The text of a parameter's summary, in dollar signs, with the label of the parameter in front.
+
+        A symbol, such as $x$, x or x_1, becomes a part of the formula. Any other label is kept outside of it,
+        as it need not be valid inside: it may contain several underscores, a unit or a formula of its own."""
+        label = self.get_label(column)
+        symbol = label.strip("$")
+        in_formula = "$" not in symbol and (
+            symbol != label
+            or "\\" in label
+            or re.fullmatch(r"[^\s$%#&{}_^]+([_^][^\s$%#&{}_^]+)?", label) is not None
+        )
+        if not symbol:
+            return text
+        if "\n" in text:
+            return f"${symbol}$\n{text}" if in_formula else f"{label}\n{text}"
+        return f"${symbol} = {text.removeprefix('$')}" if in_formula else f"{label} = {text}"
-- 
2.43.0


From 1486e9c094c6b73957ed0acad5dd2a22edb14cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:43 +0000
Subject: [PATCH 51/55] fix: title of plot_dist for parameters with a LaTeX
 name

The name was put between dollar signs though it had some of its own, so that
drawing the figure failed, and the configured label was not used.
---
 src/chainconsumer/plotting/contours.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index fce932f..84f8622 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -173,11 +173,9 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
 
         # Add parameter summary text above the plot if requested
         if summary and fit_values is not None:
-            parameter_text = analysis.get_parameter_text(fit_values, wrap=False)
+            parameter_text = analysis.get_parameter_text(fit_values, wrap=True) or f"${fit_values.center}$"
 
-            text = rf"${px} = {parameter_text}$" if parameter_text else rf"${px} = {fit_values.center}$"
-
-            ax.set_title(text, fontsize=config.summary_font_size, pad=10)
+            ax.set_title(config.get_title(px, parameter_text), fontsize=config.summary_font_size, pad=10)
 
 
 def plot_contour(ax: Axes, chain: Chain, px: ColumnName, py: ColumnName, config: PlotConfig | None = None) -> None:
-- 
2.43.0


From 30e01358af76c26b4706b4aaed9206948a433516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 52/55] fix: thinned walks keep their step numbers

The points of a walk of more than 200000 steps were numbered after thinning,
so that they were out of step with shorter chains and with the step index.
---
 src/chainconsumer/plotter.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index dcd02da..27ea25c 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -367,7 +367,6 @@ class Plotter:
             fig_size = figsize
 
         fig, axes = plt.subplots(figsize=fig_size, nrows=n + extra, squeeze=False, sharex=True)
-        max_points = 100000
         for i, axes_row in enumerate(axes):
             ax = axes_row[0]
             if i >= extra:
@@ -375,8 +374,6 @@ class Plotter:
                 for chain in base.chains:
                     if p in chain.data_columns:
                         chain_row = chain.get_data(p)
-                        if len(chain_row) > max_points:
-                            chain_row = chain_row[:: int(len(chain_row) / max_points)]
                         log = p in base.log_scales
                         self._plot_walk(
                             ax,
@@ -399,9 +396,6 @@ class Plotter:
                     for chain in base.chains:
                         if chain.log_posterior is not None:
                             posterior = chain.log_posterior - chain.log_posterior.max()
-                            if len(posterior) > max_points:
-                                posterior = posterior[:: int(len(posterior) / max_points)]
-
                             self._plot_walk(
                                 ax,
                                 r"$\log(P)$",
@@ -415,8 +409,6 @@ class Plotter:
                     for chain in base.chains:
                         if chain.weights is not None:
                             weights = chain.weights
-                            if len(weights) > max_points:
-                                weights = weights[:: int(len(weights) / max_points)]
                             self._plot_walk(
                                 ax,
                                 label,
@@ -1040,7 +1032,10 @@ class Plotter:
         ax.set_ylabel(self.config.get_label(column))
         if color is None:
             color = "#0345A1"
-        ax.scatter(x, data, c=color, s=2, marker=".", edgecolors="none", alpha=0.5)
+        # Long walks are thinned, with each point left at its own step
+        max_points = 100000
+        thin = max(1, int(data.size / max_points))
+        ax.scatter(x[::thin], data[::thin], c=color, s=2, marker=".", edgecolors="none", alpha=0.5)
         max_ticks = self.config.max_ticks
         if log_scale:
             ax.set_yscale("log")
@@ -1053,7 +1048,7 @@ class Plotter:
             color2 = colors.scale_colour(color, 0.5)
             filt = np.ones(convolve) / convolve
             filtered = np.convolve(data, filt, mode="same")
-            ax.plot(x[trim : x.size - trim], filtered[trim : x.size - trim], color=color2, alpha=1)
+            ax.plot(x[trim : x.size - trim : thin], filtered[trim : x.size - trim : thin], color=color2, alpha=1)
 
     def _plot_walk_truth(self, ax: Axes, truth: Truth, col: str) -> None:
         ax.axhline(truth.location[col], **truth._kwargs)
-- 
2.43.0


From a52101ef4b396e1859f2dd264254339099cdfe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:41 +0000
Subject: [PATCH 53/55] fix: summaries and contours keep a large share of the
 weight in the outermost cell

---
 src/chainconsumer/helpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 9184a04..095ef34 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -36,8 +36,12 @@ def get_extents(
         cdf = 1 - icdf[::-1]
         i1 = np.where(cdf > threshold)[0][0]
         i2 = np.where(icdf > threshold)[0][0]
-        lower = float(bc[i1])
-        upper = float(bc[-i2])
+        # A cell with this much of the weight is where the distribution is, not its tail, so all of it is needed
+        heavy = hist > 0.2 * hist.sum()
+        if heavy[0]:
+            i1 = 0
+        lower = float(be[i1] if heavy[i1] else bc[i1])
+        upper = float(be[be.size - i2] if heavy[-i2] else bc[-i2])
     if pad:
         width = upper - lower
         lower -= 0.2 * width
-- 
2.43.0


From 491c15042ef4b9a40b842f4d4211ae56709af778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:21 +0000
Subject: [PATCH 54/55] fix: shading copes with an interval outside the centres
 of the drawn histogram

---
 src/chainconsumer/plotter.py           | 2 +-
 src/chainconsumer/plotting/contours.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 27ea25c..df1804e 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -980,7 +980,7 @@ class Plotter:
                     display_bounds = base_bound
                     intervals = [(display_bounds.lower, display_bounds.upper)]
 
-                intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
+                intervals = [tuple(np.clip(interval, xs.min(), xs.max())) for interval in intervals]
 
                 for lower, upper_ in intervals:
                     x = np.linspace(lower, upper_, 1000)
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 84f8622..af82564 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -154,8 +154,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             if lower is not None and upper is not None:
                 interp_type = "linear" if chain.smooth_value else "nearest"
                 interpolator = interp1d(xs, ys, kind=interp_type)
-                lower = max(lower, xs.min())
-                upper = min(upper, xs.max())
+                lower, upper = np.clip((lower, upper), xs.min(), xs.max())
                 x = np.linspace(lower, upper, 1000)
 
                 # Use shade_gradient to control the opacity of the confidence interval shading
-- 
2.43.0


From b0de992a24f26c901b702b72a8076dff050a4db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:50 +0000
Subject: [PATCH 55/55] fix: plot_summary of a chain whose name is blank

---
 src/chainconsumer/plotter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index df1804e..7b601d8 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -682,7 +682,11 @@ class Plotter:
     def _get_size_of_texts(self, texts: list[str]) -> float:  # pragma: no cover
         usetex = self.config.usetex
         size = self.config.label_font_size
-        widths = [TextPath((0, 0), text, usetex=usetex, size=size).get_extents().width for text in texts]  # type: ignore
+        # matplotlib cannot make a path of a text with nothing to draw
+        widths = [
+            TextPath((0, 0), text, usetex=usetex, size=size).get_extents().width if text.strip() else 0.0  # type: ignore
+            for text in texts
+        ]
         return max(widths)
 
     def _sanitise_columns(self, columns: list[ColumnName] | None, chains: list[Chain]) -> list[ColumnName]:
-- 
2.43.0

