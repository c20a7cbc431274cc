"""Observers of a rendered figure: which artist shows what, in which panel.

Chains are given zorders 1000, 2000, ... and truths 1000000, 1000010, ..., so every artist names its owner whatever
its colour; cases that are about the colours or the order set their own.
"""
from __future__ import annotations

import re
import numpy as np
from matplotlib.collections import PathCollection, PolyCollection, LineCollection
from matplotlib.colors import to_hex, to_rgba
from matplotlib.contour import ContourSet
from matplotlib.patches import Polygon, StepPatch


def is_colorbar(ax) -> bool:
    return ax.get_label() == "<colorbar>"


def panels(fig) -> dict[tuple[int, int], object]:
    """(row, column) -> axes, from the grid they sit in."""
    out = {}
    for ax in fig.axes:
        if is_colorbar(ax) or ax.get_subplotspec() is None:
            continue
        ss = ax.get_subplotspec()
        out[(ss.rowspan.start, ss.colspan.start)] = ax
    return out


def owner(z: float, n: int) -> int | None:
    """Index of the chain a zorder belongs to, or None."""
    k = int(round(z / 1000.0)) - 1
    return k if 0 <= k < n and abs(z - 1000 * (k + 1)) <= 20 else None


def zorder(k: int) -> int:
    return 1000 * (k + 1)


def hexcol(c) -> str:
    return to_hex(to_rgba(c)[:3])


def curves(ax) -> list[dict]:
    """Drawn marginals: lines and step histograms. x, y as drawn (not turned back if flipped)."""
    out = []
    for ln in ax.lines:
        x, y = (np.asarray(v, float) for v in ln.get_data())
        if len(x) > 2:
            out.append(dict(kind="line", z=ln.get_zorder(), x=x, y=y, color=hexcol(ln.get_color()), ls=ln.get_linestyle(), lw=ln.get_linewidth()))
    for p in ax.patches:
        if isinstance(p, StepPatch):
            v, e, _ = p.get_data()
            x, y = np.repeat(e, 2), np.concatenate(([0], np.repeat(v, 2), [0]))
            if p.orientation == "horizontal":
                x, y = y, x
        elif isinstance(p, Polygon):
            x, y = p.get_xy().T
        else:
            continue
        out.append(dict(kind="step", z=p.get_zorder(), x=np.asarray(x, float), y=np.asarray(y, float), color=hexcol(p.get_edgecolor()), ls=p.get_linestyle(), lw=p.get_linewidth()))
    return out


def fills(ax) -> list[dict]:
    out = []
    for c in ax.collections:
        if isinstance(c, PolyCollection) and not isinstance(c, ContourSet):
            for path in c.get_paths():
                v = path.vertices
                fc = c.get_facecolor()
                out.append(dict(z=c.get_zorder(), x=v[:, 0], y=v[:, 1], color=hexcol(fc[0]) if len(fc) else None, alpha=float(fc[0][3]) if len(fc) else None))
    return out


def contours(ax, filled: bool | None = None) -> list[ContourSet]:
    return [c for c in ax.collections if isinstance(c, ContourSet) and (filled is None or c.filled == filled)]


def scatters(ax) -> list[PathCollection]:
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def errorbars(ax) -> list[dict]:
    out = []
    for c in ax.collections:
        if isinstance(c, LineCollection) and not isinstance(c, ContourSet):
            out.append(dict(segments=[np.asarray(s) for s in c.get_segments()], color=hexcol(c.get_color()[0])))
    return out


def straight(ax) -> list[dict]:
    """Lines across the panel: (axis, value)."""
    out = []
    for ln in ax.lines:
        x, y = (np.asarray(v, float) for v in ln.get_data())
        if len(x) != 2:
            continue
        if x[0] == x[1] and y[0] != y[1]:
            out.append(dict(axis="x", value=float(x[0]), line=ln, span=tuple(y)))
        elif y[0] == y[1] and x[0] != x[1]:
            out.append(dict(axis="y", value=float(y[0]), line=ln, span=tuple(x)))
    return out


def polygons(path) -> list[np.ndarray]:
    """The separate pieces of a path, every vertex kept (Path.to_polygons may simplify in data units)."""
    v = np.asarray(path.vertices, float)
    if path.codes is None:
        return [v] if len(v) else []
    out, cur = [], []
    for p, c in zip(v, path.codes):
        if c == path.MOVETO:
            if len(cur):
                out.append(np.array(cur))
            cur = [p]
        elif c == path.CLOSEPOLY:
            if len(cur):
                cur.append(cur[0])
        elif c == path.LINETO:
            cur.append(p)
    if len(cur):
        out.append(np.array(cur))
    return out


def inside_polys(polys, pts) -> np.ndarray:
    """Even-odd containment of pts in a set of closed polygons."""
    from matplotlib.path import Path

    n = np.zeros(len(pts), int)
    for poly in polys:
        if len(poly) >= 3:
            p = np.asarray(poly, float)
            lo, hi = p.min(axis=0), p.max(axis=0)
            cand = np.all((pts >= lo) & (pts <= hi), axis=1)
            if cand.any():
                idx = np.nonzero(cand)[0]
                n[idx] += Path(np.vstack([p, p[:1]])).contains_points(pts[idx])
    return n % 2 == 1


def scaled(polys, pts):
    """Bring coordinates to order one: containment tests lose precision at extreme magnitudes."""
    lo, hi = pts.min(axis=0), pts.max(axis=0)
    s = np.where(hi > lo, hi - lo, 1.0)
    return [(np.asarray(p, float) - lo) / s for p in polys], (pts - lo) / s


def contour_regions(cs: ContourSet, pts: np.ndarray) -> list[np.ndarray]:
    """For each level of a line contour set: which points lie inside its lines (closing any open line by its chord)."""
    out = []
    for path in cs.get_paths():
        polys = [p for p in polygons(path) if len(p) >= 3]
        ps, q = scaled(polys, pts)
        out.append(inside_polys(ps, q))
    return out


def filled_regions(cs: ContourSet, pts: np.ndarray) -> list[np.ndarray]:
    """For each band of a filled contour set, outermost last: points in this band or a higher one."""
    out, acc = [], np.zeros(len(pts), bool)
    for path in cs.get_paths():
        polys = [p for p in polygons(path) if len(p) >= 3]
        ps, q = scaled(polys, pts)
        acc = acc | inside_polys(ps, q)
        out.append(acc.copy())
    return out


def open_lines(cs: ContourSet) -> bool:
    """Whether any contour line runs into the edge of its grid."""
    for path in cs.get_paths():
        for p in polygons(path):
            if len(p) >= 2 and not np.array_equal(p[0], p[-1]):
                return True
    return False


def curve_area(x, y) -> float:
    return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))


def step_heights(c: dict, flip: bool = False):
    """Bin edges and heights of a step histogram."""
    x, y = (c["y"], c["x"]) if flip else (c["x"], c["y"])
    # vertices: (e0,0) (e0,h0) (e1,h0) (e1,h1) ...
    order = np.arange(len(x))
    e, h = [], []
    for i in order[:-1]:
        if y[i] == y[i + 1] and x[i + 1] != x[i]:
            e.append((min(x[i], x[i + 1]), max(x[i], x[i + 1])))
            h.append(y[i])
    e = np.array(e)
    o = np.argsort(e[:, 0])
    return e[o], np.array(h)[o]


def evaluate(c: dict, v, flip: bool = False):
    """Height of a drawn marginal at positions v."""
    v = np.asarray(v, float)
    if c["kind"] == "line":
        x, y = (c["y"], c["x"]) if flip else (c["x"], c["y"])
        return np.interp(v, x, y, left=0, right=0)
    e, h = step_heights(c, flip)
    i = np.clip(np.searchsorted(e[:, 0], v, side="right") - 1, 0, len(h) - 1)
    return np.where((v >= e[0, 0]) & (v <= e[-1, 1]), h[i], 0.0)


def _arr(v):
    a = np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)
    return (a.shape, a.tobytes())


def fingerprint(fig) -> dict:
    """Everything a figure shows, as comparable values: panel -> kind of artist -> description."""
    out = {"size": tuple(fig.get_size_inches()), "texts": [t.get_text() for t in fig.texts]}
    for i, ax in enumerate(fig.axes):
        d = out[i] = {}
        d["limits"] = (ax.get_xlim(), ax.get_ylim(), ax.get_xscale(), ax.get_yscale())
        d["labels"] = (ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), ax.get_label())
        d["position"] = tuple(np.round(ax.get_position().bounds, 9))
        d["lines"] = [(_arr(ln.get_xdata()), _arr(ln.get_ydata()), hexcol(ln.get_color()), ln.get_linestyle(), ln.get_linewidth(), ln.get_alpha(), ln.get_zorder()) for ln in ax.lines]
        d["patches"] = [(_arr(p.get_path().vertices), tuple(p.get_facecolor()), tuple(p.get_edgecolor()), p.get_zorder()) for p in ax.patches]
        for c in ax.collections:
            c.update_scalarmappable()  # as drawing does: otherwise the colours are only there once the figure was drawn
        d["collections"] = [
            (type(c).__name__, [_arr(p.vertices) for p in c.get_paths()], _arr(c.get_facecolor()), _arr(c.get_edgecolor()),
             _arr(c.get_offsets()), None if c.get_array() is None else _arr(c.get_array()), c.get_alpha() if np.isscalar(c.get_alpha()) else None, c.get_zorder())
            for c in ax.collections
        ]
        d["texts"] = [(t.get_text(), hexcol(t.get_color())) for t in ax.texts]
        leg = ax.get_legend()
        if leg is not None:
            d["legend"] = [(t.get_text(), hexcol(t.get_color())) for t in leg.get_texts()] + [
                (hexcol(h.get_color()), h.get_linestyle(), h.get_linewidth(), str(h.get_marker())) for h in leg.legend_handles]
    return out


def differences(a: dict, b: dict, prefix="") -> list[str]:
    """Where two fingerprints differ."""
    out = []
    for k in sorted(set(a) | set(b), key=str):
        if k not in a or k not in b:
            out.append(f"{prefix}{k} only in one")
        elif isinstance(a[k], dict) and isinstance(b[k], dict):
            out += differences(a[k], b[k], f"{prefix}panel {k} ")
        elif a[k] != b[k]:
            x, y = a[k], b[k]
            out.append(f"{prefix}{k}" + ("" if isinstance(x, list) else f" {str(x)[:80]} / {str(y)[:80]}"))
    return out[:6]


def linestyle(ls) -> str:
    """'-', '--', ':' or '-.' for a style as a name or as a dash pattern."""
    if isinstance(ls, str):
        return {"solid": "-", "dashed": "--", "dotted": ":", "dashdot": "-."}.get(ls, ls)
    dash = ls[1]
    if not dash:
        return "-"
    if len(dash) == 4:
        return "-."
    return "--" if dash[0] > dash[1] else ":"


def split_label(text: str) -> tuple[str, str]:
    """The label of an axis of a triangle and the offset written after it in brackets (a label may have brackets, a unit in them)."""
    m = re.fullmatch(r"(.*?)(?:\s*\[([-+−\d$][^\[\]]*)\])?\s*", text, flags=re.S)
    return m.group(1).strip(), m.group(2) or ""
