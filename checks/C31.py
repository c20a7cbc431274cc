"""Files written by the plots, figure sizes, and matplotlib's settings before, during and after."""
import os
import tempfile
import xml.etree.ElementTree as ET
from pathlib import Path

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from chainconsumer import Chain, ChainConsumer, PlotConfig
from chainconsumer.plotter import FigSize
from matplotlib.figure import Figure
from PIL import Image

from vlib import figs, gen

ID = "C31"
TITLE = "saving, sizes, rc parameters"
RULE = (
    "Each case makes 1-3 small chains of 1-4 parameters in a scratch directory and calls one plot method: with one or several filenames (strings, paths, relative, existing, odd characters; png, jpg, pdf, svg, ps) at a random dpi, decoding every file and looking for the chain's colour; without one; "
    "with every way of giving a size; or with random font settings of matplotlib and of the plot, comparing its parameters before, during and after. Distinct by method, formats, dpi, size and settings."
)
PRELOAD = ["matplotlib.pyplot", "PIL.Image"]
METHODS = ["plot", "plot_walks", "plot_distributions", "plot_summary"]


def make(ctx, kmax=4, chains=3, bar=0.0):
    rng = ctx.rng
    names = gen.names(rng, int(rng.integers(1, kmax + 1)))
    cc = ChainConsumer()
    nch = int(rng.integers(1, chains + 1))
    colour_param = bool(rng.uniform() < bar)
    post = bool(rng.uniform() < 0.5)
    for i in range(nch):
        n = 400
        df = pd.DataFrame(rng.normal(size=(n, len(names))), columns=names)
        if post:
            df["log_posterior"] = -rng.exponential(size=n)
        kw = dict(color="#ff00aa") if i == 0 else dict(color="#00aa00")
        if colour_param and i == 0:
            df["extra"] = rng.uniform(size=n)
            kw.update(plot_cloud=True, color_param="extra")
        cc.add_chain(Chain(samples=df, name=f"c{i}", bins=10, shade_alpha=0.0, shade=False, linewidth=3.0, zorder=3000 - 100 * i, **kw))
    return cc, names, nch, post, colour_param


def read(path: Path, ext: str):
    """(width, height) in points or pixels, dpi if the format has one, pixels if it has any."""
    raw = path.read_bytes()
    if ext in ("png", "jpg"):
        with Image.open(path) as im:
            assert im.format == {"png": "PNG", "jpg": "JPEG"}[ext], im.format
            im.load()
            px = np.asarray(im.convert("RGBA"))
            return im.size, im.info.get("dpi"), px
    if ext == "pdf":
        assert raw.startswith(b"%PDF") and raw.rstrip().endswith(b"%%EOF"), "not a whole pdf"
        i = raw.index(b"/MediaBox")
        box = [float(v) for v in raw[raw.index(b"[", i) + 1 : raw.index(b"]", i)].split()]
        return (box[2] - box[0], box[3] - box[1]), None, None
    if ext == "svg":
        root = ET.fromstring(raw)
        assert root.tag.endswith("svg"), root.tag
        assert b"#ff00aa" in raw.lower(), "the chain's colour is not in the file"
        return tuple(float(root.get(k).removesuffix("pt")) for k in ("width", "height")), None, None
    if ext == "ps":
        assert raw.startswith(b"%!PS") and b"%%EOF" in raw[-200:], "not a whole ps"
        return None, None, None
    raise KeyError(ext)


def saving(ctx):
    rng = ctx.rng
    method = METHODS[int(rng.integers(4))]
    cc, names, nch, post, _ = make(ctx)
    dpi = int(rng.choice([30, 50, 72, 100, 150]))
    cc.set_plot_config(PlotConfig(dpi=dpi))
    exts = [str(e) for e in rng.choice(["png", "png", "jpg", "pdf", "svg", "ps"], size=int(rng.integers(1, 4)))]
    stems = ["plot", "a b", "é", "x.y", "-dash", "sub/inner"]
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="c31-") as tmp:
        tmp = Path(tmp).resolve()
        (tmp / "sub").mkdir()
        os.chdir(tmp)
        try:
            wanted, given = {}, []
            for e in exts:
                rel = f"{rng.choice(stems)}{len(wanted)}.{e}"
                style = str(rng.choice(["relative", "absolute", "path", "relative path"]))
                given.append({"relative": rel, "absolute": str(tmp / rel), "path": tmp / rel, "relative path": Path(rel)}[style])
                wanted[tmp / rel] = e
            if rng.uniform() < 0.3:
                next(iter(wanted)).write_bytes(b"old")
                ctx.count("a file was there already")
            arg = given[0] if len(given) == 1 and rng.uniform() < 0.7 else given
            ctx.describe(method=method, filename=arg, dpi=dpi, columns=names, chains=nch)
            keep = list(arg) if isinstance(arg, list) else arg
            fig = getattr(cc.plotter, method)(filename=arg)
            ctx.check_that(arg == keep, "the list of filenames was changed")
            ctx.check_that(isinstance(fig, Figure) and len(figs.panels(fig)) > 0, "the figure is not returned")
            found = {p for p in tmp.rglob("*") if p.is_file()}
            ctx.check_that(found == set(wanted), "the files written are not those asked for", got=sorted(str(p.relative_to(tmp)) for p in found), want=sorted(str(p.relative_to(tmp)) for p in wanted))
            inches = fig.get_size_inches()
            fig.canvas.draw()
            box = fig.get_tightbbox(fig.canvas.get_renderer())
            for p, e in wanted.items():
                if p not in found:
                    continue
                try:
                    size, meta, px = read(p, e)
                except Exception as err:  # noqa: BLE001
                    ctx.fail("a file is not a complete image of its format", file=p.name, error=repr(err)[:200])
                    continue
                if px is not None:
                    d = np.array([round(float(v)) for v in meta]) if meta else None
                    if e == "png":
                        ctx.check_that(d is not None and np.all(np.abs(d - dpi) <= 1), "the image is not at the configured dpi", dpi=dpi, got=meta)
                    # whole figure or what is drawn in it, with some padding: at this many pixels per inch
                    got = np.array(size) / dpi
                    hi = np.maximum(inches, [box.width, box.height]) + 0.3
                    lo = np.minimum(inches, [box.width, box.height]) - 0.2
                    ctx.check_that(np.all(got <= hi) and np.all(got >= lo), "the image has not the configured number of pixels per inch", pixels=size, dpi=dpi, inches=(lo, hi))
                    r, g, b = np.moveaxis(px[..., :3].astype(int), 2, 0)
                    near = (r - g > 40) & (b - g > 20) & (r > b)  # pink, blended or compressed as it may be
                    if e == "jpg" and method == "plot_walks":  # compression blurs the hue of single points
                        near = np.abs(px[..., :3].astype(int) - px[0, 0, :3]).sum(axis=2) > 20
                    ctx.check_that(near.sum() >= 8, "the chain is not in the image", method=method, pixels=int(near.sum()), file=p.name)
                elif size is not None:
                    got = np.array(size) / 72
                    hi = np.maximum(inches, [box.width, box.height]) + 0.3
                    lo = np.minimum(inches, [box.width, box.height]) - 0.2
                    ctx.check_that(np.all(got <= hi) and np.all(got >= lo), "the page has not the size of the figure", points=size, inches=(lo, hi))
                ctx.count(f"{e} files")
            before = {p: p.stat().st_mtime_ns for p in found}
            for m in METHODS:
                getattr(cc.plotter, m)()
            ctx.check_that({p: p.stat().st_mtime_ns for p in tmp.rglob("*") if p.is_file()} == before, "a plot without a filename wrote a file")
            ctx.count("plots without a filename", 4)
        finally:
            os.chdir(here)
    ctx.count(f"saved by {method}")
    ctx.distinct("saving", method, tuple(exts), dpi, isinstance(arg, list), tuple(type(g).__name__ for g in given))


def sizes(ctx):
    rng = ctx.rng
    cc, names, nch, post, bar = make(ctx, kmax=5, bar=0.3)
    k = len(names)
    # a colour parameter adds an inch for its bar
    extra = 1.0 if bar else 0.0
    f = float(rng.choice([0.5, 0.75, 1.5, 2.0, round(float(rng.uniform(0.4, 2.2)), 3)]))
    t = (round(float(rng.uniform(3, 14)), 2), round(float(rng.uniform(3, 14)), 2))
    i = int(rng.integers(3, 13))
    ctx.describe(columns=names, factor=f, tuple=t, integer=i, colour_bar=bar, chains=nch)

    def is_size(fig, want, **kw):
        got = fig.get_size_inches()
        ctx.check_that(np.allclose(got, want, rtol=1e-6), "the figure has not the size asked for", got=got, want=want, columns=k, **kw)
        ctx.count("sizes")
        plt.close(fig)

    p = cc.plotter
    grow = lambda s: (3 + 2 * s * k + extra, 3 + 2 * s * k)  # noqa: E731
    cases = [("GROW", FigSize.GROW, grow(1)), ("PAGE", FigSize.PAGE, (10, 10)), ("COLUMN", FigSize.COLUMN, (5 + extra, 5)), ("factor", f, grow(f)), ("integer", i, (i, i)), ("tuple", t, t)]
    for j in rng.choice(len(cases), size=3, replace=False):
        what, arg, want = cases[j]
        is_size(p.plot(figsize=arg, columns=names), want, method="plot", given=what)
    if rng.uniform() < 0.3:
        is_size(p.plot(columns=names), grow(1), method="plot", given="nothing")
    rows = k + 1 + (1 if post else 0)
    is_size(p.plot_walks(columns=names), (8, 0.75 + rows), method="plot_walks", given="nothing")
    arg, want = [(t, t), (f * 6, (f * 6, f * 6)), (i, (i, i))][int(rng.integers(3))]
    is_size(p.plot_walks(figsize=arg, columns=names), want, method="plot_walks", given=arg)
    wrap = int(rng.integers(1, 5))
    cols, lines = min(k, wrap), -(-k // wrap)
    arg, want = [(t, t), (f, (2.5 * f * cols, 2.5 * f * lines)), (2, (5.0 * cols, 5.0 * lines)), (None, (2.5 * cols, 2.5 * lines))][int(rng.integers(4))]
    is_size(p.plot_distributions(figsize=arg, col_wrap=wrap, columns=names), want, method="plot_distributions", given=arg, wrap=wrap)
    one = p.plot_summary(columns=names)
    w1, h1 = one.get_size_inches()
    is_size(p.plot_summary(figsize=f, columns=names), (f * w1, f * h1), method="plot_summary", given=f)
    v = float(rng.uniform(0.7, 2))
    tall = p.plot_summary(columns=names, vertical_spacing_ratio=v).get_size_inches()
    ctx.check_that(abs(tall[0] - w1) <= 1e-9 and (tall[1] - h1) * (v - 1) >= 0 and abs((tall[1] - h1) - nch * (v - 1) * 0.8) <= 1e-6, "vertical_spacing_ratio does not scale the rows", got=tall, plain=(w1, h1), ratio=v)
    wide = p.plot_summary(columns=names, extra_parameter_spacing=3.0).get_size_inches()
    ctx.check_that(abs(wide[1] - h1) <= 1e-9 and wide[0] > w1, "extra_parameter_spacing does not widen the figure", got=wide, plain=(w1, h1))
    ctx.distinct("sizes", k, f, t, i, bar, post, wrap)


def rc(ctx):
    rng = ctx.rng
    fonts = [["sans-serif"], ["serif"], ["monospace"], ["DejaVu Sans", "sans-serif"], ["cursive"]]
    with matplotlib.rc_context():
        mine = fonts[int(rng.integers(len(fonts)))]
        plt.rc("font", family=mine)
        tex = bool(rng.uniform() < 0.3)
        plt.rc("text", usetex=tex)
        plt.rc("axes", linewidth=1.25)
        plt.rc("font", size=float(rng.integers(6, 15)))
        folder = tempfile.mkdtemp()
        cc, names, nch, *_ = make(ctx, kmax=3)
        want = dict(matplotlib.rcParams)
        if rng.uniform() < 0.5:
            # what is in force when the consumer is made is what comes back
            plt.rc("font", family="fantasy")
            now = dict(matplotlib.rcParams)
        else:
            now = want
        serif = [False, True, None][int(rng.integers(3))]
        usetex = [False, None][int(rng.integers(2))] if not tex else False
        calls = [METHODS[j] for j in rng.integers(4, size=int(rng.integers(1, 4)))]
        ctx.describe(font=mine, tex=tex, serif=serif, usetex=usetex, calls=calls)
        cc.set_plot_config(PlotConfig(serif=serif, usetex=usetex))
        ctx.check_that(dict(matplotlib.rcParams) == now, "making a consumer changes matplotlib's parameters")
        for m in calls:
            fig = getattr(cc.plotter, m)(**({} if rng.uniform() < 0.6 else dict(filename=Path(folder) / f"f.{rng.choice(['png', 'svg'])}")))
            family = now["font.family"] if serif is None else ["serif"] if serif else ["sans-serif"]
            ctx.check_that(matplotlib.rcParams["font.family"] == family, "the plot does not use the font asked for", got=matplotlib.rcParams["font.family"], want=family, serif=serif)
            ctx.check_that(matplotlib.rcParams["text.usetex"] == (now["text.usetex"] if usetex is None else usetex), "the plot does not use TeX as asked", usetex=usetex)
            texts = [t for ax in fig.axes for t in [ax.xaxis.label, ax.yaxis.label, *ax.texts] if t.get_text().strip()]
            ctx.check_that(all(t.get_fontfamily() == list(family) for t in texts), "a text is not in the font asked for", got=[t.get_fontfamily() for t in texts if t.get_fontfamily() != list(family)][:2], want=family, method=m)
            ctx.count("texts", len(texts))
            diff = [k for k, v in matplotlib.rcParams.items() if v != now[k] and k not in ("font.family", "text.usetex", "backend")]
            ctx.check_that(not diff, "a plot changes other parameters of matplotlib", changed=diff)
            plt.close(fig)
        cc.plotter.restore_rc_params()
        diff = [k for k, v in matplotlib.rcParams.items() if v != want[k] and k not in ("backend",) and (k in ("font.family", "text.usetex") or v != now[k])]
        ctx.check_that(not diff, "matplotlib's parameters are not those in force when the consumer was made", changed={k: (matplotlib.rcParams[k], want[k]) for k in diff})
        ctx.count("restored")
        ctx.distinct("rc", tuple(mine), tex, serif, usetex, tuple(calls), now is want)


CASES = {"saving": (saving, 80, 1800), "sizes": (sizes, 30, 1200), "rc": (rc, 70, 2500)}
REQUIRED = {"png files": 40, "jpg files": 8, "pdf files": 8, "svg files": 8, "ps files": 8, "sizes": 180, "restored": 60, "texts": 200, **{f"saved by {m}": 8 for m in METHODS}}
