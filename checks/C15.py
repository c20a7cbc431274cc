"""The text of summaries, read back as numbers."""
import numpy as np
from chainconsumer import ChainConsumer
from chainconsumer.analysis import Bound

from vlib import ptext

ID = "C15"
TITLE = "parameter text"
RULE = (
    "Each case formats 60 bounds: errors of 1e-30..1e30 and any ratio (equal, zero, up to 1e6 apart, at and around powers of ten), centres zero, negative or up to 1e12 times the errors; singly, wrapped, "
    "labelled, and as one to four bands. The text is parsed back with exact decimals. Distinct by decade of the smaller error, ratio class and form."
)


def error(rng, decade=None):
    d = rng.uniform(-30, 30) if rng.uniform() < 0.4 else rng.uniform(-5, 5)
    v = 10**d
    r = rng.uniform()
    if r < 0.2:
        v = 10.0 ** int(d) * float(rng.choice([1, 9.95, 9.949, 9.5, 1.05, 0.995, 0.9949, 5, 1.25, 2.5]))
    elif r < 0.3:
        v = round(v, 2) or v
    return float(v)


def make(rng):
    kind = str(rng.choice(["equal", "near", "any", "far", "zero lower", "zero upper", "zero both"], p=[0.2, 0.2, 0.3, 0.12, 0.07, 0.07, 0.04]))
    a = error(rng)
    if kind == "equal":
        b = a
    elif kind == "near":
        b = a * rng.uniform(0.9, 1.1)
    elif kind == "any":
        b = a * 10 ** rng.uniform(-1.5, 1.5)
    elif kind == "far":
        b = a * 10 ** rng.uniform(-6, 6)
    elif kind == "zero lower":
        a, b = 0.0, a
    elif kind == "zero upper":
        b = 0.0
    else:
        a = b = 0.0
    size = max(a, b) or error(rng)
    r = rng.uniform()
    c = 0.0 if r < 0.1 else float(rng.normal() * size * 10 ** (rng.uniform(-3, 3) if r < 0.8 else rng.uniform(3, 10)))
    lo, up = c - a, c + b
    # what the bound itself says after rounding to floating point
    return kind, Bound(lower=lo, center=c, upper=up)


def single(ctx):
    rng = ctx.rng
    an = ChainConsumer().analysis
    for _ in range(60):
        kind, b = make(rng)
        wrap = bool(rng.uniform() < 0.5)
        label = None if rng.uniform() < 0.6 else str(rng.choice(["x", r"\Omega_m", "H_0 [km/s]"]))
        arg = [b] if rng.uniform() < 0.15 else b
        text = an.get_parameter_text(arg, wrap=wrap, label=label) if rng.uniform() < 0.7 else an.get_parameter_text(arg, wrap, label=label)
        bare = text
        if wrap:
            bare = ptext.unwrap(text)
            if not ctx.check_that(bare is not None, "the text is not wrapped in dollar signs", text=text):
                continue
        else:
            ctx.check_that("$" not in text, "dollar signs were not asked for", text=text)
        if label:
            if not ctx.check_that(bare.startswith(f"{label} = "), "the label is not given", text=text, label=label):
                continue
            bare = bare[len(label) + 3 :]
        wrong = ptext.judge(bare, b.lower, b.center, b.upper)
        ctx.check_that(wrong is None, wrong or "", text=text, lower=b.lower, center=b.center, upper=b.upper, errors=[b.center - b.lower, b.upper - b.center])
        d = ptext.parse(bare)
        if d:
            ctx.count("with plus-minus" if d["pm"] else "with two errors")
            ctx.count("with a power of ten" if d["power"] is not None else "without a power of ten")
        ctx.count(f"errors {kind}")
        ctx.distinct(kind, ptext.place(b.center - b.lower, b.upper - b.center, b.center), wrap, label)
    ctx.describe(last=str(b), text=text)


def bands(ctx):
    rng = ctx.rng
    an = ChainConsumer().analysis
    for _ in range(20):
        bs = [make(rng)[1] for _ in range(int(rng.integers(2, 5)))]
        given = [b.model_copy() for b in bs]
        wrap = bool(rng.uniform() < 0.5)
        label = None if rng.uniform() < 0.5 else "x_1"
        text = an.get_parameter_text(bs if rng.uniform() < 0.7 else tuple(bs), wrap=wrap, label=label)
        ctx.check_that(bs == given, "formatting changed the bounds")
        lines = text.split("\n")
        if label:
            ctx.check_that(lines[0] == (f"${label}$" if wrap else label), "the label is not on its own line", text=text)
            lines = lines[1:]
        if not ctx.check_that(len(lines) == len(bs), "there is not one line per band", text=text, bands=len(bs)):
            continue
        for i, (ln, b) in enumerate(zip(lines, bs), 1):
            head = f"I{i}: "
            if not ctx.check_that(ln.startswith(head), "a band is not numbered", line=ln):
                continue
            bare = ln[len(head) :]
            bare = ptext.unwrap(bare) if wrap else bare
            if not ctx.check_that(bare is not None, "a band is not wrapped in dollar signs", line=ln):
                continue
            wrong = ptext.judge(bare, b.lower, b.center, b.upper)
            if wrong == "equal errors are not given once":
                wrong = None  # a band always has both
            ctx.check_that(wrong is None, wrong or "", text=ln, lower=b.lower, center=b.center, upper=b.upper)
            ctx.count("bands")
        ctx.distinct(len(bs), wrap, label, str(ptext.place(bs[0].center - bs[0].lower, bs[0].upper - bs[0].center, bs[0].center)))
    ctx.describe(text=text)


def missing(ctx):
    rng = ctx.rng
    an = ChainConsumer().analysis
    for _ in range(20):
        _, b = make(rng)
        v = [b.lower, b.center, b.upper]
        gone = [i for i in range(3) if rng.uniform() < 0.5] or [int(rng.integers(3))]
        for i in gone:
            v[i] = None
        m = Bound(lower=v[0], center=v[1], upper=v[2])
        text = an.get_parameter_text(m, wrap=bool(rng.uniform() < 0.5), label=None if rng.uniform() < 0.5 else "x")
        ctx.check_that(text == "", "a bound with a missing limit has a text", bound=str(m), text=text)
        ctx.count("missing limits")
        ctx.distinct(tuple(gone))
    ctx.check_that(an.get_parameter_text(None) == "", "no bound has a text")


CASES = {"single": (single, 900, 40000), "bands": (bands, 200, 8000), "missing": (missing, 20, 400)}
REQUIRED = {"with plus-minus": 500, "with two errors": 500, "with a power of ten": 500, "without a power of ten": 500, "bands": 500, "missing limits": 100}
