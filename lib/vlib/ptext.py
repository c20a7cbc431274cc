"""Reading back the text of a parameter summary."""
from __future__ import annotations

import re
from decimal import Decimal

NUM = r"-?\d+(?:\.\d+)?"
BODY = rf"(?P<c>{NUM})(?:\\pm (?P<e>{NUM})|\^\{{\+(?P<u>{NUM})\}}_\{{-(?P<l>{NUM})\}})"
SINGLE = re.compile(BODY)
SCALED = re.compile(r"\\left\( " + BODY + r" \\right\) \\times 10\^\{(?P<p>-?\d+)\}")


def parse(text: str) -> dict | None:
    """centre, upper, lower (exact decimals), whether the errors are given once, and the last digit's place."""
    t = text.strip().replace("\\pm", "\\pm ").replace("\\pm  ", "\\pm ")
    m = SCALED.fullmatch(t) or SINGLE.fullmatch(t)
    if m is None:
        return None
    g = m.groupdict()
    s = Decimal(10) ** int(g.get("p") or 0)
    pm = g["e"] is not None
    return dict(
        center=Decimal(g["c"]) * s, upper=Decimal(g["e"] if pm else g["u"]) * s, lower=Decimal(g["e"] if pm else g["l"]) * s,
        pm=pm, power=int(g["p"]) if g.get("p") else None,
    )


def unwrap(text: str) -> str | None:
    return text[1:-1] if len(text) > 1 and text[0] == text[-1] == "$" else None


def place(lower_error: float, upper_error: float, center: float) -> Decimal:
    """The second significant figure of the smaller error (of the other if one is zero, of the centre if both are)."""
    import numpy as np

    e = [abs(v) for v in (lower_error, upper_error) if v != 0] or ([abs(center)] if center != 0 else [1.0])
    return Decimal(10) ** int(np.floor(np.log10(min(e)) + 1e-12) - 1)


def judge(text: str, lower: float, center: float, upper: float, slack: float = 0.0) -> str | None:
    """None if the text states the bound as promised, otherwise what is wrong with it.

    slack: an absolute uncertainty of the bound itself (0 when it is known exactly)."""
    d = parse(text)
    if d is None:
        return "the text cannot be read back"
    ue, le = upper - center, center - lower
    unit = place(le, ue, center)
    units = [unit] + ([place(le * (1 + 1e-9), ue * (1 + 1e-9), center * (1 + 1e-9)), place(le * (1 - 1e-9), ue * (1 - 1e-9), center * (1 - 1e-9))])
    for k in ("center", "upper", "lower"):
        v = {"center": center, "upper": ue, "lower": le}[k]
        # rounding is done on floats, at times in two steps (13.46 is first made 13.5)
        tol = max(float(u) for u in units) * 0.56 + 1e-12 * (abs(center) + abs(ue) + abs(le)) + slack
        if abs(float(d[k]) - v) > tol:
            return f"the {k} shown is not the {k} rounded at the second figure of the smaller error"
        if abs(v) < 1e13 * float(unit) and not any(d[k] % u == 0 for u in units):
            return f"the {k} is shown to another precision than the second figure of the smaller error"
    if ue == le and not d["pm"]:
        return "equal errors are not given once"
    if not d["pm"] and d["upper"] == d["lower"]:
        return "equal errors are not given once"
    return None
