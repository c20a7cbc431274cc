"""Reading back the LaTeX tables."""
from __future__ import annotations

import re


def parse(text: str) -> dict:
    """Caption, label, column specification and rows (lists of stripped cells) of a table."""
    m = re.fullmatch(
        r"\\begin\{table\}\s*\\centering\s*\\caption\{(?P<caption>.*)\}\s*\n\s*\\label\{(?P<label>.*)\}\s*\n\s*\\begin\{tabular\}\{(?P<spec>[^}]*)\}(?P<body>.*)\\end\{tabular\}\s*\\end\{table\}\s*",
        text, flags=re.S)
    if m is None:
        raise ValueError("not a table of the documented form")
    body = m["body"]
    hlines = body.count("\\hline")
    rows = []
    for chunk in re.split(r"\\\\\s*\n", body.replace("\\hline", "")):
        if chunk.strip():
            rows.append([c.strip() for c in re.split(r"(?<!\\)&", chunk.strip("\n\t"))])
    return dict(caption=m["caption"], label=m["label"], spec=m["spec"], rows=rows, hlines=hlines)


def columns(spec: str) -> int:
    return len(re.sub(r"[^a-zA-Z]", "", spec))
