"""Pieces of mirror crates that several checks share."""
import re

import rustx
import symbolic
from mirror import VERIF, SHIMS

VXDERIVE = ("vxderive", '{ path = "%s/shims/vxderive" }' % VERIF)


def noserde(text):
    """serde's derives become stand-ins that expand to nothing; hand-written Deserialize impls go."""
    text = re.sub(r"use serde::Deserializer;\n", "", text)
    text = re.sub(r"use serde::(Serialize|Deserialize);", r"use vxderive::\1;", text)
    while True:
        m = re.search(r"impl<'de> Deserialize<'de> for [\$\w]+ \{", text)
        if not m:
            break
        d, j = 1, m.end()
        while d:
            d += {"{": 1, "}": -1}.get(text[j], 0)
            j += 1
        text = text[: m.start()] + text[j:]
    return text


def without_methods(*names):
    """A transform that takes methods (functions inside impl blocks) out of the text, by name."""

    def t(text):
        for n in names:
            m = re.search(r"[ \t]*(pub(\([^)]*\))?\s+)?fn %s\b" % re.escape(n), text)
            if not m:
                continue
            toks = [k for k in rustx.lex(text) if k.start >= m.start()]
            d = 0
            for k in toks:
                d += {"{": 1, "}": -1}.get(k.text, 0)
                if k.text == "}" and d == 0:
                    text = text[: m.start()] + text[k.end :]
                    break
        return text

    return t


def entry(src, sym, **kw):
    """A file entry, over symbolic reals if sym."""
    e = {"src": src, "transform": [noserde] + ([symbolic.reals] if sym else [])}
    e.update(kw)
    return e


# src/voronoi/math: traits, numbers
PRECISION_KEEP = ["use num", "struct PrecisionError", "impl PrecisionError", "trait FloatError", "impl FloatError for f64", "type PrecisionFloat", "impl FloatError for PrecisionFloat"] + [
    "const DETERMINANT_%dX%d_EPSILON" % (d, d) for d in (3, 4, 5)
]


def precision(sym):
    e = entry("src/voronoi/math/precision_types.rs", sym)
    if sym:
        e["edits"] = [("num::BigRational", "symx::X")]
    return e
