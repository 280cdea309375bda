"""The float type of extracted code replaced by the symbolic reals of shims/symx.

What is changed in the text: the type name f64 (and f32) becomes symx::R, float literals become
symx::R::lit("..."), `as f64` becomes `.vx_real()`, `as usize` and the like on reals are left alone (a
symbolic value used as an index ends the path as out of reach), std::f64::consts becomes symx::consts.
Nothing else is touched; the code is then compiled and run by rustc as it stands."""
import re

import rustx

FLOAT_LIT = re.compile(r"^[0-9][0-9_]*(\.[0-9_]*)?([eE][+-]?[0-9_]+)?(f64|f32)?$")


def is_float_literal(t):
    if t.startswith(("0x", "0b", "0o")):
        return False
    return bool(FLOAT_LIT.match(t)) and ("." in t or "e" in t or "E" in t or t.endswith(("f64", "f32")))


def reals(text):
    toks = rustx.lex(text)
    out, pos, i = [], 0, 0

    def emit(start, end, s):
        nonlocal pos
        out.append(text[pos:start])
        out.append(s)
        pos = end

    n = len(toks)
    while i < n:
        t = toks[i]
        w = t.text
        if w == "as" and i + 1 < n and toks[i + 1].text in ("f64", "f32"):
            emit(t.start, toks[i + 1].end, ".vx_real()")
            i += 2
            continue
        if w in ("f64", "f32"):
            # std::f64::consts::PI, std::f64::INFINITY
            if i + 3 < n and toks[i + 1].text == "::" and toks[i + 2].text == "consts":
                k = i
                while k >= 2 and toks[k - 1].text == "::":
                    k -= 2
                emit(toks[k].start, toks[i].end, "symx")
            elif i >= 2 and toks[i - 1].text in ("(", ",") and any(x.text == "!" for x in toks[max(0, i - 6) : i]):
                emit(t.start, t.end, "VxR")  # an argument of a macro that may want a single name
            else:
                emit(t.start, t.end, "symx::R")
        elif is_float_literal(w):
            # a unary minus is folded into the literal (constants of the code stay constants)
            if i >= 2 and toks[i - 1].text == "-" and toks[i - 2].text in ("[", "(", ",", "=", "{", ";", "=>", "return") and not (i + 1 < n and toks[i + 1].text == "."):
                emit(toks[i - 1].start, t.end, 'symx::R::lit("-%s")' % w)
            else:
                emit(t.start, t.end, 'symx::R::lit("%s")' % w)
        i += 1
    out.append(text[pos:])
    return "use symx::ToReal as _;\n#[allow(unused_imports)] use symx::R as VxR;\n" + "".join(out)
