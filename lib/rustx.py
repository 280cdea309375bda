"""A small Rust lexer and item finder.  Used to extract functions from /repo mechanically.

Everything here works on token streams: comments and white space never matter, and every pattern
is matched token by token.  When a pattern or an item is not found, LostAnchor is raised; the
driver treats that as "outside the verifier's reach" and never as a violation.
"""
import re


class LostAnchor(Exception):
    pass


TOKEN = re.compile(
    r"""
    (?P<ws>\s+)
  | (?P<lcomment>//[^\n]*)
  | (?P<rawstr>b?r(?P<h>\#*)".*?"(?P=h))
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
  | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
  | (?P<num>[0-9][0-9_]*(?:\.(?![.A-Za-z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[A-Za-z_][A-Za-z0-9_]*)?)
  | (?P<ident>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
  | (?P<punct><<=|>>=|<<|>>|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.=|\.\.\.|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
    """,
    re.X | re.S,
)


class Tok:
    __slots__ = ("kind", "text", "start", "end")

    def __init__(self, kind, text, start, end):
        self.kind, self.text, self.start, self.end = kind, text, start, end

    def __repr__(self):
        return self.text


def lex(src):
    """Tokens of src without comments and white space."""
    out = []
    i, n = 0, len(src)
    while i < n:
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif src.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            i = j
            continue
        m = TOKEN.match(src, i)
        if not m:
            raise LostAnchor("cannot lex at offset %d: %r" % (i, src[i : i + 20]))
        kind = m.lastgroup if m.lastgroup != "h" else "rawstr"
        if kind == "num" and out and out[-1].text == "." and "." in m.group():
            # x.0.1: tuple indices, not a float
            head = m.group().split(".")[0]
            out.append(Tok("num", head, i, i + len(head)))
            i += len(head)
            continue
        if kind == "rawstr":
            kind = "str"
        if kind not in ("ws", "lcomment"):
            out.append(Tok(kind, m.group(), i, m.end()))
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = set(OPEN.values())


def match_close(toks, i):
    """Index of the token closing the bracket at i."""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j].text
        if toks[j].kind == "punct":
            if t in OPEN:
                depth += 1
            elif t in CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise LostAnchor("unbalanced brackets")


class Item:
    """attrs: list of attribute texts; head: tokens from the visibility to before the body;
    body: tokens strictly between the braces (None for `;` items)."""

    def __init__(self, src, attrs, toks, kind, name, body_open, body_close):
        self.src, self.attrs, self.toks, self.kind, self.name = src, attrs, toks, kind, name
        self.body_open, self.body_close = body_open, body_close

    def text(self):
        return self.src[self.toks[0].start : self.toks[-1].end]

    def head_toks(self):
        return self.toks[: self.body_open] if self.body_open is not None else self.toks[:-1]

    def body_toks(self):
        return self.toks[self.body_open + 1 : self.body_close]

    def header(self):
        return norm(self.head_toks())

    def start(self):
        return self.toks[0].start

    def end(self):
        return self.toks[-1].end


def norm(toks):
    return " ".join(t.text for t in toks)


KINDS = ("fn", "struct", "enum", "impl", "trait", "mod", "use", "const", "static", "type", "union", "macro_rules", "extern")


def items(src, toks):
    """The items in a token list (a file, or the body of a mod or impl)."""
    out = []
    i = 0
    while i < len(toks):
        attrs = []
        astart = i
        while i < len(toks) and toks[i].text == "#":
            j = i + 1
            if toks[j].text == "!":
                j += 1
            k = match_close(toks, j)
            attrs.append(norm(toks[i : k + 1]))
            i = k + 1
        if i >= len(toks):
            break
        first = i
        # visibility and qualifiers
        j = i
        if toks[j].text == "pub":
            j += 1
            if toks[j].text == "(":
                j = match_close(toks, j) + 1
        while toks[j].text in ("unsafe", "async", "default") or (
            toks[j].text == "const" and toks[j + 1].text in ("fn", "unsafe")
        ):
            j += 1
        if toks[j].text == "extern" and toks[j + 1].kind == "str" and toks[j + 2].text == "fn":
            j += 2
        kind = toks[j].text
        # macro invocation at item level
        if kind not in KINDS:
            kind = "macro"
        # find the end
        k = j
        body_open = body_close = None
        while True:
            if k >= len(toks):
                raise LostAnchor("item without end near %s" % norm(toks[first : first + 8]))
            t = toks[k].text
            if t == ";":
                end = k
                break
            if t == "{" :
                c = match_close(toks, k)
                if kind in ("use", "const", "static", "type") :
                    k = c + 1
                    continue
                if kind == "fn" and toks[k - 1].text in ("[",";") :
                    k = c + 1
                    continue
                body_open, body_close = k, c
                end = c
                break
            if t in ("(", "["):
                k = match_close(toks, k) + 1
                continue
            if t == "<" and kind in ("impl", "fn", "struct", "trait", "enum"):
                # const generic braces inside <...> must not be taken for the body
                d = 0
                while True:
                    x = toks[k].text
                    if x == "<":
                        d += 1
                    elif x == ">":
                        d -= 1
                    elif x == ">>":
                        d -= 2
                    elif x == "<<":
                        d += 2
                    elif x in OPEN:
                        k = match_close(toks, k)
                    k += 1
                    if d == 0:
                        break
                continue
            k += 1
        name = None
        if kind in ("fn", "struct", "enum", "trait", "mod", "const", "static", "type", "union"):
            name = toks[j + 1].text
        elif kind == "macro_rules":
            name = toks[j + 2].text
        elif kind == "impl":
            name = norm(toks[j : body_open])
        elif kind == "macro":
            name = toks[j].text
        elif kind == "use":
            name = norm(toks[j + 1 : end])
        it = Item(
            src,
            attrs,
            toks[first : end + 1],
            kind,
            name,
            None if body_open is None else body_open - first,
            None if body_close is None else body_close - first,
        )
        it.attr_start = toks[astart].start
        out.append(it)
        i = end + 1
    return out


def impl_core(name):
    """`impl < T : A > X for Y < T > where ..` -> `XforY<T>`"""
    t = name.split(" ")[1:]
    if t and t[0] == "<":
        d = 0
        for i, x in enumerate(t):
            d += {"<": 1, ">": -1, ">>": -2, "<<": 2}.get(x, 0)
            if d == 0:
                t = t[i + 1 :]
                break
    if "where" in t:
        t = t[: t.index("where")]
    return "".join(t)


def find(src, path):
    """path: list of selectors, outermost first, such as ["impl Region", "fn size"].  A selector is
    'kind name'; for impl the whole header has to match token by token (white space free)."""
    toks = lex(src)
    cur = items(src, toks)
    hit = None
    for n, sel in enumerate(path):
        kind, _, name = sel.partition(" ")
        if kind.startswith("impl"):
            kind = "impl"
        want = norm(lex(sel)) if kind == "impl" else name

        def live(it):
            return it.kind == kind and not any("cfg ( test )" in a or 'cfg ( feature = "2d" )' in a for a in it.attrs)

        hits = [it for it in cur if live(it) and it.name == want]
        if kind == "impl" and not hits:
            # generic parameters and where clauses may be written differently
            hits = [it for it in cur if live(it) and impl_core(it.name) == impl_core(want)]
        if kind == "impl" and n + 1 < len(path) and len(hits) > 1:
            k2, _, n2 = path[n + 1].partition(" ")
            hits = [h for h in hits if any(x.kind == k2 and x.name == n2 for x in items(src, h.body_toks()))]
        if len(hits) != 1:
            raise LostAnchor("item %r found %d times" % (" > ".join(path[: n + 1]), len(hits)))
        hit = hits[0]
        if n + 1 < len(path):
            cur = items(src, hit.body_toks())
    return hit


# ---------------------------------------------------------------- patterns

def parse_pattern(text):
    out = []
    toks = lex(text)
    i = 0
    while i < len(toks):
        if toks[i].text == "$" and i + 1 < len(toks):
            out.append(("var", toks[i + 1].text))
            i += 2
        else:
            out.append(("tok", toks[i].text))
            i += 1
    return out


def match_at(pat, texts, i, env):
    """Match pat at texts[i:].  Returns (end, env) or None.  A $x stands for a shortest balanced
    run of at least one token."""
    if not pat:
        return i, env
    k, v = pat[0]
    if k == "tok":
        if i < len(texts) and texts[i] == v:
            return match_at(pat[1:], texts, i + 1, env)
        return None
    if v.startswith("i_"):  # one identifier
        if i < len(texts) and re.match(r"[A-Za-z_]", texts[i]) and env.get(v, [texts[i]]) == [texts[i]]:
            e2 = dict(env)
            e2[v] = [texts[i]]
            return match_at(pat[1:], texts, i + 1, e2)
        return None
    depth = 0
    j = i
    while j < len(texts):
        t = texts[j]
        if t in OPEN:
            depth += 1
        elif t in CLOSE:
            depth -= 1
            if depth < 0:
                return None
        elif depth == 0 and t in (";", "=", "let"):
            return None
        j += 1
        if depth == 0:
            got = texts[i:j]
            if v in env:
                if env[v] == got:
                    r = match_at(pat[1:], texts, j, env)
                    if r:
                        return r
                continue
            e2 = dict(env)
            e2[v] = got
            r = match_at(pat[1:], texts, j, e2)
            if r:
                return r
    return None


def subst(template, env):
    out = []
    toks = lex(template)
    i = 0
    while i < len(toks):
        if toks[i].text == "$" and i + 1 < len(toks) and toks[i + 1].text in env:
            out.extend(env[toks[i + 1].text])
            i += 2
        else:
            out.append(toks[i].text)
            i += 1
    return out


def rewrite(texts, pat_text, repl, count=None):
    pat = parse_pattern(pat_text)
    out, i, n = [], 0, 0
    while i < len(texts):
        m = match_at(pat, texts, i, {}) if (count is None or count < 0 or n < count) else None
        if m:
            out.extend(subst(repl, m[1]))
            i = m[0]
            n += 1
        else:
            out.append(texts[i])
            i += 1
    if count is not None and count >= 0 and n != count:
        raise LostAnchor("pattern %r found %d times, expected %d" % (pat_text, n, count))
    return out


def find_pattern(texts, pat_text, nth=0):
    pat = parse_pattern(pat_text)
    n = 0
    for i in range(len(texts)):
        m = match_at(pat, texts, i, {})
        if m:
            if n == nth:
                return i, m[0]
            n += 1
    raise LostAnchor("pattern %r not found (occurrence %d)" % (pat_text, nth))


def loops(texts):
    """Positions (keyword index, body open index, body close index) of for/while/loop, in order.
    `for` of a higher-ranked bound or an impl does not occur inside function bodies here."""
    out = []
    for i, t in enumerate(texts):
        if t in ("while", "for", "loop") and (i == 0 or texts[i - 1] not in (".", "::")):
            if t == "for" and i + 1 < len(texts) and texts[i + 1] == "<":
                continue
            j = i + 1
            depth = 0
            while j < len(texts):
                if texts[j] in ("(", "["):
                    depth += 1
                elif texts[j] in (")", "]"):
                    depth -= 1
                elif texts[j] == "{" and depth == 0:
                    break
                j += 1
            else:
                raise LostAnchor("loop without a body")
            d = 0
            for k in range(j, len(texts)):
                if texts[k] in OPEN:
                    d += 1
                elif texts[k] in CLOSE:
                    d -= 1
                    if d == 0:
                        break
            out.append((i, j, k))
    return out


def pretty(texts):
    """Token texts to something readable (line breaks after ; { })."""
    out, ind = [], 0
    line = []

    def flush():
        nonlocal line
        if line:
            out.append("    " * max(ind, 0) + join(line))
            line = []

    def join(ts):
        s = ""
        prev = None
        for t in ts:
            if prev is None:
                s = t
            elif (
                t in (".", ",", ";", ")", "]", "?", "::")
                or prev in (".", "(", "[", "!", "::", "#")
                or (t in ("(", "[", "!") and (prev[0].isalnum() or prev[0] == "_" or prev in (")", "]", ">")) and prev not in ("in", "if", "while", "match", "return", "for", "&&"))
            ):
                s += t
            else:
                s += " " + t
            prev = t
        return s

    raw = []
    for t in texts:
        if t.startswith("\x00"):
            flush()
            out.append(t[1:])
            continue
        if t == "}":
            flush()
            ind -= 1
            line = [t]
            continue
        if line and line[0] == "}" and t not in (";", ",", ")", ".", "else", "?", "]"):
            flush()
        line.append(t)
        if t == "{":
            flush()
            ind += 1
        elif t == ";":
            flush()
    flush()
    return "\n".join(out)
