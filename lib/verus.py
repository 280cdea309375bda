"""Verus back end: fill a template with functions extracted from /repo, run Verus, classify."""
import json
import os
import re
import shutil
import subprocess
import time

import rustx
from rustx import LostAnchor

REPO = os.environ.get("VERIF_REPO", "/repo")


def _section_text(lines):
    return "\n".join(lines)


def fill(template, log):
    """Returns the Verus source.  log: list that receives what was extracted and rewritten."""
    out = []
    lines = open(template).read().split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        if st.startswith("//@ include "):
            out.append(fill(os.path.join(os.path.dirname(template), st[len("//@ include "):].strip()), log))
            i += 1
            continue
        if not st.startswith("//@ extract "):
            out.append(ln)
            i += 1
            continue
        spec = st[len("//@ extract "):]
        parts = [p.strip() for p in spec.split(" :: ")]
        i += 1
        secs = []
        cur = None
        while True:
            if i >= len(lines):
                raise RuntimeError("template: missing //@ end after " + spec)
            st = lines[i].strip()
            if st == "//@ end":
                i += 1
                break
            if st.startswith("//@ "):
                cur = (st[4:].strip(), [])
                secs.append(cur)
            elif cur is not None:
                cur[1].append(lines[i])
            elif st:
                raise RuntimeError("template: stray line " + lines[i])
            i += 1
        out.append(one(parts, secs, log))
    return "\n".join(out)


def backquoted(s):
    return re.findall(r"`([^`]*)`", s)


def one(parts, secs, log):
    path = os.path.join(REPO, parts[0])
    if not os.path.exists(path):
        raise LostAnchor("no file " + parts[0])
    src = open(path).read()
    it = rustx.find(src, parts[1:])
    texts = [t.text for t in it.toks]
    if it.kind == "fn" and texts[0] == "pub":
        k = 1
        if texts[1] == "(":
            k = texts.index(")") + 1
        texts = texts[k:]
    entry = {"file": parts[0], "item": " :: ".join(parts[1:]), "attributes_dropped": it.attrs, "rewrites": []}
    log.append(entry)
    for head, body in secs:
        if head.startswith("rewrite"):
            m = re.match(r"rewrite\s+(\*|\d+)\s", head)
            cnt = None if m.group(1) == "*" else int(m.group(1))
            pat, repl = backquoted(head)
            texts = rustx.rewrite(texts, pat, repl, cnt)
            entry["rewrites"].append("%s => %s" % (pat, repl))
    if it.kind != "fn":
        return rustx.pretty(texts)
    # split the signature from the body
    d = 0
    bo = None
    k = 0
    while k < len(texts):
        t = texts[k]
        if t in ("(", "["):
            d += 1
        elif t in (")", "]"):
            d -= 1
        elif t == "{" and d == 0:
            bo = k
            break
        k += 1
    if bo is None:
        raise LostAnchor("no body in " + it.name)
    sig, body = texts[:bo], texts[bo + 1 : -1]
    inserts = []  # (index into body, order, text)
    spec_text = ""
    order = 0
    nloops = None
    for head, sec in secs:
        order += 1
        text = _section_text(sec)
        if head.startswith("rewrite"):
            continue
        if head.startswith("ret "):
            name = head[4:].strip()
            # -> T  becomes -> (name: T)
            d = 0
            arrow = None
            for q, t in enumerate(sig):
                if t in ("(", "[", "{"):
                    d += 1
                elif t in (")", "]", "}"):
                    d -= 1
                elif t == "->" and d == 0:
                    arrow = q
            if arrow is None:
                raise LostAnchor("no return type in " + it.name)
            wh = next((q for q in range(arrow, len(sig)) if sig[q] == "where"), len(sig))
            sig = sig[: arrow + 1] + ["(", name, ":"] + sig[arrow + 1 : wh] + [")"] + sig[wh:]
        elif head == "spec":
            spec_text += text + "\n"
        elif head == "entry":
            inserts.append((0, order, text))
        elif head == "exit":
            inserts.append((len(body), order, text))
        elif head.startswith("loops "):
            nloops = int(head.split()[1])
            if len(rustx.loops(body)) != nloops:
                raise LostAnchor("%s has %d loops, contract written for %d" % (it.name, len(rustx.loops(body)), nloops))
        elif head.startswith("loop "):
            _, n, what = head.split(None, 2)
            ls = rustx.loops(body)
            if int(n) >= len(ls):
                raise LostAnchor("%s has no loop %s" % (it.name, n))
            kw, o, c = ls[int(n)]
            if what == "spec":
                inserts.append((o, order, text))
            elif what.startswith("binder "):
                if body[kw] != "for":
                    raise LostAnchor("loop %s of %s is not a for loop" % (n, it.name))
                j = kw
                d = 0
                while not (body[j] == "in" and d == 0):
                    if body[j] in ("(", "["):
                        d += 1
                    elif body[j] in (")", "]"):
                        d -= 1
                    j += 1
                inserts.append((j + 1, order, what.split()[1] + ":"))
            elif what == "start":
                inserts.append((o + 1, order, text))
            elif what == "end":
                inserts.append((c, order, text))
            elif what == "before":
                inserts.append((kw, order, text))
            elif what == "after":
                inserts.append((c + 1, order, text))
            else:
                raise RuntimeError(head)
        elif head.startswith(("before ", "after ")):
            pat = backquoted(head)[0]
            m = re.search(r"#(\d+)\s*$", head)
            a, b = rustx.find_pattern(body, pat, int(m.group(1)) if m else 0)
            inserts.append((a if head.startswith("before") else b, order, text))
        else:
            raise RuntimeError("template: unknown section " + head)
    inserts.sort(key=lambda x: (x[0], x[1]))
    res, p = [], 0
    for idx, _, text in inserts:
        res += body[p:idx]
        res.append("\x00" + text)
        p = idx
    res += body[p:]
    attrs = ""
    return attrs + rustx.pretty(sig) + "\n" + spec_text + "{\n" + rustx.pretty(res) + "\n}\n"


FAILED = re.compile(
    r"^error: (postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied.*"
    r"|possible arithmetic (?:underflow/overflow|overflow/underflow)|possible division by zero|decreases not satisfied.*"
    r"|loop invariant not satisfied|possible bit shift underflow/overflow|unreachable.*|recommendation not met"
    r"|could not prove termination|bitvector assertion not satisfied|.*ensures not satisfied.*|failed precondition"
    r"|slice index .*|.*may be out of bounds.*|possible .*|.*not satisfied.*)",
    re.M,
)
LIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|canceled", re.M)


def run(src_path, rlimit=30, extra=(), timeout=600):
    """-> dict(status=ok|failed|limit, verified, errors, failures[], output, wall)"""
    t0 = time.time()
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["verus", src_path, "--rlimit", str(rlimit), "--triggers-mode", "silent", "--multiple-errors", "4", "--num-threads", "8", "--time"] + list(extra)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=os.path.dirname(src_path))
        out = p.stdout + "\n" + p.stderr
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = "timeout after %ss\n%s" % (timeout, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else e.stdout)
        rc = -1
    wall = time.time() - t0
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    ver, err = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    smt = re.search(r"total smt-run:\s*(\d+) ms", out) or re.search(r"smt-run:\s*(\d+) ms", out)
    res = {"verified": ver, "errors": err, "output": out, "wall": wall, "cmd": " ".join(cmd), "smt_ms": int(smt.group(1)) if smt else None, "failures": []}
    errs = re.findall(r"^error(?:\[[A-Z0-9]+\])?: (.*)$", out, re.M)
    errs = [e for e in errs if not e.startswith("aborting due to") and not e.startswith("could not compile")]
    if rc == 0 and m and err == 0 and ver > 0 and not errs:
        res["status"] = "ok"
        return res
    if m and err > 0 and errs and all(FAILED.match("error: " + e) for e in errs):
        res["status"] = "failed"
        res["failures"] = failures(out)
        return res
    res["status"] = "limit"
    res["reason"] = "; ".join(errs[:3]) or ("verus exit %s" % rc)
    return res


def failures(out):
    fs = []
    for blk in re.split(r"(?m)^(?=error)", out):
        m = FAILED.match(blk)
        if not m:
            continue
        loc = re.search(r"--> ([^\n]+)", blk)
        fs.append({"what": m.group(1), "at": loc.group(1) if loc else "?", "text": blk.strip()[:1500]})
    return fs


CHEATS = re.compile(r"\b(assume|admit|external_body|assume_specification|external_fn_specification|external_type_specification|external|axiom)\b")


def scan_trusted(src):
    """Lines of the Verus source that are assumptions, not proofs."""
    out = []
    for n, ln in enumerate(src.split("\n"), 1):
        code = ln.split("//")[0]
        if CHEATS.search(code):
            out.append(ln.strip())
    return out
