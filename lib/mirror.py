"""Mirror crates: files of /repo, taken verbatim (minus the items named in `drop`), in a crate whose
missing dependencies are the stand-ins in /verif/shims, with an executable contract appended to the
module whose private functions it needs."""
import hashlib
import os
import shutil
import subprocess
import time

import rustx
from rustx import LostAnchor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

SHIMS = {n: '{ path = "%s/shims/%s" }' % (VERIF, n) for n in ("bevy_ecs", "mpi", "derive_custom", "vxcore", "symx", "diman", "hdf5")}
# the same crate names over symbolic reals
SHIMS["glam@sym"] = '{ path = "%s/shims/glam_sym", package = "glam_sym" }' % VERIF
SHIMS["rand@sym"] = '{ path = "%s/shims/rand_sym", package = "rand_sym" }' % VERIF
SHIMS["ordered-float@sym"] = '{ path = "%s/shims/ordered_sym", package = "ordered_sym" }' % VERIF
REGISTRY = {
    "glam": '"0.24.1"',
    "num": '"0.4.1"',
    "num-traits": '"0.2"',
    "array-init": '"2.1.0"',
    "derive_more": '"0.99.17"',
    "generational-arena": '"0.2.9"',
    "ordered-float": '"3.9.1"',
    "rand": '"0.8.5"',
    "lazy_static": '"1.4.0"',
    "log": '"0.4.20"',
    "bimap": '"0.6.3"',
    "kiddo": '"2.1.1"',
    "ndarray": '"0.15.6"',
    "once_cell": '"1.18.0"',
    "serde": '{ version = "1.0.188", features = ["derive"] }',
    "serde_yaml": '"0.9.25"',
}


def read(path):
    p = os.path.join(REPO, path)
    if not os.path.exists(p):
        raise LostAnchor("no file " + path)
    return open(p).read()


def drop_items(src, selectors, keep=None):
    """Blank the top-level items whose `kind name` is in selectors (use items: `use PATH-PREFIX`);
    with keep given, blank all but those."""
    its = rustx.items(src, rustx.lex(src))

    def sel(it, s):
        kind, _, name = s.partition(" ")
        if kind.startswith("impl<"):
            kind = "impl"
        if it.kind != kind:
            return False
        if kind == "use":
            return it.name.replace(" ", "").startswith(name.replace(" ", ""))
        if kind == "impl":
            want = rustx.norm(rustx.lex(s))
            return it.name == want or rustx.impl_core(it.name) == rustx.impl_core(want)
        return it.name == name

    out, pos = [], 0
    hit = set()
    for it in its:
        drop = any(sel(it, s) for s in selectors)
        if keep is not None:
            drop = not any(sel(it, s) for s in keep)
            hit.update(s for s in keep if sel(it, s))
        if any("cfg ( test )" in a for a in it.attrs):
            drop = True
        if drop:
            out.append(src[pos : it.attr_start])
            pos = it.end()
    out.append(src[pos:])
    if keep is not None:
        for s in keep:
            if s not in hit and not s.startswith("use "):
                raise LostAnchor("item %r not found" % s)
    return "".join(out)


def generate(name, files, lib_rs, main_rs, deps, features=(), edition="2021", default_features=("3d",), extra_toml=""):
    """Write the crate; returns its directory."""
    d = os.path.join(BUILD, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    dropped = []
    for f in files:
        src = read(f["src"])
        text = drop_items(src, f.get("drop", []), f.get("keep"))
        for pat, repl in f.get("edits", []):
            if pat not in text:
                raise LostAnchor("text %r not in %s" % (pat, f["src"]))
            text = text.replace(pat, repl)
        for fn in f.get("transform", []):
            text = fn(text)
        text += "\n" + f.get("append", "")
        p = os.path.join(d, "src", f.get("dst", f["src"][4:] if f["src"].startswith("src/") else f["src"]))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(text)
    open(os.path.join(d, "src", "lib.rs"), "w").write(lib_rs)
    if main_rs:
        open(os.path.join(d, "src", "main.rs"), "w").write(main_rs)
    dl = []
    for x in deps:
        if isinstance(x, tuple):
            dl.append("%s = %s" % x)
        else:
            dl.append("%s = %s" % (x.split("@")[0], SHIMS.get(x) or REGISTRY[x]))
    feats = "2d = []\n3d = []\ndefault = [%s]\n" % ", ".join('"%s"' % x for x in default_features)
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "%s"\n[features]\n%s[dependencies]\n%s\n'
        "[profile.dev]\nopt-level = 1\ndebug = false\noverflow-checks = true\ndebug-assertions = true\n"
        '[profile.dev.package."*"]\nopt-level = 2\n%s[workspace]\n' % (name, edition, feats, "\n".join(dl), extra_toml)
    )
    return d


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    e["RUSTFLAGS"] = "-Awarnings --cap-lints allow"
    e.pop("RUSTC_WRAPPER", None)
    return e


def compile(d, name, timeout=700):
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env(), capture_output=True, text=True, timeout=timeout)
    exe = os.path.join(BUILD, "target", "debug", name)
    return p.returncode == 0, (p.stdout + p.stderr), exe
