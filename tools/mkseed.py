#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the entries in tools/seeds.py (patch.diff against /repo's HEAD, demo.sh, demo.rs, meta.json)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS
DEMO_VIEW = '''#!/bin/bash
# Appends demo.rs (a test) to a copy of the built part of the repository and runs it.
d=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
. /opt/vp/env.sh
cp -a /opt/vp/view "$T/view" && cp -a /opt/vp/target "$T/target" || exit 3
cat "$d/demo.rs" >> "$T/view/%s"
export CARGO_TARGET_DIR="$T/target"
cd "$T/view" && cargo test --lib --offline vxdemo 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
'''
DEMO_CRATE = '''#!/bin/bash
# Builds a small crate around files of the repository and runs it.
d=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
. /opt/vp/env.sh
cp -a "$d/crate" "$T/crate" || exit 3
%s
export CARGO_TARGET_DIR="$T/target"
cd "$T/crate" && cargo run --offline 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
'''
DEMO_KIT = '''#!/bin/bash
# Builds a crate from files of the repository (stand-ins for unavailable dependencies beside this script) and runs it.
d=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
cp -a "$d/kit" "$T/kit" || exit 3
cd "$T/kit" && timeout 250 python3 demo.py 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
'''
DEMO_KIT_PY = '''import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import mirror
%s
d = mirror.generate("demo", **SPEC)
ok, out, exe = mirror.compile(d, "demo")
if not ok:
    print(out)
    sys.exit(3)
sys.exit(subprocess.run([exe], timeout=150).returncode)
'''
only = sys.argv[1:]
for s in SEEDS:
    if only and s["id"] not in only: continue
    d = os.path.join(V, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (t, t), shell=True, check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(t, f); x = open(p).read()
        assert x.count(old) == 1, (s["id"], f, old, x.count(old))
        open(p, "w").write(x.replace(old, new))
    diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if "demo" in s:
        f, rs = s["demo"]
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_VIEW % f)
        open(os.path.join(d, "demo.rs"), "w").write("#[cfg(test)]\nmod vxdemo {\n    use super::*;\n" + rs + "\n}\n")
    elif "kit" in s:
        ign = shutil.ignore_patterns("target", "Cargo.lock", "__pycache__", "symx", "*_sym")
        shutil.copytree(os.path.join(V, "lib"), os.path.join(d, "kit", "lib"), ignore=ign)
        shutil.copytree(os.path.join(V, "shims"), os.path.join(d, "kit", "shims"), ignore=ign)
        open(os.path.join(d, "kit", "demo.py"), "w").write(DEMO_KIT_PY % s["kit"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_KIT)
    else:
        c = s["crate"]
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_CRATE % c["prepare"])
        for sh in c.get("shims", []):
            shutil.copytree(os.path.join(V, "shims", sh), os.path.join(d, "crate", "shims", sh), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        for name, text in c["files"].items():
            p = os.path.join(d, "crate", name); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(text)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(t)
    print("seed", s["id"])
