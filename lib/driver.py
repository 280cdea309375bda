"""Runs the check of one property: the executable contract on the real code, and the proofs.
The executable contract goes first: once it has a failing input, the proofs get little time.

Verdict:
  every obligation discharged, executable contract held         -> exit 0
  a concrete failing input on the real code                     -> VIOLATION, exit 1
  an obligation failed (not a tool limit), no failing input     -> VIOLATION ... no-failing-input-found, exit 1
  obligation out of the verifier's reach (lost anchor, construct the verifier does not accept, solver
  limit): the bounded executable contract stands in, labelled bounded -> exit 0 if it held
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

import mirror
import rustx
import verus as verus_be
from rustx import LostAnchor

VERIF = mirror.VERIF
REPO = mirror.REPO


def run_group(cmd, timeout, **kw):
    """subprocess.run whose whole process group ends with it (solvers it started included)."""
    import signal

    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return out, err, p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return out, err + "\ntimeout", None


def limit_memory():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "props", pid)
        self.work = os.path.join(mirror.BUILD, pid)
        os.makedirs(self.work, exist_ok=True)
        shutil.rmtree(os.path.join(VERIF, "evidence", "logs", pid), ignore_errors=True)
        self.obl = []  # dicts: name, backend, status discharged|failed|undecided, detail
        self.functions = []
        self.trusted = []
        self.assumptions = []
        self.cmds = []
        self.extraction = []
        self.solver_s = 0.0
        self.concrete_runs = []
        self.violation = None  # (clause, input, observed)
        self.limits = []
        self.known_hits = []
        self.samples = []
        self.notes = []
        self.plan = []

    # what a check consists of is noted down first and run by go()
    def verus(self, *a, **kw):
        self.plan.append((self._verus, a, kw))

    def symbolic(self, *a, **kw):
        self.plan.append((self._symbolic, a, kw))

    def concrete(self, *a, **kw):
        self.plan.append((self._concrete, a, kw))

    BUDGET = {"quick": 800, "thorough": 6000}

    def left(self):
        """Seconds left for proofs."""
        if self.violation:
            return max(1, self.found + 90 - time.time())
        return max(1, self.t0 + self.BUDGET.get(self.tier, 800) - time.time())

    def go(self):
        for f, a, kw in [x for x in self.plan if x[0] == self._concrete] + [x for x in self.plan if x[0] != self._concrete]:
            f(*a, **kw)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def say(self, s):
        print("[%s %5.1fs] %s" % (self.pid, time.time() - self.t0, s), flush=True)

    # ------------------------------------------------------------ obligations
    def add(self, name, backend, status, detail="", n=1):
        self.obl.append({"name": name, "backend": backend, "status": status, "detail": detail, "n": n})
        if status != "discharged":
            self.say("%s: %s (%s) %s" % (status, name, backend, detail[:300]))

    def limit(self, what, why):
        self.limits.append("%s: %s" % (what, why))
        self.add(what, "-", "undecided", why)

    def _verus(self, template, functions, rlimit=40, name=None, timeout=500):
        """functions: the /repo functions the template puts under contract (for the evidence)."""
        name = name or os.path.basename(template)[:-3]
        t = os.path.join(self.dir, template)
        log = []
        try:
            src = verus_be.fill(t, log)
        except LostAnchor as e:
            self.limit("verus:%s" % name, "lost anchor: %s" % e)
            return None
        out = os.path.join(self.work, name + "_verus.rs")
        open(out, "w").write(src)
        r = verus_be.run(out, rlimit=rlimit, timeout=min(timeout, self.left()))
        if r["status"] == "failed" :
            # a failure can be solver instability: try again with other seeds before believing it
            for s in (7, 23):
                r2 = verus_be.run(out, rlimit=rlimit * 2, extra=["--smt-option", "smt.random_seed=%d" % s], timeout=min(timeout, self.left()))
                if r2["status"] == "ok":
                    r = r2
                    break
        self.cmds.append(r["cmd"])
        self.solver_s += (r["smt_ms"] or 0) / 1000.0
        self.extraction += log
        for x in verus_be.scan_trusted(src):
            self.trusted.append("verus %s: %s" % (name, x))
        if r["status"] == "ok":
            self.add("verus:%s (%d functions and lemmas)" % (name, r["verified"]), "verus/z3", "discharged", n=r["verified"])
            self.functions += functions
            self.vacuity(name, src, out)
        elif r["status"] == "failed":
            if r["verified"]:
                self.add("verus:%s" % name, "verus/z3", "discharged", n=r["verified"])
            for f in r["failures"] or [{"what": "error", "at": "?", "text": r["output"][-1500:]}]:
                self.add("verus:%s: %s at %s" % (name, f["what"], f["at"]), "verus/z3", "failed", f["text"])
            self.save("verus_%s.txt" % name, r["output"])
        else:
            self.limit("verus:%s" % name, "tool limit: " + r.get("reason", "?"))
            self.save("verus_%s.txt" % name, r["output"])
        return r

    def vacuity(self, name, src, out):
        """A proof that must fail: `ensures false` behind each precondition marked //@vacuity."""
        probes = re.findall(r"//@vacuity:\s*(.*)", src)
        if not probes:
            return
        body = src.rstrip()
        k = body.rfind("}\nfn main")
        ins = "\n".join("proof fn vacuity_probe_%d%s { }" % (i, p) for i, p in enumerate(probes))
        p = out[:-3] + "_vac.rs"
        open(p, "w").write(body[:k] + ins + "\n" + body[k:])
        r = verus_be.run(p, extra=["--verify-root", "--verify-function", "vacuity_probe_*"])
        if r["status"] == "failed" and r["errors"] >= len(probes):
            self.notes.append("vacuity probes of %s: %d preconditions are satisfiable" % (name, len(probes)))
        else:
            self.limit("verus:%s vacuity" % name, "a precondition may be contradictory: " + r["status"])

    def save(self, name, text):
        d = os.path.join(VERIF, "evidence", "logs", self.pid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, name), "w").write(text)
        return os.path.join(d, name)

    # ------------------------------------------------------------ executable contract / symbolic runs
    def crate(self, name, **kw):
        """Generate and compile a mirror crate; returns the executable or None."""
        try:
            d = mirror.generate(name, **kw)
        except LostAnchor as e:
            self.limit("crate:%s" % name, "lost anchor: %s" % e)
            return None
        try:
            ok, out, exe = mirror.compile(d, name)
        except subprocess.TimeoutExpired:
            self.limit("crate:%s" % name, "compile timeout")
            return None
        if not ok:
            self.save("compile_%s.txt" % name, out)
            self.limit("crate:%s" % name, "does not compile in the mirror: " + "; ".join(re.findall(r"^error.*$", out, re.M)[:3]))
            return None
        return exe

    def _concrete(self, name, bound, args=(), timeout=400, **kw):
        """The executable contract on the compiled real code; bound: text saying what is covered."""
        exe = self.crate(name, **kw) if kw else name
        if exe is None:
            return None
        return self.run_concrete(exe, os.path.basename(exe), bound, args, timeout)

    @staticmethod
    def crashed(rc, out):
        """Did the code under contract end the process (panic, endless recursion, unlimited memory)?"""
        if rc == 101:
            return "panic: " + out.strip()[-300:]
        m = re.search(r"has overflowed its stack|memory allocation of \d+ bytes failed", out)
        return m.group(0) if m and rc not in (None, 0) else None

    def run_concrete(self, exe, name, bound, args=(), timeout=400):
        t = time.time()
        e = dict(os.environ)
        e["VERIF_SEED"], e["VERIF_TIER"] = str(self.seed), self.tier
        out, err, rc = run_group([exe] + list(args), timeout if not self.thorough else 6 * timeout, env=e, preexec_fn=limit_memory)
        out += err
        m = re.search(r"^VXVIOLATION (.*)$", out, re.M)
        if m:
            v = json.loads(m.group(1))
            self.say("executable contract fails: %s on %s" % (v["clause"], v["input"]))
            self.found = time.time()
            self.violation = self.violation or dict(v, crate=name)
            self.concrete_runs.append({"crate": name, "bound": bound, "result": "violation", "wall_s": round(time.time() - t, 2)})
            return False
        m = re.search(r"^VXOK (.*)$", out, re.M)
        if m and rc == 0:
            v = json.loads(m.group(1))
            self.concrete_runs.append({"crate": name, "bound": bound, "cases": v["cases"], "nontrivial": v["nontrivial"], "result": "held", "wall_s": round(time.time() - t, 2)})
            self.samples += v["samples"][:5]
            self.known_hits += [tuple(k) for k in v["known"]]
            return True
        self.save("run_%s.txt" % name, out[-20000:])
        crash = self.crashed(rc, out)
        if crash:
            self.say("executable contract: %s" % crash)
            self.found = time.time()
            self.violation = self.violation or {"clause": "the code under contract returns", "input": "the calls that VERIF_SEED=%s makes, in order" % self.seed, "observed": crash, "crate": name}
            self.concrete_runs.append({"crate": name, "bound": bound, "result": "violation", "wall_s": round(time.time() - t, 2)})
            return False
        if rc is None:
            self.limit("run:%s" % name, "no answer within %d s" % timeout)
        else:
            self.limit("run:%s" % name, "ended with %s: %s" % (rc, out.strip()[-300:]))
        return None

    def _symbolic(self, name, functions, timeout=700, needs=(), **kw):
        """The real code compiled over symbolic reals (shims/symx); every VXSYM line is an obligation."""
        exe = self.crate(name, **kw)
        if exe is None:
            return None
        out, err, rc = run_group([exe], min(timeout if not self.thorough else 4000, self.left()), env=dict(os.environ, VERIF_TIER=self.tier))
        self.cmds.append(exe)
        self.save("sym_%s.txt" % name, out[-200000:] + err[-20000:])
        done = re.search(r"^VXSYMDONE (.*)$", out, re.M)
        bad = 0
        for m in re.finditer(r"^VXSYM (.*)$", out, re.M):
            v = json.loads(m.group(1))
            nm = "symx:%s: %s" % (name, v["name"])
            be = "symx/algebra" if v["by_z3"] == 0 else "symx/z3"
            if v["failed"]:
                self.add(nm, be, "failed", "counterexample of the solver over the reals: " + v["failed"][0])
                bad += 1
            elif v["undecided"]:
                self.limit(nm, v["undecided"][0])
                bad += 1
            else:
                self.add(nm, be, "discharged", "%d paths" % v["paths"])
        if not done:
            self.limit("symx:%s" % name, "ended with %s before all contracts were checked: %s" % (rc, err.strip()[-300:]))
            return None
        v = json.loads(done.group(1))
        self.solver_s += v["z3_s"]
        self.notes.append("symx %s: %d paths, %d solver queries, %.1f s" % (name, v["paths"], v["queries"], v["z3_s"]))
        if not bad:
            self.functions += functions
        return bad == 0

    def kani(self, name, functions, harnesses, timeout=600, unwind=None, bounded=None, extra=(), **kw):
        """Kani on a mirror crate: `harnesses` are #[kani::proof] functions.  bounded: None if the harness
        covers the full domain, else the bound."""
        try:
            d = mirror.generate(name, **kw)
        except LostAnchor as e:
            for h in harnesses:
                self.limit("kani:%s" % h, "lost anchor: %s" % e)
            return
        e = mirror.env()
        e.pop("RUSTUP_TOOLCHAIN", None)
        e.pop("RUSTFLAGS", None)
        e["CARGO_TARGET_DIR"] = os.path.join(mirror.BUILD, "target-kani")
        cmd = ["cargo", "kani", "--offline", "--lib", "-Z", "unstable-options", "-j", "8", "--output-format", "terse", "--harness-timeout", "%ds" % timeout] + list(extra)
        for h in harnesses:
            cmd += ["--harness", h]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout + 120)
            out = p.stdout + p.stderr
        except subprocess.TimeoutExpired as ex:
            subprocess.run(["pkill", "-f", "cbmc.*" + name], capture_output=True)
            out = "timeout " + ((ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or ""))
        self.solver_s += time.time() - t
        self.cmds.append("(cd %s && %s)" % (d, " ".join(cmd)))
        self.save("kani_%s.txt" % name, out)
        return out

    # ------------------------------------------------------------ the end
    def findings(self):
        p = os.path.join(VERIF, "known_findings.json")
        return json.load(open(p))["findings"] if os.path.exists(p) else []

    def finish(self, level):
        listed = {f["key"]: f for f in self.findings() if f["property"] == self.pid}
        for key, inp in self.known_hits:
            if key in listed:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, listed[key]["what_fails"], key))
            elif not self.violation:
                self.violation = {"clause": "finding %s (not listed)" % key, "input": inp, "observed": "", "crate": "-"}
        failed = [o for o in self.obl if o["status"] == "failed"]
        undec = [o for o in self.obl if o["status"] == "undecided"]
        obligations = sum(o["n"] for o in self.obl)
        discharged = sum(o["n"] for o in self.obl if o["status"] == "discharged")
        viol = bool(self.violation or failed)
        cov = {
            "obligations": obligations,
            "discharged": discharged,
            "checker_cmd": " ; ".join(self.cmds) or "-",
            "trusted_base": sorted(set(self.trusted)),
            "functions_under_contract": sorted(set(self.functions)),
            "backends": sorted({o["backend"] for o in self.obl}),
            "solver_s": round(self.solver_s, 2),
            "undecided": [{"name": o["name"], "why": o["detail"][:400]} for o in undec],
            "failed": [{"name": o["name"], "why": o["detail"][:1500]} for o in failed],
            "bounded_stand_ins": self.concrete_runs,
            "samples": self.samples[:8],
            "extraction": self.extraction,
            "notes": self.notes,
        }
        if obligations == 0 and not self.concrete_runs:
            print("no obligation was generated and nothing was run: error of the check")
            return 2
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": 1 if viol else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        self.say("%d obligations, %d discharged, %d failed, %d undecided; %d executable-contract runs" % (obligations, discharged, len(failed), len(undec), len(self.concrete_runs)))
        if viol:
            rp = os.path.join(VERIF, "evidence", "replay_%s.json" % self.pid)
            json.dump(
                {
                    "property": self.pid,
                    "failing_input": self.violation,
                    "failed_obligations": [{"name": o["name"], "backend": o["backend"], "verifier_output": o["detail"]} for o in failed],
                    "replay": "VERIF_SEED=%d VERIF_TIER=%s %s" % (self.seed, self.tier, os.path.join(mirror.BUILD, "target", "debug", self.violation["crate"])) if self.violation else None,
                },
                open(rp, "w"),
                indent=1,
            )
            print("VIOLATION property=%s replay=%s%s" % (self.pid, rp, "" if self.violation else " no-failing-input-found"))
            return 1
        return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_TIER"] = tier
    ctx = Ctx(pid, tier, seed)
    spec = importlib.util.spec_from_file_location("prop", os.path.join(ctx.dir, "prop.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    m.run(ctx)
    ctx.go()
    sys.exit(ctx.finish(m.LEVEL))


if __name__ == "__main__":
    main()
