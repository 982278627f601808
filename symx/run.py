"""Runs one job: a harness with its parameters, on every path, in this process."""
import json
import os
import random
import subprocess
import sys
import time
import traceback

import z3

from . import core, loader
from .senv import SymEnv

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WAIT = 20     # seconds that the real code is given
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


class Concrete:
    """The same harness on the unmodified code, in its own interpreter."""

    def __init__(self, variant):
        self.variant = variant
        self.p = None

    def start(self):
        env = dict(os.environ)
        repo = env.get("VERIF_REPO", "/repo")
        env["PYTHONPATH"] = repo + os.pathsep + HERE
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env.pop("FORCE_STDLIB_ONLY", None)
        env.pop("DEBUG", None)
        if self.variant == "stdlib":
            env["FORCE_STDLIB_ONLY"] = "1"
        self.p = subprocess.Popen([PY, os.path.join(HERE, "concrete.py"), "--serve"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)

    def run(self, harness, params, values, timeout=30):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps({"harness": harness, "params": params, "values": values, "timeout": timeout}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except Exception as e:
            self.close()
            return {"error": "concrete runner: %s" % e}

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None


TEXTS = [', ": \\/"{}[]', ' ,"\':null\n', None]
PROBES = 60     # values asked for, one by one, in each probe


def probes(c, env):
    """Models of a path that could not be followed to its end, other than the first that the solver
    offers: its texts hold characters that matter to text handling, or its inputs differ."""
    rng = random.Random(len(env.leaves))
    for text in TEXTS:
        c.solver.push()
        try:
            i = k = 0
            for nm, v in env.leaves.items():
                if text is None:
                    want = rng.getrandbits(v.size())
                elif v.size() != 7:
                    k = 0
                    continue
                else:
                    want = ord(text[k % len(text)])
                    k += 1
                i += 1
                if i > PROBES:
                    break
                c.solver.push()
                c.solver.add(v == want)
                if c.solver.check() != z3.sat:
                    c.solver.pop()
                else:
                    # kept: folded into the enclosing level
                    c.solver.pop()
                    c.solver.add(v == want)
            if c.solver.check() == z3.sat:
                yield env.assignment(c.solver.model())
        finally:
            c.solver.pop()


def run_job(job, seed=1, validate=4, conc=None):
    """job: harness, params, variant, limits.  Returns a JSON-able report."""
    from specs import harness as H
    fn = H.HARNESS[job["harness"]]
    params = job.get("params", {})
    lim = job.get("limits", {})
    z3.set_param("smt.random_seed", seed)
    z3.set_param("sat.random_seed", seed)
    c = core.Ctx(max_paths=lim.get("paths", 400), max_seconds=lim.get("seconds", 60.0),
                 query_ms=lim.get("query_ms", 20000), enum_limit=lim.get("enum", 300))
    c.max_steps = lim.get("steps", c.max_steps)
    own = conc is None
    if own:
        conc = Concrete(job["variant"])
    rep = {"harness": job["harness"], "params": params, "variant": job["variant"], "completed": 0, "violations": [],
           "inconclusive": [], "validated": 0, "mismatch": [], "witness": None, "errors": []}
    t0 = time.monotonic()
    done = {"n": 0, "cut": 0, "probe": 0}

    def confirm(label, asg, how):
        r = conc.run(job["harness"], params, asg)
        if r.get("failures"):
            rep["violations"].append({"label": label, "found_by": how, "values": asg, "failures": r["failures"][:5],
                                      "detail": r.get("detail")})
            return True
        rep["inconclusive"].append({"label": label, "values": asg, "concrete": r if how == "counterexample" else None,
                                    "notes": c.path_notes[-1:]})
        return False

    def path():
        loader.restore()
        env = SymEnv(c, params)
        stop = None
        try:
            fn(env, params)
        except core.Infeasible:
            return
        except core.BoundHit as e:
            c.note_incomplete("bound: %s" % e.why)
            stop = "bound"
            if e.why in ("path time", "time budget"):
                c.cut = True
        except core.Unsupported as e:
            c.note_incomplete("unsupported: %s" % str(e)[:120])
            stop = "unsupported"
        except core.Nondeterminism:
            raise
        except RecursionError:
            c.note_incomplete("recursion limit")
            stop = "recursion"
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            label = "unexpected %s: %s (%s:%s)" % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno)
            asg = env.assignment(c.path_model())
            if not confirm(label, asg, "counterexample"):
                rep["errors"].append(label)
                rep["trace"] = traceback.format_exc()[-1500:]
                c.note_incomplete("engine exception: " + type(e).__name__)
            return
        if env.failures:
            for label, asg in env.failures:
                if asg is None:
                    c.note_incomplete("no model for failure " + label)
                elif not confirm(label, asg, "counterexample"):
                    c.note_incomplete("counterexample not reproduced: " + label)
        if stop is None:
            rep["completed"] += 1
        if not env.failures:
            # witness of this path on the real code; always where the path could not be finished
            if done["cut"] < 20 if stop is not None else done["n"] < validate:
                m = c.path_model()
                if m is not None:
                    done["n"] += 1
                    done["cut"] += stop is not None
                    asg = env.assignment(m)
                    r = conc.run(job["harness"], params, asg, WAIT)
                    if r.get("error"):
                        done["cut"] += 7
                    if stop == "unsupported" and not r.get("failures") and not r.get("error") and done["probe"] < 4:
                        done["probe"] += 1
                        for a2 in probes(c, env):
                            r2 = conc.run(job["harness"], params, a2, WAIT)
                            if r2.get("failures") or r2.get("error"):
                                asg, r = a2, r2
                                break
                    if r.get("failures"):
                        rep["violations"].append({"label": r["failures"][0], "found_by": "path witness", "values": asg,
                                                  "failures": r["failures"][:5], "detail": r.get("detail")})
                    elif stop is not None and r.get("error") in ("timeout", "memory") and job["harness"] in H.ENDS:
                        text = "no result within %d s (%s)" % (WAIT, r["error"])
                        rep["violations"].append({"label": text, "found_by": "path witness", "values": asg,
                                                  "failures": [text], "detail": None})
                    elif r.get("infeasible") or r.get("error"):
                        rep["mismatch"].append({"values": asg, "why": r.get("error") or "infeasible"})
                    elif stop is None:
                        want = env.observed_values(m)
                        if json.loads(json.dumps(want)) == r["observed"]:
                            rep["validated"] += 1
                            if rep["witness"] is None:
                                rep["witness"] = asg
                        else:
                            diff = [[w, g] for w, g in zip(want, r["observed"]) if json.loads(json.dumps(w)) != g]
                            rep["mismatch"].append({"values": asg, "why": "observations differ", "diff": str(diff)[:600]})
        if len(rep["violations"]) >= 3:
            c.max_paths = 0

    try:
        c.explore(path)
    except core.Nondeterminism as e:
        c.note_incomplete("nondeterminism: %s" % str(e)[:100])
        c.exhausted = False
    finally:
        if own:
            conc.close()
    s = c.stats
    rep["stats"] = {f: getattr(s, f) for f in s.FIELDS}
    rep["exhausted"] = c.exhausted
    rep["incomplete"] = c.incomplete
    rep["functions"] = sorted(c.functions)
    rep["wall"] = time.monotonic() - t0
    return rep
