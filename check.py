#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property of palworld-save-tools by symbolic execution of /repo's sources.

  check.py --property C01 [--tier quick|thorough] [--jobs N] [--list] [--only SUBSTR]

Exit 0: every assertion was discharged on everything explored.  Exit 1: a counterexample
that also fails on the real, unmodified code ("VIOLATION property=.. replay=..").
Exit 2: nothing could be decided.
"""
import argparse
import json
import os
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.pop("DEBUG", None)

GRACE = 20.0


def worker(variant, rfd, wfd, seed):
    """Reads job lines, writes report lines; runs in a forked child."""
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(null, 2)
    sys.stdin = open(os.devnull)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(20000)
    from symx import loader, run
    out = os.fdopen(wfd, "w")
    err = None
    try:
        loader.install(stdlib_uuid=variant == "stdlib")
        import palworld_save_tools.paltypes  # noqa
        import palworld_save_tools.gvas  # noqa
        loader.preload()
        loader.snapshot()
    except BaseException:
        err = traceback.format_exc()[-1500:]
    conc = run.Concrete(variant)
    for line in os.fdopen(rfd):
        job = json.loads(line)
        try:
            if err is not None:
                rep = {"fatal": err}
            else:
                rep = run.run_job(job, seed=seed, conc=conc)
        except MemoryError:
            rep = {"fatal": "out of memory"}
        except BaseException:
            rep = {"fatal": traceback.format_exc()[-1500:]}
        out.write(json.dumps(rep) + "\n")
        out.flush()
    conc.close()
    os._exit(0)


class Slot:
    def __init__(self, variant, seed, others):
        self.variant = variant
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(w1)
            os.close(r2)
            for o in others:
                for fd in (o.w, o.r):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            try:
                worker(variant, r1, w2, seed)
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        self.job = None
        self.buf = b""
        self.done = 0

    def give(self, job):
        self.job = job
        self.until = time.monotonic() + job["limits"]["seconds"] + GRACE
        self.done += 1
        os.write(self.w, (json.dumps(job) + "\n").encode())

    def stop(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass


def run_all(jobs, width, seed, budget, on_report):
    """Runs jobs (already ordered) on `width` workers until done or the budget is used up."""
    t0 = time.monotonic()
    slots = []
    queue = list(jobs)
    queue.reverse()
    stopped = False

    def fill():
        while queue and len([s for s in slots if s.job]) < width:
            if time.monotonic() - t0 > budget or stopped:
                return
            v = queue[-1]["variant"]
            s = next((x for x in slots if x.job is None and x.variant == v and x.done < 150), None)
            if s is None:
                idle = [x for x in slots if x.job is None]
                if len(slots) >= width and idle:
                    idle[0].stop()
                    slots.remove(idle[0])
                s = Slot(v, seed, slots)
                slots.append(s)
            s.give(queue.pop())

    try:
        fill()
        while any(s.job for s in slots):
            busy = [s for s in slots if s.job]
            ready, _, _ = select.select([s.r for s in busy], [], [], 0.5)
            for s in busy:
                rep = None
                if s.r in ready:
                    d = os.read(s.r, 1 << 20)
                    if not d:
                        rep = {"fatal": "worker ended"}
                    else:
                        s.buf += d
                        if s.buf.endswith(b"\n"):
                            rep = json.loads(s.buf)
                            s.buf = b""
                            job, s.job = s.job, None
                            if on_report(job, rep):
                                stopped = True
                            continue
                elif time.monotonic() > s.until:
                    rep = {"fatal": "time limit"}
                if rep is not None:
                    job = s.job
                    s.job = None
                    s.stop()
                    slots.remove(s)
                    on_report(job, rep)
            if stopped:
                break
            fill()
    finally:
        for s in slots:
            s.stop()
    return len(queue)


def known(prop):
    out = []
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    out.append(line[len("known: property=%s " % prop):])
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--width", type=int, default=int(os.environ.get("VERIF_WIDTH", "0")) or os.cpu_count() or 8)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from specs import jobs as J
    t0 = time.monotonic()
    prop = a.property
    jobs, budget = J.jobs(prop, a.tier, seed)
    if a.only:
        jobs = [j for j in jobs if a.only in json.dumps(j)]
    if a.list:
        for j in jobs:
            print(json.dumps(j))
        print(len(jobs))
        return 0
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tot = {"paths": 0, "decisions": 0, "queries": 0, "asserts": 0, "solver_s": 0.0, "unknown": 0}
    completed = validated = 0
    functions, incomplete, fatals = set(), {}, []
    violations, inconclusive, samples, mism = [], [], [], []
    full = [0]
    ran = [0]
    slow = []

    def report(job, rep):
        nonlocal completed, validated
        ran[0] += 1
        if "fatal" in rep:
            incomplete[rep["fatal"].strip().splitlines()[-1][:120]] = incomplete.get(rep["fatal"].strip().splitlines()[-1][:120], 0) + 1
            fatals.append({"job": job, "why": rep["fatal"]})
            if a.verbose:
                print("FATAL", json.dumps(job), rep["fatal"])
            return False
        for k in tot:
            tot[k] += rep["stats"][k]
        completed += rep["completed"]
        validated += rep["validated"]
        functions.update(rep["functions"])
        for k, v in rep["incomplete"].items():
            incomplete[k] = incomplete.get(k, 0) + v
        if rep["exhausted"] and not rep["incomplete"]:
            full[0] += 1
        elif not rep["exhausted"] and not rep["incomplete"]:
            incomplete["path or time bound"] = incomplete.get("path or time bound", 0) + 1
        mism.extend({"job": job, **m} for m in rep["mismatch"])
        inconclusive.extend({"job": job, **m} for m in rep["inconclusive"])
        if rep["witness"] is not None and (len(samples) < 3 or ran[0] % 97 == 0) and len(samples) < 8:
            samples.append({"harness": job["harness"], "params": job["params"], "variant": job["variant"],
                            "values": dict(list(rep["witness"].items())[:40])})
        slow.append((rep["wall"], json.dumps(job["params"])[:150]))
        if a.verbose:
            print("%6.2fs p%d q%d c%d v%d%s %s" % (
                rep["wall"], rep["stats"]["paths"], rep["stats"]["queries"], rep["completed"], rep["validated"],
                "" if rep["exhausted"] else " NOTEXH", json.dumps([job["harness"], job["variant"], job["params"]])[:220]),
                *[str(x)[:400] for x in [rep["incomplete"]] * bool(rep["incomplete"]) + rep["mismatch"][:1] + rep["errors"][:1]])
            for x in rep["inconclusive"][:1]:
                print("    INCONCLUSIVE", str(x)[:1500])
            if rep.get("trace"):
                print(rep["trace"])
        for v in rep["violations"]:
            violations.append({"job": job, **v})
            if a.verbose:
                print("    VIOLATION", v["label"], v["failures"], v["found_by"], v["detail"])
        return len([v for v in violations]) >= 6 and not a.verbose

    left = run_all(jobs, a.width, seed, budget, report)
    kf = known(prop)
    shown, new = [], []
    for v in violations:
        hit = next((k for k in kf if k.split(" :: ")[0] in v["label"] or any(k.split(" :: ")[0] in f for f in v["failures"])), None)
        if hit is not None:
            if hit not in shown:
                shown.append(hit)
                print("KNOWN-FINDING: property=%s %s" % (prop, hit))
        else:
            new.append(v)
    replays = []
    for old in os.listdir(evdir):
        if old.startswith("replay-%s-" % prop):
            os.unlink(os.path.join(evdir, old))
    for i, v in enumerate(new[:5]):
        path = os.path.join(evdir, "replay-%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": v["job"]["harness"], "params": v["job"]["params"],
                       "variant": v["job"]["variant"], "values": v["values"], "label": v["label"],
                       "failures": v["failures"], "detail": v["detail"],
                       "how": "python3 /verif/concrete.py <this file> runs this input on the code in /repo"}, f, indent=1)
        replays.append(path)
        print("property %s fails: %s" % (prop, "".join(c if " " <= c <= "~" else "?" for c in "; ".join(v["failures"])[:400])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"], "traces_validated_against_impl": validated,
            "samples": samples, "queries_discharged": tot["queries"], "assertions_decided": tot["asserts"],
            "solver_s": round(tot["solver_s"], 3), "solver_unknown": tot["unknown"], "paths_completed": completed,
            "jobs": len(jobs), "jobs_run": ran[0], "jobs_not_reached": left, "jobs_explored_completely": full[0],
            "functions_encoded": sorted(functions), "bounds": J.bounds(prop, jobs),
            "exhaustive": left == 0 and full[0] == len(jobs),
            "incomplete": incomplete, "counterexamples_not_reproduced": inconclusive[:5],
            "validation_mismatches": mism[:5], "worker_failures": fatals[:5],
            "slowest": sorted(slow, reverse=True)[:5],
        },
        "assumptions": J.assumptions(prop), "wall_s": round(wall, 2), "violations": len(new),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d/%d jobs, %d paths, %d asserts, %d queries, %d validated on the real code, %d inconclusive, %.1f s" % (
        prop, a.tier, ran[0], len(jobs), tot["paths"], tot["asserts"], tot["queries"], validated,
        sum(incomplete.values()) + len(mism), wall))
    if new:
        return 1
    if completed == 0:
        print("nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    for _f in (sys.stdout, sys.stderr):
        _f.reconfigure(errors="backslashreplace")     # counterexamples may hold lone surrogates
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        print("the check itself failed")
        code = 2
    sys.exit(code)
