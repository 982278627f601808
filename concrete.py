#!/usr/bin/env python3
"""Runs a harness on the real, unmodified package with concrete values.

  concrete.py --serve            JSON-lines server used by the checks
  concrete.py REPLAY.json        replays a reported violation; exit 1 if it still happens
"""
import io
import json
import os
import resource
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run(req):
    from specs import harness as H
    from symx.cenv import ConcEnv, Stop
    env = ConcEnv(req["params"], req["values"])
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(req.get("timeout", 30)))
    out = {"failures": [], "infeasible": False, "detail": None}
    try:
        H.HARNESS[req["harness"]](env, req["params"])
    except Stop:
        pass
    except Timeout:
        out["error"] = "timeout"
    except MemoryError:
        out["error"] = "memory"
    except RecursionError:
        out["error"] = "recursion"
    except Exception as e:
        if not env.infeasible:
            env.failures.append("unexpected %s: %s" % (type(e).__name__, str(e)[:300]))
            out["detail"] = traceback.format_exc()[-2000:]
    finally:
        signal.alarm(0)
        env.cleanup()
    if env.infeasible:
        out["infeasible"] = True
    elif "error" not in out:
        out["failures"] = env.failures
        out["detail"] = out["detail"] or env.detail
    out["observed"] = env.observed
    return out


def preload():
    """Everything imported once, ahead of the requests; what cannot be imported fails in its request."""
    import importlib
    import argparse, base64, copy, json, struct, uuid, zlib, inspect, traceback  # noqa
    from specs import harness  # noqa
    from symx import cenv  # noqa
    repo = os.environ.get("VERIF_REPO", "/repo")
    for d, ds, fs in os.walk(os.path.join(repo, "palworld_save_tools")):
        for f in sorted(fs):
            if f.endswith(".py") and f != "__main__.py":
                m = os.path.relpath(os.path.join(d, f), repo)[:-3].replace(os.sep, ".")
                try:
                    importlib.import_module(m[:-9] if m.endswith(".__init__") else m)
                except (Exception, SystemExit):
                    pass


def main():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    if sys.argv[1] == "--serve":
        real = os.fdopen(os.dup(1), "w")
        requests = os.fdopen(os.dup(0))
        sys.stdin = open(os.devnull)      # exit() in the code under test closes it
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        try:
            import recordclass  # noqa: the extra the project declares; selects its UUID class
        except ImportError:
            pass
        preload()
        for line in requests:
            # each request in a process of its own: nothing is left over from earlier ones
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        r = json.dumps(run(json.loads(line)))
                    except BaseException as e:
                        r = json.dumps({"error": "%s: %s" % (type(e).__name__, e), "failures": [], "observed": []})
                    data = r.encode()
                    while data:
                        data = data[os.write(wr, data):]
                finally:
                    os._exit(0)
            os.close(wr)
            out = b""
            while True:
                b = os.read(rd, 1 << 16)
                if not b:
                    break
                out += b
            os.close(rd)
            os.waitpid(pid, 0)
            real.write((out.decode() or json.dumps({"error": "runner died", "failures": [], "observed": []})) + "\n")
            real.flush()
        return 0
    with open(sys.argv[1]) as f:
        req = json.load(f)
    if req.get("variant") == "stdlib":
        os.environ["FORCE_STDLIB_ONLY"] = "1"
    else:
        os.environ.pop("FORCE_STDLIB_ONLY", None)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    r = run(req)
    for x in r["failures"]:
        print("FAILS:", ascii(x)[1:-1])
    if r.get("detail"):
        print(ascii(r["detail"])[1:-1])
    if not r["failures"]:
        print("does not fail", r.get("error") or "")
    return 1 if r["failures"] else 0


if __name__ == "__main__":
    sys.exit(main())
