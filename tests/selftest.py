"""Cross-checks the symbolic value models against Python itself.

Random operations on symbolic values whose bytes are then pinned to random constants: the
symbolic result, evaluated, must equal what Python computes.  (Validates the engine; decides
no property.)"""
import math
import os
import random
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3

from symx import core, models
from symx.senv import concretise
from symx.cenv import render
from symx.values import SymBytes, SymFloat, SymInt, is_sym


def main(n, seed):
    rnd = random.Random(seed)
    bad = 0
    done = {}

    def one(k):
        nonlocal bad
        rr = random.Random(seed * 1000003 + k)
        c = core.Ctx(max_paths=1, max_seconds=20, query_ms=5000)
        env = {}

        def cells(vals):
            out = []
            for v in vals:
                nm = "v%d" % len(env)
                env[nm] = v
                out.append(z3.BitVec(nm, 8))
            return out

        def sym_int():
            w = rr.choice([1, 1, 2, 4, 8])
            sg = rr.random() < 0.5
            raw = bytes(rr.choice([0, 1, 127, 128, 255, rr.randrange(256)]) for _ in range(w))
            return int.from_bytes(raw, "little", signed=sg), SymInt.from_cells(cells(raw), sg)

        def const():
            return rr.choice([0, 1, 2, 3, 7, 8, 63, 64, 65, 255, 256, 65535, 1 << 31, 1 << 52, 1 << 62, -1, -2, -255, rr.randrange(-999, 999)])

        I = [lambda a, b: a + b, lambda a, b: a - b, lambda a, b: b - a, lambda a, b: a & b, lambda a, b: a | b,
             lambda a, b: a ^ b, lambda a, b: -a, lambda a, b: ~a, lambda a, b: abs(a), lambda a, b: a >> (b % 70),
             lambda a, b: a << (b % 20), lambda a, b: a * 3, lambda a, b: a * 45, lambda a, b: a // 7,
             lambda a, b: a % 13, lambda a, b: a // -5, lambda a, b: a % 256, lambda a, b: a % 8,
             lambda a, b: a >> 64, lambda a, b: a >> 63, lambda a, b: a >> 8]
        C = [lambda a, b: a < b, lambda a, b: a <= b, lambda a, b: a == b, lambda a, b: a != b, lambda a, b: a > b,
             lambda a, b: a >= b]

        def ints(call):
            a, sa = sym_int()
            for _ in range(rr.randrange(1, 5)):
                f = rr.choice(I)
                if rr.random() < 0.5:
                    b = sb = const()
                    if "b % 70" in "": pass
                else:
                    b, sb = sym_int()
                if f in (I[9], I[10]):
                    b = sb = abs(const()) % 70
                a, sa = f(a, b), f(sa, sb)
                if abs(a) >= 1 << 200:
                    break
            kind = rr.randrange(8)
            if kind == 0:
                f = rr.choice(C)
                b, sb = sym_int()
                return f(a, b), f(sa, sb)
            if kind == 1:
                return bin(a), call(bin, sa)
            if kind == 2:
                w = rr.choice([1, 2, 4, 8, 12])
                m = a & ((1 << (8 * w)) - 1)
                return m.to_bytes(w, "little"), call(int.to_bytes, sa & ((1 << (8 * w)) - 1), w, "little")
            if kind == 3:
                return a * (360.0 / 65536.0) if abs(a) < 1 << 40 else 0, (sa * (360.0 / 65536.0)) if abs(a) < 1 << 40 else 0
            if kind == 4 and abs(a) < 1 << 30:
                return round(a * (65536.0 / 360.0)), call(round, sa * (65536.0 / 360.0))
            if kind == 5:
                b, sb = sym_int()
                return max(a, b), call(max, sa, sb)
            if kind == 6:
                b, sb = sym_int()
                return min(a, b), call(min, sa, sb)
            return a, sa

        def floats(call):
            w = rr.choice([4, 8])
            pool = [0.0, -0.0, 1.0, -1.5, 2.0 ** 52, 2.0 ** 62, -2.0 ** 63, float("inf"), float("-inf"), float("nan"), 1e-40,
                    rr.uniform(-1e6, 1e6), rr.uniform(-360, 360)]
            v = rr.choice(pool)
            fmt = "<f" if w == 4 else "<d"
            raw = struct.pack(fmt, v)
            v = struct.unpack(fmt, raw)[0]
            s = SymFloat.from_bits32(cells(raw)) if w == 4 else SymFloat.from_bits64(cells(raw))
            k = rr.randrange(10)
            if k == 0:
                return abs(v), abs(s)
            if k == 1:
                return -v, -s
            if k == 2:
                o = rr.choice(pool)
                return v < o, s < o
            if k == 3:
                o = rr.choice(pool)
                return v == o, s == o
            if k == 4:
                try:
                    x = int(v)
                except Exception as e:
                    x = type(e).__name__
                try:
                    y = call(int, s)
                except Exception as e:
                    y = type(e).__name__
                return x, y
            if k == 5:
                return math.isfinite(v), call(math.isfinite, s)
            if k == 6:
                try:
                    x = struct.pack("<f", v)
                except Exception as e:
                    x = type(e).__name__
                try:
                    y = call(struct.pack, "<f", s)
                except Exception as e:
                    y = type(e).__name__
                if v != v:
                    return 0, 0
                return x, y
            if k == 7:
                return (struct.pack("<d", v), call(struct.pack, "<d", s)) if v == v else (0, 0)
            if k == 8:
                return v * 1, s * 1
            return v >= 2.0 ** 62, s >= (1 << 62)

        def texts(call):
            n = rr.randrange(0, 4)
            pre = rr.choice([b"", b"", b"\xff\xfe", b"\xfe\xff", b"\xef\xbb\xbf"])
            raw = pre + bytes(rr.choice([0, 0, 0x41, 0x7F, 0x80, 0xD8, 0xDC, 0xDB, 0xDF, 0xE9, rr.randrange(256)]) for _ in range(2 * n))
            s = SymBytes.mk(cells(raw))
            k = rr.randrange(7)
            enc, err = rr.choice([("utf-16-le", "strict"), ("utf-16-le", "surrogatepass"), ("ascii", "strict"), ("utf-8", "strict"),
                                  ("ascii", "surrogatepass"), ("latin-1", "strict"), ("utf-16-le", "replace"), ("ascii", "ignore"), ("utf-16-le", "ignore"), ("ascii", "replace"), ("utf-16", "strict"), ("utf-16", "strict"), ("utf-8-sig", "strict"),
                                  ("cp1252", "strict"), ("cp437", "strict"), ("utf-32-le", "strict"), ("latin-1", "strict")])

            def go(x, c):
                try:
                    return c(x)
                except Exception as e:
                    return type(e).__name__
            if k <= 2:
                return go(raw, lambda x: x.decode(enc, err)), go(s, lambda x: call(x.decode, enc, err))
            if k == 3:
                def f(x, call):
                    t = call(x.decode, "utf-16-le", "surrogatepass")
                    return call(t.encode, "utf-16-le", errors="surrogatepass")
                real = lambda f, *a, **k: f(*a, **k)
                return go(raw, lambda x: f(x, real)), go(s, lambda x: f(x, call))
            if k == 6:
                def f(x, call):
                    return call(call(x.decode, "utf-16-le", "strict").encode, enc, err)
                real = lambda f, *a, **k: f(*a, **k)
                return go(raw, lambda x: f(x, real)), go(s, lambda x: f(x, call))
            if k == 4:
                return raw.hex(), call(s.hex) if is_sym(s) else s.hex()
            import base64
            return base64.b64encode(raw), call(base64.b64encode, s)

        core.CUR = c
        c.path_state = {}

        def path():
            kind = rr.choice([ints, ints, floats, texts])
            # pin the values as they are made: run once to learn them
            st = rr.getstate()
            try:
                kind(models.call)
            except core.PathAbort:
                pass
            except BaseException:
                pass
            rr.setstate(st)
            vals = dict(env)
            env.clear()
            c.solver.reset()
            c.stack.clear()
            c.idx = 0
            c.model = None
            for nm, v in vals.items():
                c.solver.add(z3.BitVec(nm, 8) == v)
            want, got = kind(models.call)
            r = c.check()
            assert r == z3.sat, "path infeasible"
            m = c.solver.model()
            g = concretise(got, m)
            w = render(want)
            done[kind.__name__] = done.get(kind.__name__, 0) + 1
            if g != w:
                raise AssertionError("%s: want %r got %r" % (kind.__name__, w, g))
        try:
            path()
        except core.Unsupported as e:
            done["unsupported"] = done.get("unsupported", 0) + 1
        except BaseException as e:
            bad += 1
            print("case", k, type(e).__name__, e)
            if bad > 15:
                raise SystemExit(1)
    for k in range(n):
        one(k)
    print(done, "bad", bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 2000, int(sys.argv[2]) if len(sys.argv) > 2 else 1))
