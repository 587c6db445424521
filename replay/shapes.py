"""Result shapes of the functions of the package, seen while the solvers run on a few ordinary problems.

usage: shapes.py SOLVER...   prints {solver: {M: {"module.function": [shapes]}}}
"""
import json
import os
import signal
import sys
import warnings

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
sys.path.insert(0, os.path.join(os.environ.get("LH_REPO", "/repo"), "src"))
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
import lamberthub as L  # noqa: E402


def shape(v):
    if v is None:
        return ["n"]
    if isinstance(v, (bool, np.bool_)):
        return ["b"]
    if isinstance(v, (int, np.integer)):
        return ["i"]
    if isinstance(v, (float, np.floating)):
        return ["f"]
    if isinstance(v, (complex, np.complexfloating)):
        return ["c"]
    if type(v) is tuple:
        return ["t", [shape(t) for t in v]]
    if type(v) is list:
        e = None
        for t in v:
            e = shape(t) if e is None else join(e, shape(t))
        return ["l", [len(v)], e]
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return shape(v[()])
    if isinstance(v, np.ndarray) and v.ndim == 1 and v.dtype.kind in "fci":
        return ["a", "f" if v.dtype.kind == "i" else v.dtype.kind, len(v)]
    return ["?"]


def join(a, b):
    if a == b:
        return a
    if a[0] == b[0] == "t" and len(a[1]) == len(b[1]):
        return ["t", [join(x, y) for x, y in zip(a[1], b[1])]]
    if a[0] == b[0] == "l":
        e = a[2] if b[2] is None else b[2] if a[2] is None else join(a[2], b[2])
        return ["l", sorted(set(a[1]) | set(b[1])), e]
    if a[0] in "fi" and b[0] in "fi":
        return ["f"]
    if a[0] in "fic" and b[0] in "fic":
        return ["c"]
    if a[0] == b[0] == "a" and a[2] == b[2]:
        return ["a", "c" if "c" in (a[1], b[1]) else "f", a[2]]
    return ["?"]


class Late(Exception):
    pass


def late(*a):
    raise Late()


def main():
    signal.signal(signal.SIGALRM, late)
    base = os.path.realpath(os.path.dirname(L.__file__))
    names = {}
    out = {}
    cur = {}

    def prof(frame, event, arg):
        if event != "return":
            return
        co = frame.f_code
        n = names.get(co)
        if n is None:
            f = os.path.realpath(co.co_filename)
            n = ""
            if f.startswith(base) and co.co_qualname.isidentifier():
                rel = os.path.relpath(f, os.path.dirname(base))[:-3].replace(os.sep, ".")
                n = (rel[:-9] if rel.endswith(".__init__") else rel) + "." + co.co_name
            names[co] = n
        if n and arg is not None:
            s = shape(arg)
            cur[n] = join(cur[n], s) if n in cur else s
    r1, r2 = np.array([5.0, 1.0, 3.0]), np.array([-2.0, 7.0, 1.0])
    r3 = np.array([4.0, 3.0, 2.0])
    for s in sys.argv[1:]:
        out[s] = {}
        for M in (0, 1, 2):
            cur = out[s][M] = {}
            for b in (r2, r3):
                for t in ((1.0, 8.0, 40.0) if M == 0 else (150.0, 400.0)):
                    for pro in (True, False):
                        for low in (True, False):
                            signal.alarm(3)
                            sys.setprofile(prof)
                            try:
                                getattr(L, s)(5.0, r1, b, t, M=M, is_prograde=pro, is_low_path=low)
                            except Exception:
                                pass
                            finally:
                                sys.setprofile(None)
                                signal.alarm(0)
    print(json.dumps(out))


main()
