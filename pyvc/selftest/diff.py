"""Cross-check of the interpreter: the executable contracts run on the *interpreted* modules
(concrete values) must hold just as they do on the modules CPython runs.

usage: python -m pyvc.selftest.diff [real|proxy] C01 C02 ...
"""
import importlib
import sys
import types


def install(mode="real"):
    from pyvc.interp import Interp
    import jax
    import jax.numpy as jnp
    ov = {"jax": jax, "jax.numpy": jnp, "jax.tree_util": jax.tree_util} if mode == "real" else {}
    it = Interp(overrides=ov)
    pkg = types.ModuleType("mpllayout")
    pkg.__path__ = []
    sys.modules["mpllayout"] = pkg
    for n in ("containers", "primitives", "constructions", "constraints", "layout", "solver",
              "matplotlibutils", "ui", "geometry"):
        ns = it.load(n)
        m = types.ModuleType("mpllayout." + n)
        m.__dict__.update(ns.__dict__)
        m.__dict__["__name__"] = "mpllayout." + n
        sys.modules["mpllayout." + n] = m
        setattr(pkg, n, m)
        # functions look names up in the namespace of the interpreter: keep one namespace
        ns.__dict__.update(m.__dict__)
    return it


WHERE = {"trees": range(1, 7), "cons": range(7, 12), "resid": range(12, 16),
         "lay": range(16, 20), "mpl": range(20, 23)}


def main(argv):
    mode = argv[0] if argv and argv[0] in ("real", "proxy") else "real"
    ids = [a for a in argv if a.startswith("C")] or [f"C{i:02d}" for i in range(1, 23)]
    install(mode)
    from pyvc.falsify import base
    bad = 0
    for mod, rng in WHERE.items():
        want = [i for i in ids if int(i[1:]) in rng]
        if not want:
            continue
        m = importlib.import_module("pyvc.falsify." + mod)
        for i in want:
            fails, n = base.search(getattr(m, i), 1, "quick", 60)
            print(i, n, "ok" if not fails else "FAIL")
            for f in fails:
                bad += 1
                print("   ", f["case"], f["message"][:300])
                print(f["inputs"].get("traceback", "")[-900:])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
