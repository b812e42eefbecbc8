"""Which modules decide which property."""

FALSIFIERS = {
    **{f"C{i:02d}": "trees" for i in range(1, 7)},
    **{f"C{i:02d}": "cons" for i in range(7, 12)},
    **{f"C{i:02d}": "resid" for i in range(12, 16)},
    **{f"C{i:02d}": "lay" for i in range(16, 20)},
    **{f"C{i:02d}": "mpl" for i in range(20, 23)},
}

# wall-clock limits in seconds: (proof, bounded stand-in, extra search after a refutation)
LIMITS = {"quick": (420, 60, 60), "thorough": (780, 400, 90)}

TRUSTED = [
    "pyvc: the interpreter of Python's AST, its path exploration and loop rules "
    "(/verif/pyvc; cross-checked against CPython by pyvc.selftest.diff)",
    "z3 4.x, and cvc5 where it is named as the back end of an obligation",
    "CPython executes the concrete parts of a path: classes, descriptors, exceptions, "
    "containers of concrete size, numpy arrays of dtype object",
    "floating-point numbers are treated as exact real numbers; nan and infinities are excluded",
]
