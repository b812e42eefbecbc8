"""Concrete evaluation of the contracts on the real package (no engine involved).

Each case is a function of a seeded random generator: it builds an input, runs the real code
and evaluates the property's contract on the outcome.  A failed contract raises `Fail`.
"""
from __future__ import annotations

import random
import time
import traceback


class Fail(Exception):
    def __init__(self, msg, **inputs):
        super().__init__(msg)
        self.inputs = inputs


def need(cond, msg, **inputs):
    if not cond:
        raise Fail(msg, **inputs)


def raises(exc, fn, *args, **kw):
    """None when fn raises exc; otherwise a description of what happened instead."""
    try:
        r = fn(*args, **kw)
    except exc:
        return None
    except Exception as e:
        return f"raised {type(e).__name__}: {e}"
    return f"returned {r!r}"[:300]


class Case:
    def __init__(self, name, fn, quick=40, thorough=400, known=None):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.known = known          # id of a known finding this case demonstrates


def run_case(case, seed, k):
    """None or a dict describing the failure."""
    rng = random.Random(f"{case.name}:{seed}:{k}")
    rng.k = k
    try:
        case.fn(rng)
    except Fail as f:
        return {"case": case.name, "k": k, "seed": seed, "message": str(f),
                "inputs": {a: repr(b)[:2000] for a, b in f.inputs.items()}}
    except Exception as e:
        return {"case": case.name, "k": k, "seed": seed,
                "message": f"unexpected {type(e).__name__}: {e}",
                "inputs": {"traceback": traceback.format_exc()[-3000:]}}
    return None


def search(cases, seed, tier, seconds):
    """First failure of every case (known-finding cases apart) and the number of inputs run."""
    fails, n = [], 0
    t0 = time.time()
    todo = [(c, getattr(c, tier)) for c in cases if c.known is None]
    rounds = max([q for _, q in todo], default=0)
    dead = set()
    for k in range(rounds):
        for c, q in todo:
            if k >= q or c.name in dead:
                continue
            if k > 0 and time.time() - t0 > seconds:
                return fails, n
            n += 1
            r = run_case(c, seed, k)
            if r is not None:
                fails.append(r)
                dead.add(c.name)
    return fails, n
