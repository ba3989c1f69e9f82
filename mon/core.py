"""Monitor object: counts what was observed, compares it with an oracle, keeps witnesses.

A verdict is three-valued.  `check` records one oracle decision on one observed
event; a decision that fails is a violation with a witness.  A case whose
monitors recorded nothing is inconclusive, never "held".
"""
import hashlib
import json
import traceback

import numpy as np


class Inconclusive(Exception):
    """The workload did not produce the events that the oracle needs."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 12:
            return {"shape": list(x.shape), "min": float(np.nanmin(x)) if x.size else None,
                    "max": float(np.nanmax(x)) if x.size else None}
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


class Monitor:
    def __init__(self, prop, case):
        self.prop, self.case = prop, case
        self.events = {}       # rule -> number of oracle decisions
        self.worst = {}        # rule -> largest observed error / tolerance
        self.viol = []         # list of dict
        self.known = []        # (key, text)
        self.states = set()    # distinct observed states (hashes)
        self.notes = {}

    # -- recording -----------------------------------------------------------
    def state(self, *parts):
        """Remember one distinct observed state (rounded numbers)."""
        h = hashlib.sha1()
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.round(np.asarray(p, float), 9).tobytes())
            else:
                h.update(repr(p).encode())
        self.states.add(h.hexdigest()[:16])

    def fail(self, rule, **witness):
        self.events[rule] = self.events.get(rule, 0) + 1
        if len(self.viol) < 20:
            self.viol.append({"rule": rule, "witness": jsonable(witness)})

    def ok(self, rule, cond, **witness):
        self.events[rule] = self.events.get(rule, 0) + 1
        if not bool(cond):
            if len(self.viol) < 20:
                self.viol.append({"rule": rule, "witness": jsonable(witness)})
            return False
        return True

    def close(self, rule, got, want, rtol=0.0, atol=0.0, scale=None, **witness):
        """|got-want| <= atol + rtol*scale, elementwise max; scale defaults to max|want|."""
        self.events[rule] = self.events.get(rule, 0) + 1
        try:
            g, w = np.asarray(got, float), np.asarray(want, float)
            if g.shape != w.shape and g.size != 1 and w.size != 1:
                raise ValueError("shape %s != %s" % (g.shape, w.shape))
            if g.size == 0:
                raise ValueError("empty")
            err = float(np.max(np.abs(g - w))) if np.all(np.isfinite(g)) and np.all(np.isfinite(w)) else float("inf")
            s = float(np.max(np.abs(w))) if scale is None else float(scale)
        except Exception as e:  # shape or type of a result is wrong
            if len(self.viol) < 20:
                self.viol.append({"rule": rule, "witness": jsonable(dict(witness, problem=str(e)))})
            return False
        tol = atol + rtol * s
        ratio = err / tol if tol > 0 else (0.0 if err == 0 else float("inf"))
        if ratio > self.worst.get(rule, 0.0):
            self.worst[rule] = ratio
        if not ratio <= 1.0:
            if len(self.viol) < 20:
                self.viol.append({"rule": rule, "witness": jsonable(
                    dict(witness, error=err, tol=tol, got=g, want=w))})
            return False
        return True

    def raised(self, rule, exc, **witness):
        self.fail(rule, exception=type(exc).__name__ + ": " + str(exc)[:300],
                  traceback=traceback.format_exc()[-1200:], **witness)

    def known_finding(self, key, text):
        self.events["known:" + key] = self.events.get("known:" + key, 0) + 1
        if (key, text) not in self.known:
            self.known.append((key, text))

    def pack(self):
        return {"events": self.events, "worst": self.worst, "viol": self.viol, "known": self.known,
                "states": sorted(self.states), "notes": jsonable(self.notes)}


def canon(case):
    return json.dumps(case, sort_keys=True, default=repr)
