"""
Monitoring harness.

A check is a set of *scenarios*.  A scenario drives the real code of /repo through its
public interface; everything it does goes through a Monitor, which records the observed
call events and decides, event by event, whether they are consistent with an oracle that
is independent of the implementation (gwv.ref) or with other events of the same history.

Every case has its own random generator derived from (VERIF_SEED, property, scenario,
index), so a violation is replayed by naming the scenario and the index.
"""
import copy
import hashlib
import json
import os
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GWV_REPO", "/repo")


def load_repo():
    """Import gwpopulation from /repo's working tree, never from stale byte code."""
    import logging

    import bilby.hyper.model  # noqa
    import jax.scipy.special  # noqa
    import jax  # noqa
    import numpyro  # noqa
    import pandas  # noqa
    import scipy.stats  # noqa
    import wcosmo.astropy  # noqa

    logging.getLogger("bilby").setLevel(logging.ERROR)
    import tempfile

    old = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "gwv-no-such-cache")
    sys.path.insert(0, REPO)
    try:
        import gwpopulation
        import gwpopulation.experimental.jax  # noqa
        import gwpopulation.experimental.cosmo_models  # noqa
        import gwpopulation.experimental.numpyro  # noqa
        import gwpopulation.models.interped  # noqa
    finally:
        sys.pycache_prefix = old
    where = os.path.realpath(gwpopulation.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"gwpopulation imported from {where}, not {REPO}")
    return gwpopulation


class Violation(Exception):
    def __init__(self, monitor, message, detail=None):
        super().__init__(f"{monitor}: {message}")
        self.monitor = monitor
        self.message = message
        self.detail = detail or {}


def brief(value, depth=0):
    """A short JSON-able description of a value."""
    import numpy as np

    if isinstance(value, dict):
        if depth > 3:
            return f"dict({len(value)})"
        return {str(k): brief(v, depth + 1) for k, v in list(value.items())[:40]}
    if isinstance(value, (list, tuple)):
        return [brief(v, depth + 1) for v in value[:12]]
    if isinstance(value, (str, bool, int, type(None))):
        return value
    if isinstance(value, float):
        return repr(value) if value != value or abs(value) == float("inf") else value
    try:
        arr = np.asarray(value)
        if arr.dtype == object:
            return str(value)[:200]
        if arr.ndim == 0:
            return brief(arr.item(), depth)
        flat = arr.ravel()
        return dict(
            shape=list(arr.shape),
            dtype=str(arr.dtype),
            head=[brief(v.item()) for v in flat[:8]],
        )
    except Exception:
        return str(value)[:200]


def to_np(value):
    import numpy as np

    return np.asarray(value, dtype=float)


class Monitor:
    """Records observed events and applies oracles to them."""

    def __init__(self):
        self.events = 0  # calls into the code under test
        self.elements = 0  # individual values compared with an oracle
        self.counts = {}  # per-monitor number of decisions
        self.distinct = set()  # hashes of distinct non-trivial observations
        self.samples = []
        self.log = []  # events of the current case
        self.notes = {}

    # -- event recording ------------------------------------------------------
    def begin(self, scenario, index):
        self.case = (scenario, index)
        self.log = []

    def call(self, label, func, *args, **kwargs):
        """Call the code under test; arguments are deep-copied so that a mutation cannot leak into the oracle."""
        self.events += 1
        entry = dict(call=label, args=brief([a for a in args]), kwargs=brief(kwargs))
        self.log.append(entry)
        args = [_clone(a) for a in args]
        kwargs = {k: _clone(v) for k, v in kwargs.items()}
        out = func(*args, **kwargs)
        entry["result"] = brief(out)
        return out

    def live(self, label, func, *args, **kwargs):
        """Call the code under test with the very objects given."""
        self.events += 1
        entry = dict(call=label, args=brief([a for a in args]), kwargs=brief(kwargs))
        self.log.append(entry)
        out = func(*args, **kwargs)
        entry["result"] = brief(out)
        return out

    def note(self, key, value=1):
        self.notes[key] = self.notes.get(key, 0) + value

    def _decide(self, label, n, nontrivial, key):
        self.counts[label] = self.counts.get(label, 0) + 1
        self.elements += n
        if nontrivial:
            h = hashlib.blake2b(digest_size=8)
            h.update(label.encode())
            h.update(key)
            self.distinct.add(h.hexdigest())
            if len(self.samples) < 6 and not any(s["monitor"] == label for s in self.samples):
                self.samples.append(
                    dict(monitor=label, case=list(self.case), events=copy.deepcopy(self.log[-2:]))
                )

    # -- oracles ----------------------------------------------------------------
    def close(self, label, got, want, rtol=1e-9, atol=0.0, where=None, **detail):
        """got equals want elementwise within rtol*|want| + atol (both may be arrays)."""
        import numpy as np

        try:
            g = to_np(got)
        except Exception as e:  # not numeric
            raise Violation(label, f"result is not numeric: {type(got)} ({e})", detail)
        w = to_np(want)
        try:
            g, w = np.broadcast_arrays(g, w) if g.shape != w.shape and w.ndim == 0 else (g, w)
        except ValueError:
            pass
        if g.shape != w.shape:
            raise Violation(label, f"shape {g.shape}, expected {w.shape}", detail)
        tol = to_np(rtol) * np.abs(w) + to_np(atol)
        with np.errstate(invalid="ignore"):
            bad = ~((np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w)))
        if where is not None:
            bad &= np.broadcast_to(where, bad.shape)
        self._decide(label, g.size, bool(np.any(np.isfinite(w) & (w != 0))), np.round(np.nan_to_num(w.ravel()[:64], posinf=9, neginf=-9), 9).tobytes())
        if np.any(bad):
            idx = tuple(int(i) for i in np.argwhere(bad)[0]) if bad.ndim else ()
            raise Violation(
                label,
                f"observed {g[idx]!r}, oracle {w[idx]!r} at {idx} ({int(bad.sum())} of {bad.size} values differ)",
                dict(detail, index=list(idx), tolerance=float(np.broadcast_to(tol, g.shape)[idx])),
            )

    def same(self, label, got, want, **detail):
        """Bitwise-equal values (NaN equal to NaN)."""
        self.close(label, got, want, rtol=0, atol=0, **detail)

    def true(self, label, cond, message="condition does not hold", nontrivial=True, key=None, **detail):
        cond = bool(cond)
        self._decide(label, 1, nontrivial, repr((self.case, len(self.log)) if key is None else key).encode())
        if not cond:
            raise Violation(label, message, detail)

    def raises(self, label, exc, func, *args, **kwargs):
        self.events += 1
        self.log.append(dict(call=label, args=brief(list(args)), kwargs=brief(kwargs)))
        try:
            out = func(*args, **kwargs)
        except exc:
            self._decide(label, 1, True, repr((brief(list(args)), brief(kwargs))).encode())
            return
        except Exception as e:
            raise Violation(label, f"raised {type(e).__name__}: {e}, expected {exc}")
        raise Violation(label, f"returned {brief(out)}, expected {exc} to be raised")


def _clone(value):
    import numpy as np
    import pandas as pd

    if isinstance(value, dict):
        return {k: _clone(v) for k, v in value.items()}
    if isinstance(value, np.ndarray):
        return value.copy()
    if isinstance(value, pd.DataFrame):
        return value.copy(deep=True)
    if isinstance(value, list):
        return [_clone(v) for v in value]
    if isinstance(value, tuple):
        return tuple(_clone(v) for v in value)
    return value


class Check:
    """
    Base class of the checks.

    scenarios: dict name -> (method name, quick count, thorough count)
    monitors: labels that must have been decided at least once, otherwise the run is
        inconclusive.
    """

    pid = None
    level = "exploration"
    rule = ""
    assumptions = []
    scenarios = {}
    max_violations = 5

    def __init__(self, gwpop, seed, tier):
        self.gw = gwpop
        self.seed = seed
        self.tier = tier
        self.mon = Monitor()

    def rng(self, scenario, index):
        import numpy as np

        return np.random.default_rng(
            [int(self.seed), zlib.crc32(self.pid.encode()), zlib.crc32(scenario.encode()), int(index)]
        )

    def setup(self):
        pass

    def teardown(self):
        pass

    def plan(self):
        out = []
        for name, (method, quick, thorough) in self.scenarios.items():
            n = quick if self.tier == "quick" else thorough
            out.append([(name, method, i) for i in range(n)])
        # round robin, so that a stop on time leaves every scenario covered
        plan, k = [], 0
        while any(k < len(o) for o in out):
            plan += [o[k] for o in out if k < len(o)]
            k += 1
        return plan

    def required(self):
        return []


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = f"{path}.{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def known_findings(pid):
    """Mechanism keys listed as open findings of a property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d["property"] == pid and d["status"] == "open":
                    out[d["key"]] = d["what"]
    return out


class KnownFinding(Exception):
    """Raised by a probe of a listed finding when the finding is observed."""

    def __init__(self, key, message):
        super().__init__(message)
        self.key = key


def run_plan(check, plan, deadline):
    """Run cases; returns (violations, known, completed)."""
    import numpy as np
    import bilby

    violations, known, done = [], {}, 0
    listed = known_findings(check.pid)
    stopped = False
    for scenario, method, index in plan:
        if time.monotonic() > deadline:
            stopped = True
            break
        rng = check.rng(scenario, index)
        np.random.seed(int(rng.integers(2**31)))
        bilby.core.utils.random.seed(int(rng.integers(2**31)))
        check.mon.begin(scenario, index)
        try:
            getattr(check, method)(rng, check.mon)
        except KnownFinding as e:
            if e.key in listed:
                known[e.key] = f"{listed[e.key]} [{e}]"
            else:
                violations.append(_record(check, scenario, index, "unlisted finding", str(e), {}))
        except Violation as e:
            violations.append(_record(check, scenario, index, e.monitor, e.message, e.detail))
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:  # the code under test must not raise inside its domain
            violations.append(
                _record(
                    check, scenario, index, "unexpected exception",
                    f"{type(e).__name__}: {e}", dict(traceback=traceback.format_exc().splitlines()[-14:]),
                )
            )
        done += 1
        if len(violations) >= check.max_violations:
            break
    return violations, known, done, stopped


def _record(check, scenario, index, monitor, message, detail):
    return dict(
        property=check.pid,
        scenario=scenario,
        index=index,
        monitor=monitor,
        message=message,
        detail=brief(detail),
        events=check.mon.log[-6:],
        replay=f"VERIF_SEED={check.seed} ./check.sh {check.pid} {check.tier} --only {scenario}:{index}",
    )
