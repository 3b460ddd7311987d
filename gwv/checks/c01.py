"""C01: backend switching."""
import json
import os
import subprocess
import sys
import textwrap

import numpy as np

from .. import core, plugins
from .common import *

FRESH = textwrap.dedent(
    """
    import json, sys, logging
    sys.path.insert(0, sys.argv[1])
    history = json.loads(sys.argv[2])
    import bilby.hyper.model, pandas, scipy.special, numpy as np, cached_interpolate, wcosmo.astropy
    sys.pycache_prefix = "/tmp/gwv-no-such-cache"
    import gwpopulation
    sys.pycache_prefix = None
    out = []
    def look():
        import gwpopulation.experimental.cosmo_models as cm
        xps = [gwpopulation.hyperpe, gwpopulation.models.interped, gwpopulation.models.mass, gwpopulation.models.redshift,
               gwpopulation.models.spin, gwpopulation.utils, gwpopulation.vt, cm]
        r = dict(xp=sorted({m.xp.__name__ for m in xps}), scs=sorted({m.scs.__name__ for m in (gwpopulation.models.mass, gwpopulation.utils)}))
        xp = gwpopulation.utils.xp
        m = gwpopulation.models.mass.SinglePeakSmoothedMassDistribution(normalization_shape=(200, 100))
        d = dict(mass_1=xp.asarray(np.array([10.1, 35.7])), mass_ratio=xp.asarray(np.array([0.71, 0.93])))
        v = m(d, alpha=2.3, beta=1.1, mmin=5.2, mmax=80., lam=0.1, mpp=33.1, sigpp=4.2, delta_m=3.1)
        z = gwpopulation.models.redshift.PowerLawRedshift()(dict(redshift=xp.asarray(np.array([0.31, 1.12]))), lamb=2.7)
        r.update(type=type(v).__module__.split(".")[0], dtype=[str(v.dtype), str(z.dtype)], value=[float(a) for a in v] + [float(a) for a in z])
        return r
    for b in history:
        try:
            gwpopulation.set_backend(b)
            out.append(dict(backend=b, ok=True, state=look()))
        except Exception as e:
            out.append(dict(backend=b, ok=False, error=type(e).__name__, state=look()))
    print("RESULT " + json.dumps(out))
    """
)


class CheckImpl(Check):
    pid = "C01"
    rule = (
        "histories of set_backend calls (numpy, jax, repeated, unsupported names, cupy which is not installed) with random real plug-in "
        "distributions registered; after every call every registered module's attributes are compared with the objects of the backend named by the last "
        "successful call; non-trivial: a call after which at least one module attribute had to change"
    )
    assumptions = ["cupy is not installed here: switching to it is only seen failing", "plug-ins are installed before the switch that is to reach them"]
    scenarios = {"histories": ("s_histories", 50, 1500), "fresh": ("s_fresh", 1, 12), "objects": ("s_objects", 10, 600)}

    def required(self):
        return ["registered attribute", "unsupported backend raises", "array type", "64-bit precision", "nothing changed by a refused call", "fresh process state", "modules_to_update lists every entry"]

    def teardown(self):
        self.gw.set_backend("numpy")

    def state(self, plug):
        import importlib
        from importlib.metadata import entry_points

        keys = [(m, a) for m, a, _ in plugins.expected(plug, "numpy")]
        return {(m, a): getattr(importlib.import_module(m), a, None) for m, a in keys}

    def confirm(self, mon, plug, backend, changed):
        import importlib

        for m, a, obj in plugins.expected(plug, backend):
            got = getattr(importlib.import_module(m), a, None)
            mon.true(
                "registered attribute", got is obj, f"{m}.{a} is {got!r} after set_backend({backend!r}), expected {obj!r}", nontrivial=changed, key=(m.split(".")[0], a, backend)
            )

    def s_histories(self, rng, mon):
        gw = self.gw
        with plugins.Plugins() as plug:
            plugins.healthy(plug, rng)
            plug.activate("end" if rng.random() < 0.5 else "start")
            other = "jax" if gw.backend.__backend__ == "numpy" else "numpy"
            xps, scss, others = gw.backend.modules_to_update()
            mon.true(
                "modules_to_update lists every entry",
                set(plugins.OWN_XP) | set(plug.entries["xp"]) <= set(xps) and set(plugins.OWN_SCS) | set(plug.entries["scs"]) <= set(scss) and {m for m, _ in plug.entries["other"]} <= set(others),
                f"xp: {xps}, scs: {scss}, other: {others}",
            )
            steps = [other] + [pick(rng, "numpy", "jax", "numpy", "jax", "cupy", "torch", "", "NumPy", "jax.numpy", None) for _ in range(int(rng.integers(3, 9)))]
            current = gw.backend.__backend__
            for b in steps:
                before = self.state(plug)
                mon.events += 1
                mon.log.append(dict(call="set_backend", args=[str(b)]))
                try:
                    gw.set_backend(b)
                    error = None
                except Exception as e:
                    error = e
                if b in ("numpy", "jax"):
                    if error is not None:
                        raise Violation("installed backend is accepted", f"set_backend({b!r}) raised {type(error).__name__}: {error}")
                    self.confirm(mon, plug, b, b != current)
                    current = b
                else:
                    if b == "cupy":
                        mon.true("missing backend raises", isinstance(error, ImportError), f"set_backend('cupy') gave {error!r}", key=(current, "cupy"))
                    else:
                        mon.true("unsupported backend raises", isinstance(error, ValueError), f"set_backend({b!r}) gave {error!r}", key=(b, current))
                    after = self.state(plug)
                    changed = [k for k in before if before[k] is not after[k]]
                    mon.true("nothing changed by a refused call", not changed, f"{changed} changed by set_backend({b!r})", key=(str(b), current))
                    if b != "cupy":
                        mon.true("name unchanged by a refused call", gw.backend.__backend__ == current, key=(b, current), nontrivial=False)

    def s_objects(self, rng, mon):
        """Objects built after a switch compute with that backend."""
        import jax

        from .. import catalog

        gw = self.gw
        for b in [pick(rng, "numpy", "jax") for _ in range(2)] + ["numpy", "jax"]:
            mon.call("set_backend", gw.set_backend, b)
            kind = jax.Array if b == "jax" else np.ndarray
            name = pick(rng, *list(specs.registry()))
            specs.ACTIVE["backend"] = b
            case = specs.registry()[name](rng)
            p = case.params(rng)
            d = to_backend(gw, case.data(rng, 20, p, hostile=False))
            got = mon.call(name, lambda d, p: case.call(case.build(gw), d, p), d, p)
            mon.true("array type", isinstance(got, kind), f"{name} returned {type(got)} with backend {b}", key=(name, b))
            mon.true("64-bit precision", str(got.dtype) == "float64", f"{name} returned {got.dtype} with backend {b}", key=(name, b))
            w = catalog.World(gw, rng, conversion=False)
            for k, v in w.lik.data.items():
                mon.true("array type", isinstance(v, kind), f"likelihood data {k} is {type(v)} with backend {b}", key=("data", b))
            q, _ = w.params(rng)
            lnl, var = mon.call("ln_likelihood_and_variance", w.lik.ln_likelihood_and_variance, q)
            mon.true("array type", isinstance(lnl, (float, np.floating, kind)), f"likelihood is {type(lnl)} with backend {b}", key=("lnl", b))
            mon.true("64-bit precision", str(getattr(lnl, "dtype", "float64")) == "float64", f"likelihood has dtype {getattr(lnl, 'dtype', None)} with {b}", key=("lnl", b))

    HISTORIES = [["jax"], ["cupy", "jax", "numpy"], ["numpy", "jax", "jax"], ["jax", "numpy", "jax"], ["nope", "numpy", "jax", "cupy"], ["jax", "cupy", "numpy", "nope", "jax"]]

    def s_fresh(self, rng, mon):
        """The same in processes in which nothing but gwpopulation has been imported."""
        histories = list(self.HISTORIES)
        if mon.case[1] > 0:
            histories = [[pick(rng, "numpy", "jax", "cupy", "nope") for _ in range(6)] + ["numpy", "jax"] for _ in range(4)]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("JAX_ENABLE_X64", None)
        procs = []
        for history in histories:
            mon.events += 1
            mon.log.append(dict(call="fresh process", args=history))
            procs.append(
                subprocess.Popen(
                    [sys.executable, "-W", "ignore", "-c", FRESH, core.REPO, json.dumps(history)],
                    stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=core.VERIF,
                )
            )
        outs = [p.communicate(timeout=600) for p in procs]
        for history, (stdout, stderr) in zip(histories, outs):
            self.judge(mon, history, stdout.decode(), stderr.decode())

    def judge(self, mon, history, stdout, stderr):
        lines = [l for l in stdout.splitlines() if l.startswith("RESULT ")]
        if not lines:
            raise Violation("fresh process state", f"history {history}: " + stderr[-600:])
        want = "numpy"
        for b, r in zip(history, json.loads(lines[0][7:])):
            if b in ("numpy", "jax"):
                mon.true("installed backend is accepted", r["ok"], f"{b}: {r}")
                want = b
            else:
                mon.true("refused in a fresh process", not r["ok"], f"{b}: {r}")
                if b == "nope":
                    mon.true("unsupported backend raises", r["error"] == "ValueError", f"{b}: {r}")
            s = r["state"]
            ok = s["xp"] == [plugins.ARRAY[want]] and s["scs"] == [plugins.SPECIAL[want]] and s["dtype"] == ["float64", "float64"]
            ok &= s["type"] == "numpy" if want == "numpy" else s["type"] in ("jax", "jaxlib")
            mon.true("fresh process state", ok, f"after {b!r} in {history}: {s}, expected backend {want}", key=(tuple(history), b))
            self.first = getattr(self, "first", None) or s["value"]
            mon.close("fresh process values", s["value"], self.first, rtol=1e-9)
