"""C02: failed backend switches."""
import importlib
import os
import sys
import time

import numpy as np

from .. import plugins
from .common import *

FAULTS = [
    "missing module", "import error", "other error", "syntax error", "missing nested module",
    "function only in scipy", "missing function", "missing function module", "array module", "special module", "cupy",
]


class CheckImpl(Check):
    pid = "C02"
    level = "fault_enumeration"
    rule = (
        "one import fault (of 11 kinds: plug-in module missing, broken in four ways, requested object or its module missing, the backend's own modules "
        "not importable, backend not installed) placed in each entry point group among 0-5 healthy plug-ins discovered before or after it, in both directions and "
        "after random histories; module attributes are compared before and after each failing call, after going back, and after removing the cause and retrying; "
        "non-trivial: a call that raised"
    )
    assumptions = ["faults are import-time faults; assignment of a module attribute cannot fail"]
    scenarios = {"faults": ("s_faults", 66, 1980)}

    def required(self):
        return ["nothing changed by a failed switch", "faulty switch raises", "switch after repair", "return to previous backend", "results unchanged", "switch from failed state"]

    def setup(self):
        self.seen = set()

    def teardown(self):
        self.gw.set_backend("numpy")

    def state(self, keys):
        return {(m, a): getattr(sys.modules.get(m), a, None) for m, a in keys}

    def probe(self, gw):
        """Values and types of a few computations with whatever the modules now hold."""
        x = np.linspace(0.05, 0.95, 7)
        u = gw.utils
        out = [u.beta_dist(u.xp.asarray(x), 2.0, 3.0, 1.0), u.truncnorm(u.xp.asarray(x), 0.3, 0.2, 1.0, 0.0)]
        out.append(gw.models.mass.two_component_single(gw.models.mass.xp.asarray(20 + x), 2.0, 5.0, 60.0, 0.1, 35.0, 3.0))
        out.append(gw.models.redshift.PowerLawRedshift().psi_of_z(gw.models.redshift.xp.asarray(x), lamb=2.0))
        return [type(o).__module__.split(".")[0] for o in out], np.array([np.asarray(o) for o in out])

    def check_all(self, mon, label, plug, backend):
        for m, a, obj in plugins.expected(plug, backend):
            got = getattr(importlib.import_module(m), a, None)
            mon.true(label, got is obj, f"{m}.{a} is {got!r} with backend {backend!r}, expected {obj!r}", key=(label, self.kind, backend, a, m.startswith("gwv")))

    def s_faults(self, rng, mon):
        gw = self.gw
        index = mon.case[1]
        self.kind = kind = FAULTS[index % len(FAULTS)]
        group = ("xp", "scs", "other")[(index // len(FAULTS)) % 3]
        target = ("jax", "numpy")[(index // (3 * len(FAULTS))) % 2]
        if kind in ("function only in scipy",):
            target = "jax"
        start = "numpy" if target == "jax" else "jax"
        for b in [pick(rng, "numpy", "jax") for _ in range(int(rng.integers(0, 3)))] + [target, start]:
            gw.set_backend(b)
        blocked = {}
        with plugins.Plugins() as plug:
            plugins.healthy(plug, rng, int(rng.integers(0, 5)))
            plug.activate("end" if rng.random() < 0.5 else "start")
            for b in (target, start):
                gw.set_backend(b)
                self.check_all(mon, "switch after repair", plug, b)
            fix = None
            if kind not in ("array module", "special module", "cupy"):
                fix = self.inject(plug, rng, kind, group)
            plug.activate("end" if rng.random() < 0.5 else "start")
            if kind == "array module":
                blocked = {plugins.ARRAY[target]: None}
            elif kind == "special module":
                blocked = {plugins.SPECIAL[target].rpartition(".")[0]: None}
            for m in {m for m, _, _ in plugins.expected_own(plug, "numpy")}:
                try:
                    importlib.import_module(m)
                except Exception:
                    pass
            keys = [(m, a) for m, a, _ in plugins.expected_own(plug, "numpy")]
            before = self.state(keys)
            values = self.probe(gw)
            name = "cupy" if kind == "cupy" else target
            for attempt in range(int(rng.integers(1, 3))):
                mon.events += 1
                mon.log.append(dict(call="set_backend", args=[name], fault=kind, group=group))
                saved = {k: sys.modules.get(k) for k in blocked}
                try:
                    sys.modules.update(blocked)
                    try:
                        gw.set_backend(name)
                        error = None
                    except Exception as e:
                        error = e
                finally:
                    sys.modules.update({k: v for k, v in saved.items() if v is not None})
                if error is None and blocked:
                    # the switch did not need the blocked import: it must have worked
                    self.check_all(mon, "switch after repair", plug, target)
                    mon.note("blocked import not needed")
                    gw.set_backend(start)
                    return
                mon.true("faulty switch raises", error is not None, f"set_backend({name!r}) returned although {kind} in {group}", key=(kind, group, target))
                after = self.state(keys)
                changed = [f"{m}.{a}" for (m, a), v in before.items() if after[m, a] is not v]
                mon.true(
                    "nothing changed by a failed switch", not changed, f"set_backend({name!r}) raised {error!r} but changed {changed}", key=(kind, group, target, len(plug.modules))
                )
                types, vals = self.probe(gw)
                mon.true("results unchanged", types == values[0] and np.array_equal(vals, values[1]), f"results changed: {types} {vals}", key=(kind, group, target))
                mon.note(f"{kind} / {group} / to {name}")
            if fix is None and kind in ("cupy",):
                # nothing to repair: the other backend must still be reachable
                gw.set_backend(target)
                self.check_all(mon, "switch from failed state", plug, target)
                gw.set_backend(start)
                self.check_all(mon, "return to previous backend", plug, start)
                return
            if rng.random() < 0.5:
                # naming the backend that is still active is allowed and changes nothing
                gw.set_backend(start)
                after = self.state(keys)
                changed = [f"{m}.{a}" for (m, a), v in before.items() if after[m, a] is not v]
                mon.true("return to previous backend", not changed, f"set_backend({start!r}) after a failed switch changed {changed}", key=(kind, group, target))
            if fix is not None:
                fix()
            mon.events += 1
            mon.log.append(dict(call="set_backend", args=[target], fault="repaired"))
            gw.set_backend(target)
            self.check_all(mon, "switch after repair", plug, target)
            gw.set_backend(start)
            self.check_all(mon, "return to previous backend", plug, start)

    def inject(self, plug, rng, kind, group):
        """Add a faulty entry; returns the function that removes the cause."""
        good = "import numpy as xp\n"
        func = list(plugins.OTHERS)[int(rng.integers(len(plugins.OTHERS)))]
        if kind in ("function only in scipy", "missing function", "missing function module"):
            full, file, path = plug.module(good)
            bad = {
                "function only in scipy": pick(rng, *plugins.ONLY_SCIPY),
                "missing function": "scipy.linalg.no_such_function",
                "missing function module": "scipy.nosuchmodule.func",
            }[kind]
            # entries before and after the broken one, for the same and another module
            full2, _, _ = plug.module(good, path=path)
            entries = [(f"a_{full}", f"{full}:{func}"), (f"m_{full}", f"{full}:{bad}"), (f"z_{full}", f"{full2}:{func}")]
            plug.dist(path, {"xp": [(f"b_{full}", full2)], "other": entries}, f"faulty{full}")
            plug.entries["xp"].append(full2)
            plug.entries["other"] += [(full, func), (full2, func)]
            info = os.path.join(path, f"faulty{full}-1.0.dist-info", "entry_points.txt")

            def fix():
                text = open(info).read().replace(bad, "scipy.linalg.toeplitz")
                # a different length of the path is enough for the caches of importlib.metadata: they are keyed on the directory
                with open(info, "w") as f:
                    f.write(text)
                plug.entries["other"].append((full, "scipy.linalg.toeplitz"))
                importlib.invalidate_caches()

            return fix
        body = {
            "missing module": None, "missing nested module": "import gwv_no_such_dependency\n", "import error": "raise ImportError('broken plug-in')\n",
            "other error": "xp = None\nraise RuntimeError('broken plug-in')\n", "syntax error": "def f(:\n",
        }[kind]
        full, file, path = plug.module(body)
        value = full if group != "other" else f"{full}:{func}"
        plug.dist(path, {group: [(f"{'amz'[int(rng.integers(3))]}_{full}", value)]}, f"faulty{full}")
        plug.entries[group].append(full if group != "other" else (full, func))

        def fix():
            with open(file, "w") as f:
                f.write(good + "# repaired\n")
            importlib.invalidate_caches()

        return fix
