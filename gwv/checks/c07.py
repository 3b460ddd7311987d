"""C07: spline models."""
import contextlib
import io

import numpy as np

from .common import *


class CheckImpl(ModelCheck):
    pid = "C07"
    rule = (
        "evaluations of the spline models (spin magnitude, tilt, generic with 1-3 columns, linear or log nodes, primary mass; nearest, "
        "linear, cubic; 4-20 nodes; node range equal to or inside the normalisation range; with and without regularisation) decided "
        "against scipy's not-a-knot spline and exact quadrature with the budget of the advertised grid, plus budget-free log ratios; "
        "non-trivial: non-zero density"
    )
    assumptions = ["regularly spaced nodes (in log for the mass model); node positions fixed over the life of one object (see known finding of C10)"]
    scenarios = {
        "magnitude": ("s_magnitude", 30, 700),
        "tilt": ("s_tilt", 30, 700),
        "generic": ("s_generic", 30, 700),
        "mass": ("s_mass", 20, 350),
        "ratio": ("s_ratio", 60, 1500),
        "integral": ("s_integral", 40, 800),
        "regularise": ("s_regularise", 40, 800),
        "more_nodes": ("s_more_nodes", 40, 800),
    }

    def required(self):
        return [
            "spin magnitude spline density", "spin tilt spline density", "generic spline density", "mass spline density", "log ratio equals spline difference",
            "unit integral", "overall scale irrelevant", "more nodes than built with", "vanishes outside the nodes",
        ]

    def call(self, case, model, data, p, mon):
        with contextlib.redirect_stdout(io.StringIO()):
            return mon.call(case.name, lambda d, q: case.call(model, d, q), to_backend(self.gw, data), p)

    def spin(self, rng, mon, which, label):
        choose_backend(self, rng)
        case = specs.SplineSpin(rng, which)
        model = case.build(self.gw)
        p = case.params(rng)
        data = case.data(rng, 160, p)
        for _ in range(3):
            got = self.call(case, model, data, p, mon)
            decide_density(mon, label, case, data, p, got)
            out = np.zeros(160, bool)
            for c in case.cols:
                out |= (data[c] < case.x[0]) | (data[c] > case.x[-1])
            mon.true("vanishes outside the nodes", np.all(np.asarray(got)[out] == 0), "non-zero density outside of the nodes", parameters=p)
            p = case.params(rng)

    def s_magnitude(self, rng, mon):
        self.spin(rng, mon, "magnitude", "spin magnitude spline density")

    def s_tilt(self, rng, mon):
        self.spin(rng, mon, "tilt", "spin tilt spline density")

    def s_generic(self, rng, mon):
        self.spin(rng, mon, "generic", "generic spline density")

    def s_mass(self, rng, mon):
        self.drive(rng, mon, specs.SplineMass(rng), label="mass spline density")

    def s_ratio(self, rng, mon):
        choose_backend(self, rng)
        if rng.random() < 0.6:
            case = specs.SplineSpin(rng, pick(rng, "magnitude", "tilt", "generic"))
            model, p = case.build(self.gw), case.params(rng)
            data = {c: np.full(100, v[0]) for c, v in case.data(rng, 1, p, hostile=False).items()}
            col = case.cols[int(rng.integers(len(case.cols)))]
            x = rng.uniform(case.x[0], case.x[-1], 100)
            x[1:1 + min(case.nodes, 40)] = case.x[:40]  # the nodes themselves
            x = np.clip(x, case.x[0], case.x[-1])
            data[col] = x
            func = np.log if case.log else np.asarray
            base = np.zeros(100)
            nodes = func(case.x)
            mass = False
        else:
            case = specs.SplineMass(rng, small=True)
            model, p = case.build(self.gw), case.params(rng)
            p.update(beta=0.0, delta_m=0.0)
            lo, hi = max(case.x[0], p["mmin"]) * 1.001, min(case.x[-1], p["mmax"]) * 0.999
            if not lo < hi:
                return
            x = rng.uniform(lo, hi, 100)
            data = dict(mass_1=x, mass_ratio=np.full(100, 1.0))
            # p(q=1 | m1) for beta=0 is 1/(1-mmin/m1)
            base = -p["alpha"] * np.log(x) - np.log1p(-p["mmin"] / x)
            func, nodes, mass = np.log, np.log(case.x), True
        f = case.values(p)
        s = ref.spline(nodes, f, case.kindi)
        got = np.asarray(self.call(case, model, data, p, mon))
        skip = case.avoid(data, p)
        mon.true("positive inside the nodes", np.all((got > 0) & np.isfinite(got)), f"{got[~(got > 0)][:3]}", parameters=p)
        want = s(func(x)) + base
        ok = ~skip & ~skip[0]
        mon.close(
            "log ratio equals spline difference", np.where(ok, np.log(got / got[0]), 0), np.where(ok, want - want[0], 0),
            rtol=0, atol=1e-8 * (1 + np.max(np.abs(f)) + np.abs(want).max() * mass), case=case.describe(), parameters=p,
        )

    def s_integral(self, rng, mon):
        use_backend(self, "numpy")
        case = specs.SplineSpin(rng, pick(rng, "magnitude", "tilt", "generic"))
        model, p = case.build(self.gw), case.params(rng)
        brk = np.sort(np.concatenate([case.x, (case.x[1:] + case.x[:-1]) / 2] + ([np.sqrt(case.x[1:] * case.x[:-1])] if case.log else [])))
        pts, w = ref.gl_points(brk, 16)
        # the integral over one column, with the others fixed, times itself: separable
        mesh = {c: pts for c in case.cols}
        got = self.call(case, model, mesh, p, mon)
        # all columns equal: p(x, x, ..) = p(x)**k
        k = len(case.cols)
        one = np.asarray(got, float) ** (1.0 / k)
        grid = np.linspace(case.lo, case.hi, 10 * case.nodes)
        val, budget = ref.spline_density(pts, case.x, case.values(p), case.kindi, grid, case.log)
        rel = np.max(budget / np.where(val > 0, val, 1))
        mon.close("unit integral", np.sum(one * w), 1.0, rtol=1e-6 + 3 * rel, case=case.describe(), parameters=p)

    def s_regularise(self, rng, mon):
        b = choose_backend(self, rng)
        case = specs.SplineSpin(rng, pick(rng, "magnitude", "tilt", "generic")) if rng.random() < 0.7 else specs.SplineMass(rng, small=True)
        case.reg = case.cfg["regularize"] = True
        p = case.params(rng)
        data = case.data(rng, 80, p, hostile=False)
        base = getattr(case, "base", "mass")
        one = self.call(case, case.build(self.gw), data, p, mon)
        scale = float(10 ** rng.uniform(-3, 3))
        q = dict(p, **{f"f{base}{i}": scale * p[f"f{base}{i}"] for i in range(case.nodes)})
        two = self.call(case, case.build(self.gw), data, q, mon)
        mon.close("overall scale irrelevant", two, np.asarray(one), rtol=1e-8, scale=scale, parameters=p)
        # and equal to the unregularised model at the rescaled values
        case.reg = case.cfg["regularize"] = False
        f = np.array([p[f"f{base}{i}"] for i in range(case.nodes)])
        f = f * p[f"rms{base}"] / np.sqrt(np.mean(f**2))
        r = {k: v for k, v in p.items() if k != f"rms{base}"}
        r.update({f"f{base}{i}": float(f[i]) for i in range(case.nodes)})
        three = self.call(case, case.build(self.gw), data, r, mon)
        mon.close("equal to the unregularised model at the rescaled values", three, np.asarray(one), rtol=1e-8, parameters=p)

    def s_more_nodes(self, rng, mon):
        choose_backend(self, rng)
        case = specs.SplineSpin(rng, pick(rng, "magnitude", "tilt", "generic"))
        model_args = dict(case.cfg)
        few = int(rng.integers(4, case.nodes + 1)) if case.nodes > 4 else 4
        cfg = dict(case.cfg, nodes=few)
        if case.which == "generic":
            small = self.gw.models.interped.InterpolatedNoBaseModelIdentical(**cfg)
        else:
            small = getattr(self.gw.models.spin, case.name)(**cfg)
        full = case.build(self.gw)
        p = case.params(rng)
        data = case.data(rng, 100, p)
        for _ in range(2):
            a = self.call(case, small, data, p, mon)
            b = self.call(case, full, data, p, mon)
            mon.close("more nodes than built with", a, np.asarray(b), rtol=1e-12, atol=1e-300, built=few, case=case.describe())
            decide_density(mon, "more nodes density", case, data, p, a)
            p = case.params(rng)
        mon.true("names follow the number of nodes", set(small.variable_names) == set(p), f"{sorted(small.variable_names)}", parameters=list(p))
