"""C26: validation of parameters."""
import numpy as np

from .common import *


class CheckImpl(Check):
    pid = "C26"
    rule = (
        "calls of the densities, and of the models that pass parameters on by keyword, with every admissible parameter except one that is "
        "placed on the boundary or on either side of it (scalars of all number types, zero-dimensional arrays and single elements of "
        "arrays, tiny and large magnitudes, NaN), after random histories of backend switches; inadmissible calls have to raise ValueError, "
        "admissible ones have to return the reference density; non-trivial: a decided call"
    )
    assumptions = ["keyword parameters are numbers or arrays of the active backend", "parameters passed by position are not validated"]
    scenarios = {
        "density": ("s_density", 160, 6000),
        "admissible": ("s_admissible", 160, 6000),
        "models": ("s_models", 60, 1500),
        "smoothed": ("s_smoothed", 24, 400),
        "smoothed_ok": ("s_smoothed_ok", 10, 120),
        "history": ("s_history", 24, 400),
        "conditions": ("s_conditions", 30, 500),
    }

    def required(self):
        return [
            "inadmissible density refused", "admissible density accepted", "inadmissible model parameter refused", "mass outside the grid refused",
            "mass at the edge of the grid accepted", "validation follows the backend", "no validation with jax", "user condition",
        ]

    DENSITIES = {
        "beta_dist": dict(alpha="pos", beta="pos", scale="pos"),
        "powerlaw": dict(low="nonneg"),
        "truncnorm": dict(sigma="pos"),
    }

    def good(self, rng, name):
        if name == "beta_dist":
            return dict(alpha=edgy(rng, 0.2, 8, (1.0, 2.0)), beta=edgy(rng, 0.2, 8, (1.0, 2.0)), scale=edgy(rng, 0.3, 3, (1.0,)))
        if name == "powerlaw":
            low = edgy(rng, 0.01, 5, (0.0, 1.0))
            return dict(alpha=edgy(rng, -0.9 if low == 0 else -4, 4, (0.0, 1.0, 2.0)), high=low + edgy(rng, 0.5, 50), low=low)
        return dict(mu=edgy(rng, -1, 1, (0.0,)), sigma=edgy(rng, 0.1, 3, (1.0,)), high=edgy(rng, 1, 3), low=edgy(rng, -3, -1))

    @staticmethod
    def bad(rng, kind):
        v = -(10 ** rng.uniform(-12, 3))
        if kind == "pos":
            return float(pick(rng, 0.0, -0.0, v, -1.0, -1e-300, np.nan, -np.inf))
        return float(pick(rng, v, -1.0, -1e-300, np.nan, -np.inf))

    def points(self, rng, name, p, n=6):
        if name == "beta_dist":
            return rng.uniform(0.05, 0.95, n) * np.min(p["scale"]) if np.min(p["scale"]) > 0 else rng.uniform(0.05, 0.95, n)
        if name == "powerlaw":
            return rng.uniform(np.max(p["low"]), np.min(p["high"]), n)
        return rng.uniform(-0.9, 0.9, n)

    def form(self, rng, value, n, fill):
        """The value as a number, an array element, ..."""
        u = rng.random()
        if u < 0.3:
            return float(value)
        if u < 0.4:
            return np.float64(value)
        if u < 0.5 and value == int(value if np.isfinite(value) else 0.5) and abs(value) < 1e6:
            return int(value)
        if u < 0.6:
            return np.asarray(value)
        arr = np.full(n, float(fill))
        arr[int(rng.integers(n))] = value
        if u > 0.95:
            arr[:] = value
        return arr

    def s_density(self, rng, mon):
        use_backend(self, "numpy")
        name = pick(rng, *self.DENSITIES)
        func = getattr(self.gw.utils, name)
        p = self.good(rng, name)
        key = pick(rng, *self.DENSITIES[name])
        x = self.points(rng, name, p)
        if rng.random() < 0.2:
            x = float(x[0])
        fill = p[key]
        p[key] = self.form(rng, self.bad(rng, self.DENSITIES[name][key]), 6, fill)
        keys = [list(p)[k] for k in rng.permutation(len(p))]
        p = {k: p[k] for k in keys}
        mon.raises("inadmissible density refused", ValueError, lambda **q: func(x, **q), **p)
        if rng.random() < 0.3:  # the abscissa by keyword as well
            mon.raises("inadmissible density refused", ValueError, lambda **q: func(xx=x, **q), **p)
        # some of the others by position
        lead = dict(beta_dist=["alpha", "beta"], powerlaw=["alpha"], truncnorm=["mu"])[name]
        lead = lead[: lead.index(key)] if key in lead else lead
        args = [p[k] for k in lead]
        rest = {k: v for k, v in p.items() if k not in lead}
        mon.raises("inadmissible density refused", ValueError, lambda *a, **q: func(x, *a, **q), *args, **rest)

    def s_admissible(self, rng, mon):
        choose_backend(self, rng, 0.2)
        gw = self.gw
        name = pick(rng, *self.DENSITIES)
        func = getattr(gw.utils, name)
        p = self.good(rng, name)
        key = pick(rng, *self.DENSITIES[name])
        u = rng.random()
        if u < 0.25:  # just inside
            p[key] = float(10 ** rng.uniform(-6, -2)) if key != "scale" else float(10 ** rng.uniform(-6, 3))
        if name == "powerlaw" and (p["low"] == 0 or u > 0.85):
            p["low"], p["alpha"] = pick(rng, 0, 0.0, -0.0), edgy(rng, -0.9, 4, (0, 1, 2))
        x = self.points(rng, name, p)
        if name == "truncnorm":
            x = p["mu"] + p["sigma"] * rng.uniform(-2, 2, 6)
        want_p = dict(p)
        if rng.random() < 0.5:
            p[key] = self.form(rng, p[key], 6, p[key])
        if gw.utils.xp is not np and np.ndim(p[key]):
            p[key] = gw.utils.xp.asarray(p[key])
        want = getattr(ref, name)(x, **want_p)
        got = mon.call(name, lambda xx, **q: func(xx, **q), gw.utils.xp.asarray(x), **p)
        tol = 1e-6 + 20 * specs.betaln_tol()
        if name == "truncnorm":
            tol = tol + ref.truncnorm_rtol(want_p["mu"], want_p["sigma"], want_p["high"], want_p["low"])
        if name == "powerlaw":
            tol = tol + ref.powerlaw_rtol(want_p["alpha"], want_p["high"], want_p["low"])
        mon.close("admissible density accepted", got, want, rtol=tol, parameters=p, density=name)

    # -- models that pass parameters on by keyword ----------------------------------------
    MODELS = {
        "power_law_primary_mass_ratio": ("mmin",), "two_component_single": ("mmin", "sigpp"), "three_component_single": ("mmin", "sigpp_1", "sigpp_2"),
        "two_component_primary_mass_ratio": ("mmin", "sigpp"), "two_component_primary_secondary_independent": ("mmin", "sigpp"),
        "two_component_primary_secondary_identical": ("mmin", "sigpp"), "double_power_law_peak_primary_mass": ("mmin", "sigpp"),
        "gaussian_chi_eff": ("sigma_chi_eff",), "gaussian_chi_p": ("sigma_chi_p",), "iid_spin_magnitude_beta": ("amax",), "independent_spin_magnitude_beta": ("amax_1", "amax_2"),
    }

    def s_models(self, rng, mon):
        use_backend(self, "numpy")
        reg = specs.registry()
        name = pick(rng, *[k for k in self.MODELS if k in reg])
        case = reg[name](rng)
        model, p = case.build(self.gw), case.params(rng)
        data = case.data(rng, 12, p, hostile=False)
        got = mon.call(name, lambda d, q: case.call(model, d, q), data, p)
        mon.true("admissible model parameters accepted", np.all(np.isfinite(np.asarray(got))), f"{name} returned {got}", parameters=p)
        key = pick(rng, *self.MODELS[name])
        kind = "nonneg" if key == "mmin" else "pos"
        bad = self.bad(rng, kind)
        if key == "mmin" and "sigpp" not in str(sorted(p)) and not np.isfinite(bad):
            bad = -1.0
        if key == "mmin" and not np.isfinite(bad):
            bad = -2.0
        q = dict(p, **{key: bad})
        mon.raises("inadmissible model parameter refused", ValueError, lambda: case.call(model, data, q))
        got = mon.call(name, lambda d, q: case.call(model, d, q), data, p)
        mon.true("admissible model parameters accepted", np.all(np.isfinite(np.asarray(got))), f"{name} returned {got}", parameters=p)

    def smoothed(self, rng):
        name = pick(rng, *specs.SmoothedMass.CLASSES, "InterpolatedPowerlaw")
        if name == "InterpolatedPowerlaw":
            return specs.SplineMass(rng)
        return specs.SmoothedMass(rng, name, small=True)

    def s_smoothed(self, rng, mon):
        use_backend(self, "numpy")
        case = self.smoothed(rng)
        model = case.build(self.gw)
        lo, hi = float(model.mmin), float(model.mmax)
        p = case.params(rng)
        data = case.data(rng, 12, p, hostile=False)
        for which in rng.permutation(["mmin", "mmax", "both"]):
            q = dict(p)
            if which != "mmax":
                q["mmin"] = float(pick(rng, np.nextafter(lo, -np.inf), lo - 1e-9, lo * 0.999, lo / 2, 0.1))
            if which != "mmin":
                q["mmax"] = float(pick(rng, np.nextafter(hi, np.inf), hi + 1e-9, hi * 1.001, 2 * hi, np.inf))
            if rng.random() < 0.3:
                q = {k: (np.float64(v) if isinstance(v, float) else v) for k, v in q.items()}
            mon.raises("mass outside the grid refused", ValueError, lambda: case.call(model, data, q))
        got = mon.call(case.name, lambda d, q: case.call(model, d, q), data, p)
        decide_density(mon, "admissible after a refusal", case, data, p, got)

    def s_smoothed_ok(self, rng, mon):
        """Boundary values of the grid are accepted, and so is a model without these parameters."""
        choose_backend(self, rng, 0.2)
        case = self.smoothed(rng)
        model = case.build(self.gw)
        for which in ("mmin", "mmax", "both"):
            p = case.params(rng)
            if which != "mmax":
                p["mmin"] = pick(rng, float(model.mmin), np.nextafter(float(model.mmin), np.inf))
            if which != "mmin":
                p["mmax"] = pick(rng, float(model.mmax), np.nextafter(float(model.mmax), -np.inf))
            data = case.data(rng, 20, p, hostile=False)
            got = mon.call(case.name, lambda d, q: case.call(case.build(self.gw), d, q), to_backend(self.gw, data), p)
            decide_density(mon, "mass at the edge of the grid accepted", case, data, p, got)

    def s_history(self, rng, mon):
        """Validation follows the active backend through switches."""
        gw = self.gw
        for _ in range(6):
            b = pick(rng, "numpy", "jax", "numpy")
            use_backend(self, b)
            if rng.random() < 0.3:
                try:
                    gw.set_backend("no-such-backend")
                except ValueError:
                    pass
            name = pick(rng, *self.DENSITIES)
            func = getattr(gw.utils, name)
            p = self.good(rng, name)
            key = pick(rng, *self.DENSITIES[name])
            x = gw.utils.xp.asarray(self.points(rng, name, p))
            want = getattr(ref, name)(np.asarray(x), **p)
            got = mon.call(name, lambda xx, **q: func(xx, **q), x, **p)
            mon.close("admissible density accepted", got, want, rtol=1e-5, density=name, parameters=p)
            q = dict(p, **{key: self.bad(rng, self.DENSITIES[name][key])})
            if b == "numpy":
                mon.raises("validation follows the backend", ValueError, lambda **r: func(x, **r), **q)
            else:
                q[key] = gw.utils.xp.asarray(q[key])
                mon.call(name, lambda xx, **r: func(xx, **r), x, **q)
                mon.true("no validation with jax", True, key=(name, key))
                import jax

                # and the parameters can be traced, which validation would not allow
                grad = jax.jit(lambda v: func(x, **dict(p, **{key: v})))(p[key])
                mon.close("no validation with jax", grad, want, rtol=1e-5, density=name, parameters=p)
        use_backend(self, "numpy")

    def s_conditions(self, rng, mon):
        """The decorator itself with user-defined conditions."""
        from operator import ge, gt, le, lt

        use_backend(self, "numpy")
        op = pick(rng, ge, gt, le, lt)
        limit = float(rng.normal())
        calls = []

        @self.gw.utils.apply_conditions(dict(a=(op, limit), b=lambda v: v != 3))
        def mine(x, a=limit, b=0, c=1):
            """doc"""
            calls.append((x, a, b, c))
            return x + a + b + c

        mon.true("user condition", mine.__name__ == "mine" and mine.__doc__ == "doc", "metadata of the function lost", nontrivial=False)
        for _ in range(6):
            a = float(pick(rng, limit, limit + rng.normal(), np.nextafter(limit, np.inf), np.nextafter(limit, -np.inf)))
            b = pick(rng, 3, 2, 0.5)
            given = {k: v for k, v in dict(a=a, b=b, c=2.0).items() if rng.random() < 0.7}
            if "a" in given and rng.random() < 0.4:
                given["a"] = np.array([a, limit + (1 if op in (ge, gt) else -1)])
            ok = ("a" not in given or bool(np.all(op(given["a"], limit)))) and given.get("b") != 3
            n = len(calls)
            if ok:
                got = mon.call("decorated", mine, 1.0, **given)
                mon.close("user condition", got, 1.0 + np.asarray(given.get("a", limit)) + given.get("b", 0) + given.get("c", 1), rtol=1e-14)
                mon.true("user condition", len(calls) == n + 1, "function not called exactly once")
            else:
                mon.raises("user condition", ValueError, mine, 1.0, **given)
                mon.true("user condition", len(calls) == n, "function called in spite of the condition")
