"""C06: smoothed mass models."""
import numpy as np

from .common import *

CLASSES = list(specs.SmoothedMass.CLASSES)


class CheckImpl(ModelCheck):
    pid = "C06"
    rule = (
        "evaluations of the smoothed mass models (four classes and user-defined subclasses; random grids, caching modes, window widths "
        "from 0 to 10; several evaluations per object) decided against exact quadrature with the error budget of the advertised grid, "
        "plus budget-free ratios in mass ratio at fixed primary mass and integrals of observed values; non-trivial: non-zero density"
    )
    assumptions = [
        "values where the grid error of the normalisation exceeds 20% are not decided",
        "tolerance is three times the deviation of a trapezoid on the advertised grid from exact quadrature",
    ]
    scenarios = {
        **{c: (f"s_{c}", 14, 260) for c in CLASSES},
        "ratio": ("s_ratio", 40, 800),
        "window": ("s_window", 60, 1500),
        "delta_zero": ("s_delta_zero", 40, 600),
        "integral": ("s_integral", 14, 200),
        "marginal": ("s_marginal", 14, 200),
        "subclass": ("s_subclass", 16, 300),
    }

    def required(self):
        return [f"{c} density" for c in CLASSES] + [
            "mass-ratio shape at fixed primary mass", "low-mass window", "unsmoothed model at delta_m=0", "unit integral",
            "mass-ratio integral at fixed primary mass", "user-defined subclass density", "vanishes outside",
        ]

    def __getattr__(self, name):
        if name.startswith("s_") and name[2:] in CLASSES:
            return lambda rng, mon: self.smoothed(rng, mon, name[2:])
        raise AttributeError(name)

    def smoothed(self, rng, mon, cls):
        choose_backend(self, rng, 0.3)
        case = specs.SmoothedMass(rng, cls)
        model = case.build(self.gw)
        p = case.params(rng)
        data = case.data(rng, 200, p)
        for k in range(4):
            got = mon.call(cls, lambda d, q: case.call(model, d, q), to_backend(self.gw, data), p)
            decide_density(mon, f"{cls} density", case, data, p, got)
            g = np.asarray(got)
            m2 = data["mass_1"] * data["mass_ratio"]
            out = (m2 < p["mmin"] * (1 - 1e-12)) | (data["mass_ratio"] > 1) | (data["mass_1"] > case.mmax) | (data["mass_1"] < p["mmin"] * (1 - 1e-12))
            mon.true("vanishes outside", np.all(g[out] == 0), f"non-zero density outside: {g[out][g[out] != 0][:3]}", parameters=p)
            p = case.params(rng)
            if not case.cache:
                data = case.data(rng, int(rng.integers(20, 240)) if self.gw.utils.xp is np else 200, p)

    def s_ratio(self, rng, mon):
        """p(m1, q) / p(m1, q0) does not involve any normalisation."""
        choose_backend(self, rng, 0.2)
        case = specs.SmoothedMass(rng, pick(rng, *CLASSES), small=True)
        model, p = case.build(self.gw), case.params(rng)
        hi = min(case.mmax, p["mmax"])
        m1 = float(rng.uniform(p["mmin"] * 1.3 + 0.5, 0.95 * hi))
        q0 = p["mmin"] / m1 + (1 - p["mmin"] / m1) * 0.7
        q = np.concatenate([[q0], specs.AnalyticMass._q(rng, 119, np.full(119, p["mmin"] / m1), True)])
        data = dict(mass_1=np.full(120, m1), mass_ratio=q)
        got = np.asarray(mon.call(case.name, lambda d, v: case.call(model, d, v), to_backend(self.gw, data), p))
        inside = (q >= p["mmin"] / m1) & (q <= 1)
        shape = np.where(inside, q, 1.0) ** p["beta"] * ref.window(m1 * q, p["mmin"], p["delta_m"]) * inside
        if not (got[0] > 1e-200 and shape[0] > 1e-30):
            mon.note("ratio case without support")
            return
        want = shape / shape[0]
        # the window is cut off within 1e-6 delta_m of its edges
        skip = np.abs(m1 * q - p["mmin"]) < 3e-6 * max(p["delta_m"], 1e-6)
        mon.close("mass-ratio shape at fixed primary mass", np.where(skip, 0, got / got[0]), np.where(skip, 0, want), rtol=1e-6 + ref.window_rtol(m1 * q, p["mmin"], p["delta_m"]) + ref.window_rtol(m1 * q0, p["mmin"], p["delta_m"]), atol=1e-100, parameters=p, m1=m1)

    def s_window(self, rng, mon):
        b = choose_backend(self, rng, 0.3)
        cls = self.gw.models.mass.BaseSmoothedMassDistribution
        mmin, delta = edgy(rng, 1, 20, (2.0, 5.0)), pick(rng, edgy(rng, 0.01, 12, (0.0, 1.0, 5.0), 0.4), float(10 ** rng.uniform(-4, 0)))
        top = edgy(rng, 40, 120, (100.0,))
        m = specs.strata(rng, 120, mmin, mmin + max(delta, 1.0), [mmin + delta / 2])
        m[:20] = rng.uniform(0.5, 130, 20)
        m[20] = top
        m[21:60] = mmin + delta * rng.uniform(0.01, 1.1, 39)
        got = np.asarray(mon.call("smoothing", cls.smoothing, self.gw.utils.xp.asarray(m), mmin=mmin, mmax=top, delta_m=delta))
        want = ref.window(m, mmin, delta) * (m <= top)
        t = (m - mmin) / max(delta, 1e-300)
        skip = (np.abs(t) < 2e-6) | (np.abs(t - 1) < 2e-6) & False
        if delta == 0:  # without smoothing the limits are those of the model itself
            skip |= (m <= mmin) | (m > top)
        mon.close("low-mass window", np.where(skip, 0, got), np.where(skip, 0, want), rtol=1e-8 + ref.window_rtol(m, mmin, delta), atol=1e-100, mmin=mmin, delta_m=delta)

    def s_delta_zero(self, rng, mon):
        choose_backend(self, rng, 0.3)
        case = specs.SmoothedMass(rng, pick(rng, *CLASSES), small=True)
        model, p = case.build(self.gw), case.params(rng)
        p["delta_m"] = pick(rng, 0, 0.0)
        data = case.data(rng, 160, p)
        got = mon.call(case.name, lambda d, v: case.call(model, d, v), to_backend(self.gw, data), p)
        decide_density(mon, "unsmoothed model at delta_m=0", case, data, p, got)

    def s_integral(self, rng, mon):
        use_backend(self, "numpy")
        case = specs.SmoothedMass(rng, pick(rng, *CLASSES))
        case.shape = (1000, 500)
        case.cfg["normalization_shape"], case.default = case.shape, False
        model, p = case.build(self.gw), case.params(rng, smooth=True)
        p["delta_m"], p["beta"] = edgy(rng, 1, 8), edgy(rng, -1, 4)
        m, w = ref.gl_points(ref.mass_breaks(case.kind, p, case.mmax, p["delta_m"]), 16)
        keep = m > p["mmin"] * 1.0000001
        m, w = m[keep], w[keep]
        x, wx = np.polynomial.legendre.leggauss(48)
        low = p["mmin"] / m
        q = low[:, None] + (1 - low)[:, None] * (x + 1) / 2
        wq = (1 - low)[:, None] * wx / 2
        d = dict(mass_1=np.broadcast_to(m[:, None], q.shape).copy(), mass_ratio=q)
        got = mon.call(case.name, lambda a, b: case.call(model, a, b), d, p)
        mon.close("unit integral", np.sum(got * wq * w[:, None]), 1.0, rtol=2e-2, case=case.describe(), parameters=p)

    def s_marginal(self, rng, mon):
        """At each primary mass the observed values integrate over mass ratio to the primary density."""
        use_backend(self, "numpy")
        case = specs.SmoothedMass(rng, pick(rng, *CLASSES))
        model, p = case.build(self.gw), case.params(rng, smooth=True)
        hi = min(case.mmax, p["mmax"])
        m = np.sort(rng.uniform(p["mmin"] + 0.3 * p["delta_m"] + 1, max(0.95 * hi, p["mmin"] + 0.3 * p["delta_m"] + 2), 12))
        x, wx = np.polynomial.legendre.leggauss(96)
        low = p["mmin"] / m
        knee = np.minimum(1.0, (p["mmin"] + p["delta_m"]) / m)
        pts = [(low, knee)] + [(knee, np.ones_like(knee))]
        total = 0
        d = dict(mass_1=[], mass_ratio=[])
        ws = []
        for lo, up in pts:
            q = 0.5 * (lo + up)[:, None] + 0.5 * (up - lo)[:, None] * x
            d["mass_1"].append(np.broadcast_to(m[:, None], q.shape))
            d["mass_ratio"].append(q)
            ws.append(0.5 * (up - lo)[:, None] * wx)
        d = {k: np.concatenate(v, axis=1) for k, v in d.items()}
        ws = np.concatenate(ws, axis=1)
        got = mon.call(case.name, lambda a, b: case.call(model, a, b), d, p)
        total = np.sum(got * ws, axis=1)
        want, budget = case.ref(d, p)
        expect = np.sum(want * ws, axis=1)
        mon.close("mass-ratio integral at fixed primary mass", total, expect, rtol=1e-6, atol=3 * np.sum(budget * ws, axis=1), where=np.sum(budget * ws, axis=1) < 0.2 * expect, parameters=p, case=case.describe())

    def s_subclass(self, rng, mon):
        """A user's own primary model."""
        choose_backend(self, rng, 0.25)
        gw = self.gw
        with_limits = bool(rng.random() < 0.6)
        lo, hi = edgy(rng, 1, 4, (2.0,)), edgy(rng, 60, 120, (100.0,))

        if with_limits:
            def user_primary(mass, slope, mmin, mmax):
                return (1 + slope * mass) * (mass >= mmin) * (mass <= mmax) / (mmax - mmin + slope * (mmax**2 - mmin**2) / 2)
        else:
            def user_primary(mass, slope):
                return (1 + slope * mass) * (mass >= lo) * (mass <= hi) / (hi - lo + slope * (hi**2 - lo**2) / 2)

        class Mine(gw.models.mass.BaseSmoothedMassDistribution):
            primary_model = user_primary

        shape = (700, 400)
        model = Mine(mmin=lo, mmax=hi, normalization_shape=shape, cache=bool(rng.random() < 0.5))
        data = None
        for _ in range(2):
            p = dict(slope=edgy(rng, 0, 2, (0.0, 1.0)), beta=edgy(rng, -1, 5, (0.0,)), delta_m=edgy(rng, 0.5, 8, (0.0,)))
            q = dict(p, mmin=lo, mmax=hi)
            if with_limits:
                p["mmin"], p["mmax"] = edgy(rng, lo, 8), edgy(rng, 40, hi)
                q = dict(p)
            if data is None:
                m1 = rng.uniform(q["mmin"] * 1.01, hi * 1.1, 150)
                data = dict(mass_1=m1, mass_ratio=specs.AnalyticMass._q(rng, 150, np.minimum(1, q["mmin"] / m1), True))

            def prim(m, v):
                m = np.asarray(m, float)
                return user_primary(m, v["slope"], v["mmin"], v["mmax"]) if with_limits else user_primary(m, v["slope"])

            got = mon.call("user subclass", lambda d, v: model(d, **v), to_backend(gw, data), p)
            want, budget = ref.smoothed_mass(prim, data, q, lo, hi, shape)
            ok = ~((want > 0) & (budget > 0.2 * want))
            mon.close("user-defined subclass density", np.where(ok, np.asarray(got), 0), np.where(ok, want, 0), rtol=1e-8 + 1e-14 / np.abs(1 - np.minimum(0.9999999999, q["mmin"] / data["mass_1"])), atol=3 * np.where(ok, budget, 0) + 1e-290, parameters=p)
