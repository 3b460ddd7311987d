"""C05: closed-form mass models."""
import numpy as np

from .common import *

FUNCS = list(specs.AnalyticMass.FUNCS)


class CheckImpl(ModelCheck):
    pid = "C05"
    rule = (
        "evaluations of every closed-form mass model (random and special hyperparameters, masses inside, at, next to and outside "
        "the limits, both backends) decided point by point against an independent density; integrals of the observed values; "
        "one-sided values at the break; non-trivial: non-zero density"
    )
    assumptions = ["oracle densities in gwv/ref.py (scipy, Gauss-Legendre)", "relative accuracy 1e-9 plus conditioning of the power-law normalisation"]
    scenarios = {
        **{f: (f"s_{f}", 14, 400) for f in FUNCS},
        "integral": ("s_integral", 60, 1500),
        "break": ("s_break", 30, 800),
        "general": ("s_general", 10, 200),
        "shared": ("s_shared", 20, 400),
    }

    def required(self):
        return [f"{f} density" for f in FUNCS] + ["unit integral", "continuous at the break", "product of the two masses", "independent with shared parameters"]

    def __getattr__(self, name):
        if name.startswith("s_") and name[2:] in FUNCS:
            return lambda rng, mon: self.drive(rng, mon, specs.AnalyticMass(rng, name[2:]), evaluations=2, label=f"{name[2:]} density")
        raise AttributeError(name)

    def s_integral(self, rng, mon):
        use_backend(self, "numpy")
        case = specs.AnalyticMass(rng, pick(rng, *[f for f in FUNCS if "independent" not in f]))
        model, p = case.build(self.gw), case.params(rng)
        g = p.get("gaussian_mass_maximum", 100.0)
        brk = ref.mass_breaks(case.kind, p, g)
        m, w = ref.gl_points(brk, 16)
        if case.form == "single":
            got = np.sum(w * case.call(model, dict(mass_1=m), p))
        elif case.form == "q":
            x, wx = np.polynomial.legendre.leggauss(24)
            low = p["mmin"] / m
            # logarithmic in the mass ratio so that steep slopes are resolved
            lq = np.log(low)[:, None] * (1 - (x + 1) / 2)
            q = np.exp(lq)
            wq = -0.5 * np.log(low)[:, None] * wx * q
            d = dict(mass_1=np.broadcast_to(m[:, None], q.shape).copy(), mass_ratio=np.clip(q, low[:, None], 1.0))
            got = np.sum(case.call(model, d, p) * wq * w[:, None])
        else:
            # identical masses: over the ordered half plane, by symmetry half of the square without the ordering
            half = 0.0
            parts = [ref.gl_points(np.append(brk[brk < mm], mm), 16) for mm in m[::1]]
            m1 = np.concatenate([np.full(pt[0].size, mm) for mm, pt in zip(m, parts)])
            ww = np.concatenate([wm * pt[1] for wm, pt in zip(w, parts)])
            m2 = np.concatenate([pt[0] for pt in parts])
            got = half + np.sum(ww * case.call(model, dict(mass_1=m1, mass_2=m2), p))
        mon.events += 1
        mon.close("unit integral", got, 1.0, rtol=2e-6, case=case.describe(), parameters=p)

    def s_break(self, rng, mon):
        choose_backend(self, rng)
        case = specs.AnalyticMass(rng, "double_power_law_primary_mass")
        model, p = case.build(self.gw), case.params(rng)
        mb = p["mmin"] + p["break_fraction"] * (p["mmax"] - p["mmin"])
        m = mb * (1 + np.array([-1e-9, 0.0, 1e-9]))
        got = np.asarray(mon.call(case.name, lambda d, q: case.call(model, to_backend(self.gw, d), q), dict(mass_1=m), p))
        mon.close("continuous at the break", got, np.full(3, got[1]), rtol=2e-7, parameters=p)
        mon.true("positive at the break", got[1] > 0)

    def s_general(self, rng, mon):
        choose_backend(self, rng)
        n = 30
        m1, m2 = rng.uniform(2, 50, (2, n))
        m2[:5] = m1[:5]
        p1, p2 = rng.random((2, n))
        a = to_backend(self.gw, dict(mass_1=m1, mass_2=m2, p1=p1, p2=p2))
        got = mon.call("_primary_secondary_general", self.gw.models.mass._primary_secondary_general, dict(mass_1=a["mass_1"], mass_2=a["mass_2"]), a["p1"], a["p2"])
        mon.close("product of the two masses", got, 2 * p1 * p2 * (m1 >= m2), rtol=1e-12)

    def s_shared(self, rng, mon):
        """identical two-mass models are the independent ones with shared parameters"""
        choose_backend(self, rng)
        kind = pick(rng, "power_law", "two_component")
        case = specs.AnalyticMass(rng, f"{kind}_primary_secondary_identical")
        p = case.params(rng)
        d = case.data(rng, 80, p)
        mass = self.gw.models.mass
        one = mon.call("identical", getattr(mass, f"{kind}_primary_secondary_identical"), to_backend(self.gw, d), **p)
        two = mon.call("independent", getattr(mass, f"{kind}_primary_secondary_independent"), to_backend(self.gw, d), beta=p["alpha"], **p)
        mon.close("independent with shared parameters", two, np.asarray(one), rtol=1e-12, parameters=p)
