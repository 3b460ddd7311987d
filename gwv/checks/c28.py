"""C28: models and likelihoods under jax transformations."""
import numpy as np

from ..catalog import World
from .common import *


class CheckImpl(Check):
    pid = "C28"
    rule = (
        "every model, elementary density, selection function and likelihood class under jax.jit, jax.vmap and jax.grad with respect to all "
        "hyperparameters, at several points per compiled function and interleaved with plain evaluations; compiled and vectorised values "
        "are decided against plain evaluation and the reference, derivatives against central differences with two step sizes; "
        "non-trivial: non-zero value or derivative"
    )
    assumptions = [
        "differentiated hyperparameters inside their ranges: not at limits of the normalisation grid nor at removable singularities such as a spectral index of -1 (a minimum mass on the grid and no smoothing are covered as fixed values)",
        "spline models are evaluated once before they are traced and node positions are not differentiated (known finding C10 spline-node-positions)",
        "central differences are trusted where two step sizes agree",
    ]
    scenarios = {
        "model": ("s_model", 30, 360),
        "outside": ("s_outside", 8, 120),
        "edge": ("s_edge", 6, 80),
        "density": ("s_density", 12, 160),
        "selection": ("s_selection", 4, 50),
        "likelihood": ("s_likelihood", 8, 100),
    }

    def required(self):
        return [
            "jit equals plain evaluation", "vmap equals plain evaluation", "derivative", "derivative finite", "plain evaluation after tracing", "reference density",
            "jit of the likelihood", "vmap of the likelihood", "derivative of the likelihood", "jit of the selection function", "derivative with samples outside the support", "derivative at fixed edge",
        ]

    def setup(self):
        import jax  # noqa

        use_backend(self, "jax")

    def teardown(self):
        use_backend(self, "numpy")

    # -- shared --------------------------------------------------------------------------
    def differentiate(self, mon, func, p, keys, label, scale, rtol=2e-4, **detail):
        """jax.grad of func at p against central differences"""
        import jax

        p = {k: float(v) for k, v in p.items()}
        jf = jax.jit(func)
        grad = mon.call("jax.grad", lambda q: jax.jit(jax.grad(func))(q), p)
        for k in keys:
            g = float(grad[k])
            mon.true(label + " finite", np.isfinite(g), f"derivative with respect to {k} is {g}", parameters=p, **detail)
            h = 2e-5 * max(1.0, abs(p[k]))
            est = []
            for s in (1.0, 0.5):
                up, down = float(jf(dict(p, **{k: p[k] + s * h}))), float(jf(dict(p, **{k: p[k] - s * h})))
                est.append((up - down) / (2 * h * s))
            noise = 1e-12 * scale / h
            if not all(np.isfinite(est)) or abs(est[0] - est[1]) > 0.3 * rtol * abs(est[1]) + 10 * noise + 1e-7 * scale:
                mon.note("derivatives not decided: finite differences disagree")
                continue
            mon.close(label, g, est[1], rtol=rtol, atol=10 * noise + 1e-6 * scale, key=k, parameters=p, **detail)

    def transforms(self, rng, mon, func, points, rtol, label="", **detail):
        """plain, jit and vmap at the same points in a random interleaving"""
        import jax
        import jax.numpy as jnp

        jf = jax.jit(func)
        plain, comp = {}, {}
        todo = [(k, w) for k in range(len(points)) for w in "pj"] * 2
        for j in rng.permutation(len(todo)):
            k, w = todo[j]
            if w == "p":
                plain[k] = np.asarray(mon.call("plain", func, points[k]))
            else:
                comp[k] = np.asarray(mon.call("jit", jf, points[k]))
        for k in range(len(points)):
            mon.close(f"jit {label}" if label else "jit equals plain evaluation", comp[k], plain[k], rtol=rtol, atol=1e-250, parameters=points[k], **detail)
        stacked = {key: jnp.asarray([p[key] for p in points]) for key in points[0]}
        got = np.asarray(mon.call("vmap", jax.vmap(func), stacked))
        for k in range(len(points)):
            mon.close(f"vmap {label}" if label else "vmap equals plain evaluation", got[k], plain[k], rtol=rtol, atol=1e-250, parameters=points[k], **detail)
        after = np.asarray(mon.call("plain", func, points[0]))
        mon.close("plain evaluation after tracing", after, plain[0], rtol=1e-12, atol=1e-250, **detail)
        return plain

    def draw_model(self, rng, name):
        if name in specs.SmoothedMass.CLASSES:
            case = specs.SmoothedMass(rng, name, small=True)
        elif name == "InterpolatedPowerlaw":
            case = specs.SplineMass(rng, small=True)
        else:
            case = specs.registry()[name](rng)
        return case

    def interior(self, rng, case):
        p = {k: float(v) for k, v in case.params(rng, smooth=True).items()}
        if "mmin" in p:  # away from the edge of the grid
            p["mmin"] += float(rng.uniform(0.01, 0.05))
            if p["mmax"] >= 99:
                p["mmax"] -= float(rng.uniform(0.3, 1))
        return p

    def node_keys(self, case):
        base = getattr(case, "base", "mass" if case.name == "InterpolatedPowerlaw" else None)
        return {f"{base}{i}" for i in range(getattr(case, "nodes", 0))}

    def s_model(self, rng, mon):
        use_backend(self, "jax")
        names = list(specs.registry())
        name = names[mon.case[1] % len(names)]
        case = self.draw_model(rng, name)
        model = case.build(self.gw)
        points = [self.interior(rng, case) for _ in range(3)]
        data = case.data(rng, 24, points[0], hostile=False)
        bd = to_backend(self.gw, data)
        func = lambda q: case.call(model, bd, q)
        if "spline" in name or name == "InterpolatedPowerlaw" or rng.random() < 0.5:
            func(points[-1])
        plain = self.transforms(rng, mon, func, points, 1e-9, model=case.describe())
        decide_density(mon, "reference density", case, data, points[0], plain[0])
        r = rng.uniform(0.2, 1, 24)
        total = lambda q: (r * func(q)).sum()
        skip = self.node_keys(case)
        keys = [k for k in points[0] if k not in skip]
        if len(keys) > 8:
            keys = [keys[k] for k in rng.permutation(len(keys))[:8]]
        scale = max(abs(float(np.sum(r * plain[0]))), 1e-200)
        self.differentiate(mon, total, points[0], keys, "derivative", scale, model=case.describe())

    def s_outside(self, rng, mon):
        """Samples outside of the support do not spoil the derivative."""
        use_backend(self, "jax")
        name = pick(rng, "iid_spin_magnitude_beta", "independent_spin_magnitude_beta", "power_law_mass", "two_component_primary_mass_ratio", "SinglePeakSmoothedMassDistribution", "gaussian_chi_eff", "GaussianChiEffChiP", "PowerLawRedshift", "spline_tilt", "double_power_law_primary_power_law_mass_ratio", "two_component_primary_secondary_independent")
        case = self.draw_model(rng, name)
        model = case.build(self.gw)
        p = self.interior(rng, case)
        data = case.data(rng, 30, p, hostile=False)
        for k in data:
            lo, hi = data[k].min(), data[k].max()
            j = rng.permutation(30)[:8]
            data[k][j] = np.where(rng.random(8) < 0.5, lo - (hi - lo) * rng.uniform(0.3, 0.7, 8), hi + (hi - lo) * rng.uniform(0.3, 0.7, 8))
            if k in ("mass_1", "mass_2", "mass_ratio", "redshift"):
                data[k] = np.abs(data[k]) + 1e-3
            if k in ("mass_1", "mass_2") and "mmin" in p:  # well below the minimum
                data[k][rng.permutation(30)[:5]] = p["mmin"] * rng.uniform(0.3, 0.98, 5)
            if k in ("mass_1", "mass_2", "redshift") and rng.random() < 0.5:  # far above the maximum
                data[k][rng.permutation(30)[:3]] = rng.uniform(110, 400, 3)
        bd = to_backend(self.gw, data)
        case.call(model, bd, p)
        r = rng.uniform(0.2, 1, 30)
        total = lambda q: (r * case.call(model, bd, q)).sum()
        skip = self.node_keys(case)
        keys = [k for k in p if k not in skip]
        scale = max(abs(float(total(p))), 1e-200)
        mon.note("samples outside the support", int(np.sum(np.asarray(case.call(model, bd, p)) == 0)))
        self.differentiate(mon, total, p, keys, "derivative with samples outside the support", scale, model=case.describe())

    def s_edge(self, rng, mon):
        """Smoothed mass models with the minimum mass on the normalisation grid or without smoothing, both usual fixed values."""
        use_backend(self, "jax")
        names = list(specs.SmoothedMass.CLASSES)
        case = self.draw_model(rng, names[mon.case[1] % len(names)])
        model = case.build(self.gw)
        p = self.interior(rng, case)
        grid = np.asarray(model.m1s)
        where = ("grid edge", "grid point", "no smoothing")[(mon.case[1] // len(names) + mon.case[1]) % 3]
        if where == "grid edge":
            p["mmin"] = float(grid[0])
        elif where == "grid point":
            p["mmin"] = float(grid[int(rng.integers(1, max(2, np.searchsorted(grid, 8.0))))])
        else:
            p["delta_m"] = 0.0
        p["mmax"] = max(p["mmax"], p["mmin"] + 20)
        data = case.data(rng, 24, p, hostile=False)
        data["mass_1"] = data["mass_1"] + 1e-3  # off the minimum itself
        data["mass_ratio"] = np.minimum(data["mass_ratio"] * 1.001, 1.0)
        bd = to_backend(self.gw, data)
        r = rng.uniform(0.2, 1, 24)
        total = lambda q: (r * case.call(model, bd, q)).sum()
        scale = max(abs(float(mon.call("plain", total, p))), 1e-200)
        fixed = {"delta_m"} if where == "no smoothing" else {"mmin"}
        import jax

        grad = mon.call("jax.grad", jax.grad(total), p)
        for k in p:
            mon.true("derivative at fixed edge finite", bool(np.isfinite(float(grad[k]))), f"{where}: derivative with respect to {k} is {float(grad[k])}", parameters=p, model=case.describe())
        free = {k: v for k, v in p.items() if k not in fixed}
        const = {k: p[k] for k in fixed}
        mon.note(where)
        self.differentiate(mon, lambda q: total(dict(q, **const)), free, list(free), "derivative at fixed edge", scale, model=case.describe())

    def s_density(self, rng, mon):
        use_backend(self, "jax")
        gw = self.gw
        name = ("beta_dist", "powerlaw", "truncnorm", "von_mises", "unnormalized_2d_gaussian", "powerlaw")[mon.case[1] % 6]
        n = 16
        if name == "beta_dist":
            draw = lambda: dict(alpha=float(rng.uniform(1.2, 6)), beta=float(rng.uniform(1.2, 6)), scale=float(rng.uniform(0.5, 2)))
            x = (rng.uniform(0.02, 0.48, n),)
        elif name == "powerlaw":
            draw = lambda: dict(alpha=float(rng.uniform(-4, 4)), high=float(rng.uniform(20, 90)), low=float(rng.uniform(1, 4)))
            x = (rng.uniform(5, 19, n),)
        elif name == "truncnorm":
            draw = lambda: dict(mu=float(rng.normal()), sigma=float(rng.uniform(0.3, 3)), high=float(rng.uniform(1, 3)), low=float(rng.uniform(-3, -1)))
            x = (rng.uniform(-0.9, 0.9, n),)
        elif name == "von_mises":
            draw = lambda: dict(mu=float(rng.normal()), kappa=float(rng.uniform(0.3, 20)))
            x = (rng.uniform(-3, 3, n),)
        else:
            draw = lambda: dict(mu_x=float(rng.normal()), mu_y=float(rng.normal()), sigma_x=float(rng.uniform(0.5, 2)), sigma_y=float(rng.uniform(0.5, 2)), covariance=float(rng.uniform(-0.8, 0.8)))
            x = (rng.normal(size=n), rng.normal(size=n))
        xs = [gw.utils.xp.asarray(v) for v in x]
        f = getattr(gw.utils, name)
        func = lambda q: f(*xs, **q)
        points = [draw() for _ in range(3)]
        plain = self.transforms(rng, mon, func, points, 1e-9, density=name)
        r = rng.uniform(0.2, 1, n)
        self.differentiate(mon, lambda q: (r * func(q)).sum(), points[0], list(points[0]), "derivative", max(float(np.sum(r * plain[0])), 1e-200), density=name)
        # derivative with respect to the abscissa
        import jax

        v = float(x[0][0])
        others = [float(t[0]) for t in x[1:]]
        one = lambda t: f(t, *others, **points[0])
        g = float(jax.grad(one)(v))
        h = 1e-5 * max(1, abs(v))
        est = (float(one(v + h)) - float(one(v - h))) / (2 * h)
        mon.close("derivative with respect to the abscissa", g, est, rtol=2e-4, atol=1e-6 * abs(float(one(v))) + 1e-12, density=name)

    def world(self, rng, **kw):
        use_backend(self, "jax")
        return World(self.gw, rng, cache=False, zeros=False, **kw)

    def s_selection(self, rng, mon):
        w = self.world(rng, kind="vt", conversion=False)
        vt = w.sel.func
        keys = list(w.pop.names)
        points = [{k: float(v) for k, v in w.params(rng)[1].items() if k in keys} for _ in range(3)]
        which = pick(rng, "detection_efficiency", "call", "vt_factor", "surveyed")
        funcs = dict(detection_efficiency=lambda q: self.gw.utils.xp.stack(vt.detection_efficiency(q)), call=lambda q: self.gw.utils.xp.stack(vt(q)), vt_factor=lambda q: vt.vt_factor(q), surveyed=lambda q: vt.surveyed_hypervolume(q) * vt.detection_efficiency(q)[0])
        plain = self.transforms(rng, mon, funcs[which], points, 1e-8, label="of the selection function", which=which)
        for k, p in enumerate(points):
            mu, var = w.sel.oracle(p)
            if which in ("detection_efficiency", "call"):
                mon.close("reference selection function", plain[k], [mu, var], rtol=1e-7, atol=1e-14, parameters=p)
        eff = lambda q: vt.detection_efficiency(q)[0]
        self.differentiate(mon, eff, points[0], keys, "derivative of the selection function", abs(float(eff(points[0]))))

    def s_likelihood(self, rng, mon):
        cls = ("HyperparameterLikelihood", "RateLikelihood", "HyperparameterLikelihood", "NullHyperparameterLikelihood")[mon.case[1] % 4]
        w = self.world(rng, cls=cls)
        keys = None
        points, orig = [], []
        for _ in range(3):
            p, q = w.params(rng)
            p.pop("unused", None)
            points.append({k: float(v) for k, v in p.items()})
            orig.append(q)
        func = lambda q: w.lik.log_likelihood_ratio(q)
        plain = self.transforms(rng, mon, func, points, 1e-9, label="of the likelihood", cls=cls)
        for k, q in enumerate(orig):
            mon.close("reference likelihood", plain[k], w.estimate(q)[0], rtol=1e-9, atol=1e-9, cls=cls)
        if cls != "NullHyperparameterLikelihood":
            self.differentiate(mon, func, points[0], list(points[0]), "derivative of the likelihood", max(1.0, abs(float(plain[0]))), cls=cls)
