"""C03: numpy and jax agree."""
import numpy as np

from .. import catalog
from .common import *


class CheckImpl(Check):
    pid = "C03"
    rule = (
        "the same call (model, density, conversion, selection function or likelihood, with hostile data) on objects built on the numpy and on the jax backend, in random order of "
        "the backends; non-trivial: non-zero finite results"
    )
    assumptions = [
        "jax.scipy.special.betaln is accurate to about 1e-6 and log_ndtr to about 1e-8; these bounds enter the tolerance of the models that use them",
        "samples for which the rounding of mass_1 * mass_ratio decides on which side of an edge they lie are left out, unless the product is exact",
    ]
    scenarios = {
        "models": ("s_models", 72, 2400), "densities": ("s_densities", 60, 2000), "likelihoods": ("s_likelihoods", 24, 600), "vt": ("s_vt", 20, 500),
        "cosmology": ("s_cosmology", 16, 400), "misc": ("s_misc", 24, 400), "edges": ("s_edges", 16, 300),
    }

    def required(self):
        return ["model", "density", "likelihood", "selection", "cosmology", "conversion", "extra statistics", "model at its limits", "window"]

    def teardown(self):
        self.gw.set_backend("numpy")

    def both(self, rng, mon, label, func):
        """func(to) is evaluated on both backends; to() converts numpy data to the active backend."""
        out = {}
        for b in ("numpy", "jax") if rng.random() < 0.5 else ("jax", "numpy"):
            use_backend(self, b)
            out[b] = mon.call(f"{label} [{b}]", func)
        mon.note(f"order {'-'.join(out)}")
        return out["numpy"], out["jax"]

    def agree(self, mon, label, a, b, rtol=1e-8, atol=1e-290, **detail):
        mon.close(label, np.asarray(b, float), np.asarray(a, float), rtol=rtol, atol=atol, **detail)

    def s_models(self, rng, mon):
        names = list(specs.registry())
        name = names[mon.case[1] % len(names)]
        use_backend(self, "jax")
        case = specs.registry()[name](rng)
        if hasattr(case, "shape"):
            case.cfg["normalization_shape"] = case.shape = (400, 200)
            case.default = False
        objs = {}
        points = []
        p = case.params(rng)
        data = case.data(rng, 100, p)
        if case.uses_cache:
            # a sample exactly on the interpolation limits is resolved by rounding
            pass
        for k in range(2):
            points.append(p)
            p = case.params(rng)
        order = ("numpy", "jax") if rng.random() < 0.5 else ("jax", "numpy")
        out = {}
        for b in order:
            use_backend(self, b)
            model = case.build(self.gw)
            d = to_backend(self.gw, data)
            out[b] = [mon.call(f"{name} [{b}]", lambda d, q: case.call(model, d, q), d, q) for q in points]
        use_backend(self, "jax")
        for q, a, j in zip(points, out["numpy"], out["jax"]):
            skip = case.avoid(data, q) if hasattr(case, "avoid") else np.zeros(np.shape(a), bool)
            a, j = np.asarray(a, float), np.asarray(j, float)
            if a.shape != j.shape:
                raise Violation("model", f"shapes {a.shape} and {j.shape}", case.describe())
            scale = np.max(np.abs(np.where(np.isfinite(a), a, 0))) if a.size else 0
            rt = case.rtol(data, q) + specs.jax_tol() + 1e-8
            if name.startswith(("Smoothed", "Single", "Multi", "Broken", "Interp")):
                rt = rt + 1e-6 * (q.get("delta_m", 1) < 0.2)
            skip |= self.fragile(case, data, q)
            mon.close("model", np.where(skip, 0, j), np.where(skip, 0, a), rtol=rt, atol=1e-290, case=case.describe(), parameters=q, order=order)
            mon.note("zero densities", int(np.sum(a == 0)))

    @staticmethod
    def fragile(case, data, q):
        """Samples whose value is decided by the rounding of mass_1 * mass_ratio or of a window argument."""
        skip = np.zeros(next(iter(data.values())).shape, bool)
        if "delta_m" in q:
            m2 = data["mass_1"] * data["mass_ratio"]
            for edge in (q["mmin"], q["mmin"] + q["delta_m"]):
                for m in (m2, data["mass_1"]):
                    skip |= np.abs(m - edge) < 1e-7 * edge
        return skip

    def s_edges(self, rng, mon):
        """Masses exactly at the limits of smoothed models, with exactly representable products."""
        names = list(specs.SmoothedMass.CLASSES)
        case = specs.SmoothedMass(rng, names[mon.case[1] % len(names)], small=True)
        p = case.params(rng)
        p["mmin"] = float(np.ceil(case.mmin * 8) / 8) + pick(rng, 0.0, 0.125, 1.0)
        p["mmax"] = float(np.floor(p["mmax"]))
        p["delta_m"] = pick(rng, 0.0, 0.0, 0.25, 4.0)
        m1 = p["mmin"] * np.array([2.0, 4.0, 2.0, 4.0, 8.0, 1.0, 1.0, 2.0])
        q = np.array([0.5, 0.25, 1.0, 0.5, 0.125, 1.0, 0.75, 0.25])
        m1 = np.concatenate([m1, [p["mmax"], p["mmax"], p["mmin"] + p["delta_m"]]])
        q = np.concatenate([q, [1.0, 0.5, 1.0]])
        data = dict(mass_1=m1, mass_ratio=q)
        prim = {k: v for k, v in p.items() if k != "beta"}

        def func():
            model = case.build(self.gw)
            d = to_backend(self.gw, data)
            return np.array([np.asarray(model(d, **p)), np.asarray(model.p_m1(d, **prim, **model.kwargs))])

        a, j = self.both(rng, mon, case.name, func)
        ok = np.array([m1 > p["mmin"], np.ones(m1.shape, bool)])  # no mass ratio is left at mmin
        self.agree(mon, "model at its limits", np.where(ok, a, 0), np.where(ok, j, 0), rtol=1e-6 + ref.powerlaw_rtol(-p.get("alpha", 2.0), p["mmax"], p["mmin"]), case=case.describe(), parameters=p)
        mon.note("non-zero densities at the limits", int(np.sum(a > 0)))

    def s_densities(self, rng, mon):
        n = 64
        which = pick(rng, "powerlaw", "truncnorm", "beta_dist", "von_mises", "unnormalized_2d_gaussian", "trapezoid")

        def par(draw):
            return np.array([draw() for _ in range(n)]) if rng.random() < 0.3 else draw()

        rtol = 1e-8
        if which == "powerlaw":
            kw = dict(alpha=par(lambda: edgy(rng, -6, 8, (-1, 0, 1, 2, -2, -3), 0.5)), high=par(lambda: edgy(rng, 10.5, 150, (100.0,))), low=par(lambda: edgy(rng, 0.01, 10, (1.0,))))
            x = specs.strata(rng, n, 0.1, 120, (1.0, 100.0))
            x[:4] = [0.0, -1.0, 1.0, 100.0]
            rtol = 1e-8 + ref.powerlaw_rtol(kw["alpha"], kw["high"], kw["low"])
        elif which == "truncnorm":
            low = edgy(rng, -5, 5, (0,))
            kw = dict(mu=par(lambda: edgy(rng, -15, 15, (0, 1))), sigma=par(lambda: edgy(rng, 0.05, 5, (1,))), high=low + edgy(rng, 0.1, 10, (1,)), low=low)
            x = specs.strata(rng, n, low, kw["high"])
            rtol = 1e-8 + ref.truncnorm_rtol(kw["mu"], kw["sigma"], kw["high"], kw["low"]) + 3e-8
        elif which == "beta_dist":
            a, b = par(lambda: edgy(rng, 0.2, 12, (1, 2, 0.5))), par(lambda: edgy(rng, 0.2, 12, (1, 2, 0.5)))
            s = edgy(rng, 0.1, 5, (1, 2))
            kw = dict(alpha=a, beta=b, scale=s)
            x = specs.strata(rng, n, 0, s)
            x = np.where((x == 0) | (x == s), np.where((np.asarray(a) >= 1) & (np.asarray(b) >= 1), x, 0.3 * s), x)
            rtol = 1e-8 + specs.JAX_BETALN + np.abs(np.asarray(b) - 1) * 4e-16 * s / np.maximum(np.abs(s - x), 1e-16)
        elif which == "von_mises":
            kw = dict(mu=par(lambda: edgy(rng, -4, 4, (0, np.pi))), kappa=par(lambda: float(10 ** rng.uniform(-3, 3))))
            x = specs.strata(rng, n, -np.pi, np.pi, (0,))
            rtol = 3e-8 + 1e-13 * np.asarray(kw["kappa"])
        elif which == "unnormalized_2d_gaussian":
            kw = dict(
                yy=rng.uniform(-2, 2, n), mu_x=edgy(rng, -1, 1, (0,)), mu_y=edgy(rng, -1, 1, (0,)), sigma_x=edgy(rng, 0.2, 3, (1,)),
                sigma_y=edgy(rng, 0.2, 3, (1,)), covariance=edgy(rng, -0.9, 0.9, (0,)),
            )
            x = rng.uniform(-2, 2, n)
        else:
            kw = dict(x=np.cumsum(rng.uniform(0.1, 1, n)))
            x = rng.random(n) + 0.1

        def func():
            xp = self.gw.utils.xp
            c = {k: xp.asarray(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
            return getattr(self.gw.utils, which)(xp.asarray(x), **c)

        a, j = self.both(rng, mon, which, func)
        self.agree(mon, "density", a, j, rtol=rtol, function=which, parameters=kw)

    def s_likelihoods(self, rng, mon):
        cls = pick(rng, "HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood")
        seed = int(rng.integers(2**31))
        fixed = dict(lengths=pick(rng, "equal"), n_events=pick(rng, 1, 3), n_samples=24, kind=pick(rng, *catalog.Selection.KINDS), zeros=bool(rng.random() < 0.3), conversion=bool(rng.random() < 0.4))
        thresholds = dict(maximum_uncertainty=pick(rng, np.inf, np.inf, 0.3, 1.0))

        def build():
            # the same catalogue on either backend
            r = np.random.default_rng(seed)
            np.random.seed(seed % 1000)
            return catalog.World(self.gw, r, cls=cls, max_samples=1000, injections=50, **fixed, **thresholds)

        worlds = {}
        order = ("numpy", "jax") if rng.random() < 0.5 else ("jax", "numpy")
        for b in order:
            use_backend(self, b)
            worlds[b] = build()
        pr = np.random.default_rng(seed + 1)
        points = [worlds["numpy"].params(pr)[0] for _ in range(2)]
        out = {}
        for b in order:
            use_backend(self, b)
            w = worlds[b]
            rows = []
            for p in points:
                lnl, var = mon.call(f"ln_likelihood_and_variance [{b}]", w.lik.ln_likelihood_and_variance, p)
                ratio = mon.call(f"log_likelihood_ratio [{b}]", w.lik.log_likelihood_ratio, p)
                extra = mon.call(f"generate_extra_statistics [{b}]", w.lik.generate_extra_statistics, dict(p))
                rows.append((float(lnl), float(var), float(ratio), {k: float(np.asarray(v)) for k, v in extra.items()}))
            out[b] = rows
        limit = thresholds["maximum_uncertainty"] ** 2
        for p, (l, v, r, e), (l2, v2, r2, e2) in zip(points, out["numpy"], out["jax"]):
            self.agree(mon, "likelihood", l, l2, rtol=1e-9, atol=1e-9, cls=cls, parameters=p)
            self.agree(mon, "likelihood", v, v2, rtol=1e-7, atol=1e-12, cls=cls, parameters=p)
            if not abs(v - limit) < 1e-6 * limit:
                self.agree(mon, "likelihood", r, r2, rtol=1e-9, atol=1e-9, cls=cls, parameters=p)
            mon.true("extra statistics", set(e) == set(e2), f"{set(e) ^ set(e2)}")
            for k in e:
                self.agree(mon, "extra statistics", e[k], e2[k], rtol=1e-7, atol=1e-9, key=k, parameters=p)

    def s_vt(self, rng, mon):
        n = 60
        inj = dict(x=rng.normal(0, 1, n), y=rng.random(n), prior=10 ** rng.uniform(-1, 0.5, n))
        total = int(rng.integers(n, 20 * n))
        marg, conv = bool(rng.random() < 0.4), bool(rng.random() < 0.5)
        nev = int(rng.integers(1, 10))
        seed = int(rng.integers(2**31))
        pop = catalog.Population(self.gw, np.random.default_rng(seed), zeros=bool(rng.random() < 0.4))
        p = pop.params(rng)
        grid = rng.random() < 0.4
        axes = [np.linspace(-1, 1, 6), np.linspace(0, 1, 6)]
        mesh = np.meshgrid(*axes, indexing="ij")
        vts = rng.random((6, 6))

        def func():
            xp = self.gw.utils.xp
            if grid:
                vt = self.gw.vt.GridVT(model=list(pop.functions), data=dict(x=xp.asarray(mesh[0]), y=xp.asarray(mesh[1]), vt=xp.asarray(vts)))
                return np.asarray(vt(p))
            vt = self.gw.vt.ResamplingVT(
                model=list(pop.functions), data=dict({k: xp.asarray(v) for k, v in inj.items()}, total_generated=total), n_events=nev,
                marginalize_uncertainty=marg, enforce_convergence=conv,
            )
            return np.asarray([float(np.asarray(v)) for v in np.atleast_1d(vt(p))] + [float(np.asarray(v)) for v in vt.detection_efficiency(p)] + [float(np.asarray(vt.surveyed_hypervolume(p)))])

        a, j = self.both(rng, mon, "GridVT" if grid else "ResamplingVT", func)
        w = pop.oracle(inj, p) / inj["prior"]
        mu = w.sum() / total
        var = (w**2).sum() / total**2 - mu**2 / total
        if not grid and abs(mu**2 - 4 * nev * var) < 1e-6 * mu**2:
            mon.note("too close to the convergence threshold")
            return
        self.agree(mon, "selection", a, j, rtol=1e-8, atol=1e-13 * max(mu, 1e-300) ** 2, parameters=p)

    def s_cosmology(self, rng, mon):
        name = pick(rng, "Planck15", "Planck18", "FlatLambdaCDM", "FlatwCDM")
        p = specs.cosmo_params(rng, name)
        n = 50
        data = dict(mass_1_detector=rng.uniform(5, 100, n), mass_ratio=rng.random(n))
        if rng.random() < 0.7:
            data["luminosity_distance"] = 10 ** rng.uniform(1.5, 4.3, n)
        else:
            data["redshift"] = rng.uniform(0.01, 2, n)
        items = list(data.items())
        data = dict(items[i] for i in rng.permutation(len(items)))

        def model(dataset, slope):
            return (1 + slope * dataset["mass_ratio"]) / dataset["mass_1"] * dataset["redshift"]

        def func():
            mix = self.gw.experimental.cosmo_models.CosmoMixin(cosmo_model=name)
            s, jac = mix.detector_frame_to_source_frame(to_backend(self.gw, data), **p)
            prob = self.gw.experimental.cosmo_models.CosmoModel([model], cosmo_model=name).prob(to_backend(self.gw, data), slope=0.3, **p)
            return np.array([np.asarray(s[k]) for k in sorted(s)] + [np.asarray(jac), np.asarray(prob)])

        a, j = self.both(rng, mon, "cosmology", func)
        self.agree(mon, "cosmology", a, j, rtol=1e-8, cosmology=name, parameters=p)

    def s_misc(self, rng, mon):
        which = pick(rng, "beta", "convert", "four volume", "smoothing")
        if which == "beta":
            a, b, m = rng.uniform(0.5, 9, 30), rng.uniform(0.5, 9, 30), rng.uniform(0.2, 1, 30)

            def func():
                xp = self.gw.utils.xp
                mu, var, mx = self.gw.conversions.alpha_beta_max_to_mu_var_max(xp.asarray(a), xp.asarray(b), xp.asarray(m))
                return np.array([np.asarray(v) for v in (mu, var, mx, *self.gw.conversions.mu_var_max_to_alpha_beta_max(mu, var, mx))])

            self.agree(mon, "conversion", *self.both(rng, mon, which, func), rtol=1e-9)
        elif which == "convert":
            mu, amax = rng.uniform(0.2, 0.6), 1.0
            p = dict(mu_chi=mu, sigma_chi=rng.uniform(0.01, 0.1) * mu, amax=amax)

            def func():
                xp = self.gw.utils.xp
                c, added = self.gw.conversions.convert_to_beta_parameters({k: xp.asarray(v) for k, v in p.items()})
                return np.array([float(c[k]) for k in sorted(c)])

            self.agree(mon, "conversion", *self.both(rng, mon, which, func), rtol=1e-9)
        elif which == "four volume":
            lamb, t, z = edgy(rng, -4, 8, (0,)), rng.uniform(0.1, 3), edgy(rng, 0.5, 8, (2.3,))
            self.agree(mon, "four volume", *self.both(rng, mon, which, lambda: float(self.gw.models.redshift.total_four_volume(lamb, t, z))), rtol=1e-9)
        else:
            delta = pick(rng, edgy(rng, 0.5, 10, (5.0,)), float(10 ** rng.uniform(-4, 0)))
            kw = dict(mmin=5.0, mmax=edgy(rng, 20, 40), delta_m=delta)
            m = np.concatenate([rng.uniform(1, 30, 30), 5.0 + delta * rng.uniform(0.02, 1.1, 30)])
            func = lambda: np.asarray(self.gw.models.mass.BaseSmoothedMassDistribution.smoothing(self.gw.utils.xp.asarray(m), **kw))
            self.agree(mon, "window", *self.both(rng, mon, which, func), rtol=1e-7 + ref.window_rtol(m, 5.0, delta), parameters=kw)

