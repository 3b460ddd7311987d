"""C11: inputs are never modified."""
import numpy as np
import pandas as pd

from .. import catalog
from .common import *


def freeze(value):
    """A deep, comparable snapshot."""
    if isinstance(value, dict):
        return ("dict", [(k, freeze(v)) for k, v in value.items()])
    if isinstance(value, pd.DataFrame):
        return ("frame", list(value.columns), value.index.to_numpy().copy(), {c: value[c].to_numpy().copy() for c in value.columns}, [str(t) for t in value.dtypes])
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [freeze(v) for v in value])
    if isinstance(value, np.ndarray):
        return ("array", str(value.dtype), value.shape, value.copy())
    if type(value).__module__.split(".")[0] in ("jax", "jaxlib"):
        return ("jax", str(value.dtype), value.shape, np.asarray(value).copy())
    if isinstance(value, (set, frozenset)):
        return ("set", sorted(map(str, value)))
    return ("value", type(value).__name__, value)


def differ(a, b, path="argument"):
    """Where two snapshots differ, or None."""
    if a[0] != b[0]:
        return f"{path}: {a[0]} became {b[0]}"
    if a[0] == "dict":
        ka, kb = [k for k, _ in a[1]], [k for k, _ in b[1]]
        if ka != kb:
            return f"{path}: keys {ka} became {kb}"
        for (k, x), (_, y) in zip(a[1], b[1]):
            d = differ(x, y, f"{path}[{k!r}]")
            if d:
                return d
        return None
    if a[0] == "frame":
        if a[1] != b[1] or a[4] != b[4]:
            return f"{path}: columns {a[1]} {a[4]} became {b[1]} {b[4]}"
        if not np.array_equal(a[2], b[2]):
            return f"{path}: index changed"
        for c in a[3]:
            if not np.array_equal(a[3][c], b[3][c], equal_nan=True):
                return f"{path}: column {c} changed"
        return None
    if a[0] in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return f"{path}: length {len(a[1])} became {len(b[1])}"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = differ(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if a[0] in ("array", "jax"):
        if a[1:3] != b[1:3]:
            return f"{path}: {a[1:3]} became {b[1:3]}"
        eq = np.array_equal(a[3], b[3], equal_nan=True) if a[3].dtype.kind in "fc" else np.array_equal(a[3], b[3])
        if not eq:
            return f"{path}: values changed, e.g. {a[3][a[3] != b[3]].ravel()[:2]} became {b[3][a[3] != b[3]].ravel()[:2]}"
        return None
    if a[0] == "set":
        return None if a == b else f"{path}: {a[1]} became {b[1]}"
    if a[1] != b[1]:
        return f"{path}: type {a[1]} became {b[1]}"
    try:
        same = a[2] is b[2] or bool(a[2] == b[2]) or (a[2] != a[2] and b[2] != b[2])
    except Exception:
        same = a[2] is b[2]
    return None if same else f"{path}: {a[2]!r} became {b[2]!r}"


class CheckImpl(Check):
    pid = "C11"
    rule = (
        "every call goes through a wrapper that takes deep snapshots of all arguments (arrays, dictionaries, frames, lists), of objects the user keeps, and of the likelihood's own "
        "data before and after; non-trivial: arguments with at least one array or dictionary"
    )
    assumptions = ["generate_extra_statistics may add entries to its sample, nothing else"]
    scenarios = {
        "models": ("s_models", 96, 2400), "densities": ("s_densities", 60, 1500), "conversions": ("s_conversions", 30, 600), "likelihoods": ("s_likelihoods", 40, 1000),
        "vt": ("s_vt", 40, 800), "cosmology": ("s_cosmology", 24, 500), "numpyro": ("s_numpyro", 4, 40), "user": ("s_user", 40, 800), "jitted": ("s_jitted", 4, 40),
    }

    def required(self):
        return [
            "model leaves its arguments alone", "density leaves its arguments alone", "conversion leaves its arguments alone", "construction leaves its arguments alone",
            "evaluation leaves its arguments alone", "likelihood data unchanged", "selection leaves its arguments alone", "cosmology leaves its arguments alone",
            "numpyro leaves its arguments alone", "objects of the user unchanged", "extra statistics only add entries", "jitted leaves its arguments alone",
        ]

    def teardown(self):
        self.gw.set_backend("numpy")

    def watch(self, mon, label, func, *args, extra=None, **kwargs):
        before = freeze([list(args), kwargs, extra])
        mon.events += 1
        mon.log.append(dict(call=label))
        out = func(*args, **kwargs)
        after = freeze([list(args), kwargs, extra])
        d = differ(before, after)
        mon.true(label, d is None, d or "", key=(label, str(brief_key(args, kwargs))))
        return out

    def s_models(self, rng, mon):
        choose_backend(self, rng, 0.15)
        names = list(specs.registry())
        name = names[mon.case[1] % len(names)]
        case = specs.registry()[name](rng)
        if hasattr(case, "shape"):
            case.cfg["normalization_shape"] = case.shape = (200, 100)
            case.default = False
        cfg = case.cfg
        model = self.watch(mon, "construction leaves its arguments alone", lambda c: case.build(self.gw), cfg)
        p = case.params(rng)
        data = to_backend(self.gw, case.data(rng, 30, p))
        data["unused"] = self.gw.utils.xp.ones(30)
        for k in range(2):
            self.watch(mon, "model leaves its arguments alone", lambda d, q: case.call(model, d, q), data, p, extra=cfg)
            if hasattr(model, "variable_names"):
                a = freeze(model.variable_names)
                d = differ(a, freeze(model.variable_names))
                mon.true("model leaves its arguments alone", d is None, d or "", key=name)
            if hasattr(model, "probability"):
                self.watch(mon, "model leaves its arguments alone", model.normalisation, p)
                self.watch(mon, "model leaves its arguments alone", lambda d, q: model.differential_spacetime_volume(d, **q), data, p)
                z = data["redshift"]
                self.watch(mon, "model leaves its arguments alone", lambda z, q: model.psi_of_z(z, **q), z, p)
                self.watch(mon, "model leaves its arguments alone", lambda z, q: model.dvc_dz(z, **q), z, p)
            p = case.params(rng)

    def s_densities(self, rng, mon):
        choose_backend(self, rng, 0.15)
        u, xp, n = self.gw.utils, self.gw.utils.xp, 20

        def par(low, high):
            return xp.asarray(rng.uniform(low, high, n)) if rng.random() < 0.6 else float(rng.uniform(low, high))

        x = xp.asarray(rng.uniform(-1, 3, n))
        which = pick(rng, "powerlaw", "truncnorm", "beta_dist", "von_mises", "unnormalized_2d_gaussian", "trapezoid", "to_numpy")
        label = "density leaves its arguments alone"
        if which == "powerlaw":
            self.watch(mon, label, u.powerlaw, x, alpha=par(-3, 3), high=par(2, 3), low=par(0.1, 1))
        elif which == "truncnorm":
            self.watch(mon, label, u.truncnorm, x, mu=par(-1, 1), sigma=par(0.1, 2), high=par(1, 2), low=par(-2, 0))
        elif which == "beta_dist":
            self.watch(mon, label, u.beta_dist, x, alpha=par(0.5, 3), beta=par(0.5, 3), scale=par(0.5, 2))
        elif which == "von_mises":
            self.watch(mon, label, u.von_mises, x, mu=par(-3, 3), kappa=par(0, 5))
        elif which == "unnormalized_2d_gaussian":
            self.watch(mon, label, u.unnormalized_2d_gaussian, x, xp.asarray(rng.random(n)), par(-1, 1), par(-1, 1), par(0.2, 1), par(0.2, 1), par(-0.9, 0.9))
        elif which == "trapezoid":
            self.watch(mon, label, u.trapezoid, xp.asarray(rng.random((3, n))), x=xp.asarray(np.sort(rng.random(n))))
        else:
            self.watch(mon, label, u.to_numpy, x)

    def s_conversions(self, rng, mon):
        choose_backend(self, rng, 0.2)
        c, xp = self.gw.conversions, self.gw.utils.xp
        n = 8
        arr = rng.random() < 0.7
        v = lambda lo, hi: xp.asarray(rng.uniform(lo, hi, n)) if arr else float(rng.uniform(lo, hi))
        label = "conversion leaves its arguments alone"
        self.watch(mon, label, c.alpha_beta_max_to_mu_var_max, v(0.5, 5), v(0.5, 5), v(0.3, 1))
        self.watch(mon, label, c.mu_var_max_to_alpha_beta_max, v(0.2, 0.3), v(0.01, 0.02), v(0.6, 1))
        p = {}
        for s in pick(rng, ("",), ("_1",), ("_1", "_2")):
            p.update({f"mu_chi{s}": v(0.2, 0.3), f"sigma_chi{s}": v(0.01, 0.02), f"amax{s}": v(0.6, 1)})
            if rng.random() < 0.4:
                p.update({f"alpha_chi{s}": None, f"beta_chi{s}": None})
        self.watch(mon, label, c.convert_to_beta_parameters, p, remove=bool(rng.random() < 0.5))

    def s_likelihoods(self, rng, mon):
        choose_backend(self, rng, 0.15)
        cls = pick(rng, "HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood")
        w = catalog.World(self.gw, rng, cls=cls, zeros=False)
        frames = [f.copy() for f in w.cat.frames]
        if rng.random() < 0.3:
            frames = frames + [frames[0]] if len({tuple(f.columns) for f in frames}) == 1 and w.evidences is None else frames
        kw = dict(w.kwargs)
        np_args = {k: v for k, v in kw.items() if isinstance(v, (np.ndarray, list, float, int))}
        hp = w.pop.hyper_prior(rng)
        lik = self.watch(
            mon, "construction leaves its arguments alone", lambda frames, ev: getattr(self.gw.hyperpe, cls)(frames, hp, **dict(kw, **ev)), frames, np_args
        )
        keep = freeze([lik.data, lik.sampling_prior, lik.meta_data["n_events"]])
        for k in range(3):
            p = w.params(rng)[0]
            label = "evaluation leaves its arguments alone"
            self.watch(mon, label, lik.ln_likelihood_and_variance, p, extra=frames)
            self.watch(mon, label, lik.log_likelihood_ratio, p, extra=frames)
            self.watch(mon, label, lik.log_likelihood, p, extra=frames)
            if not w.converted:
                self.watch(mon, label, lik.generate_rate_posterior_sample, p, extra=frames)
            q = dict(p, keep=np.arange(3.0))
            before = freeze(q)
            out = lik.generate_extra_statistics(q)
            d = differ(before, freeze({k: q[k] for k in before_keys(before)}))
            mon.true("extra statistics only add entries", d is None and out is q, d or "did not return its sample")
            samples = [w.params(rng)[0] for _ in range(3)]
            samples = [dict({k: s[k] for k in sorted(set(samples[0]) & set(s))}) for s in samples]
            form = pick(rng, "list", "dict", "frame")
            if form == "dict":
                samples = samples[0]
            elif form == "frame":
                samples = pd.DataFrame([{k: v for k, v in s.items() if k != "unused"} for s in samples])
            self.watch(mon, label, lik.posterior_predictive_resample, samples, extra=frames)
            d = differ(keep, freeze([lik.data, lik.sampling_prior, lik.meta_data["n_events"]]), "likelihood")
            mon.true("likelihood data unchanged", d is None, d or "")

    def s_vt(self, rng, mon):
        choose_backend(self, rng, 0.15)
        gw, xp = self.gw, self.gw.utils.xp
        pop = catalog.Population(gw, rng)
        functions = list(pop.functions)
        label = "selection leaves its arguments alone"
        if rng.random() < 0.5:
            mesh = np.meshgrid(np.linspace(-2, 2, 6), np.linspace(0, 1, 5), indexing="ij")
            data = dict(x=xp.asarray(mesh[0]), y=xp.asarray(mesh[1]), vt=xp.asarray(rng.random((6, 5))))
            make = lambda m, d: gw.vt.GridVT(model=m, data=d)
        else:
            n = 30
            data = dict(x=xp.asarray(rng.normal(size=n)), y=xp.asarray(rng.random(n)), prior=xp.asarray(10 ** rng.uniform(-1, 0.5, n)))
            if rng.random() < 0.7:
                data["total_generated"] = 200
            if rng.random() < 0.5:
                data["analysis_time"] = 0.7
            kw = dict(n_events=3, marginalize_uncertainty=bool(rng.random() < 0.4), enforce_convergence=bool(rng.random() < 0.5))
            make = lambda m, d: gw.vt.ResamplingVT(model=m, data=d, **kw)
        form = pick(rng, "list", "model")
        vt = self.watch(mon, "construction leaves its arguments alone", make, functions if form == "list" else pop.hyper_prior(rng, "model"), data, extra=functions)
        second = self.watch(mon, "construction leaves its arguments alone", make, functions, data)
        for k in range(3):
            p = pop.params(rng)
            self.watch(mon, label, vt, p, extra=data)
            self.watch(mon, label, second, p, extra=data)
            if hasattr(vt, "detection_efficiency"):
                mu, var = self.watch(mon, label, vt.detection_efficiency, p, extra=data)
                self.watch(mon, label, vt.vt_factor, p, extra=data)
                self.watch(mon, label, vt.surveyed_hypervolume, p, extra=data)
                m = xp.asarray([float(mu), 1.0])
                v = xp.asarray([float(var), 1e-3])
                self.watch(mon, label, vt.check_convergence, m, v)

    def s_cosmology(self, rng, mon):
        choose_backend(self, rng, 0.2)
        gw = self.gw
        name = pick(rng, "Planck15", "FlatLambdaCDM", "FlatwCDM")
        p = specs.cosmo_params(rng, name)
        n = 20
        data = dict(mass_1_detector=rng.uniform(5, 100, n), mass_ratio=rng.random(n))
        data["luminosity_distance" if rng.random() < 0.5 else "redshift"] = rng.uniform(0.05, 2, n) * (1000 if rng.random() < 0.5 else 1)
        data = to_backend(gw, data)
        label = "cosmology leaves its arguments alone"
        stored = gw.utils.xp.asarray(rng.random(n))

        def model(dataset, slope):
            return (1 + slope * dataset["mass_ratio"]) / dataset["mass_1"]

        def constant(dataset):
            return stored

        funcs = [model] if rng.random() < 0.5 else [constant, model]
        m = self.watch(mon, label, lambda f: gw.experimental.cosmo_models.CosmoModel(f, cosmo_model=name), funcs)
        self.watch(mon, label, lambda d, q: m.detector_frame_to_source_frame(d, **q), data, p)
        for k in range(2):
            self.watch(mon, label, lambda d, q: m.prob(d, **q), data, dict(p, slope=0.3), extra=stored)
        self.watch(mon, label, m.cosmology_variables, dict(p, other=1))
        self.watch(mon, label, m.cosmology, dict(p, other=1))
        out, jac = m.detector_frame_to_source_frame(data, **p)
        if isinstance(jac, np.ndarray):
            before = freeze(data)
            jac *= 2
            d = differ(before, freeze(data))
            mon.true(label, d is None, f"the jacobian shares memory with the data: {d}", key="jacobian")

    def s_user(self, rng, mon):
        """Objects returned by functions of the user are not modified either."""
        use_backend(self, "numpy")
        gw = self.gw
        kind = pick(rng, "primary", "primary returns its input", "population", "selection", "conversion", "vt weights")
        label = "objects of the user unchanged"
        if kind.startswith("primary"):
            stored = {}

            def density(mass, alpha, mmin, mmax):
                if kind == "primary returns its input":
                    return mass
                key = mass.shape
                if key not in stored:
                    stored[key] = np.linspace(1, 2, mass.size).reshape(mass.shape)
                return stored[key]

            class Mine(gw.models.mass.BaseSmoothedMassDistribution):
                primary_model = density

            Mine.primary_model = staticmethod(density)
            n = 20
            model = Mine(normalization_shape=(100, 50), cache=bool(rng.random() < 0.5))
            data = dict(mass_1=rng.uniform(10, 60, n), mass_ratio=rng.uniform(0.6, 1, n))
            p = dict(alpha=1.0, beta=1.0, mmin=5.0, mmax=80.0, delta_m=pick(rng, 0.0, 3.0))
            self.watch(mon, label, lambda d, q: model(d, **q), data, p)
            grid = freeze([stored, model.m1s, model.qs])
            for _ in range(3):
                self.watch(mon, label, lambda d, q: model(d, **q), data, p)
                d = differ(grid, freeze([stored, model.m1s, model.qs]))
                mon.true(label, d is None, d or "", key=kind)
            return
        w = catalog.World(gw, rng, kind="number", lengths="equal", conversion=False, max_samples=10**6, zeros=False)
        k = w.cat.lengths[0]
        stored_prob = np.random.default_rng(1).uniform(0.5, 2, (w.cat.n, k))
        stored_sel = (np.array(0.3), np.array(1e-4)) if rng.random() < 0.5 else [np.float64(0.3), np.float64(1e-4)]
        arrays = [np.array([0.3]), np.array([1e-4])]
        fixed = dict(mu=0.1, sigma=1.0, slope=0.0)

        def prob(dataset, mu):
            return stored_prob

        def selection(parameters):
            return tuple(stored_sel)

        def conversion(parameters):
            return fixed, []

        cls = pick(rng, "HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood")
        fixed["rate"] = 12.0
        kw = dict(selection_function=selection)
        if kind == "conversion":
            kw["conversion_function"] = conversion
        weight_of_sample = prob

        class Remembers:
            parameters = dict()
            models = [weight_of_sample]

            def prob(self, data, **parameters):
                return stored_prob

        hp = pick(rng, prob, Remembers())
        lik = getattr(gw.hyperpe, cls)([f.copy() for f in w.cat.frames], hp, **kw)
        for _ in range(3):
            p = dict(mu=float(rng.normal()), rate=5.0)
            extra = [stored_prob, list(stored_sel), fixed]
            self.watch(mon, label, lik.log_likelihood_ratio, p, extra=extra)
            self.watch(mon, label, lik.ln_likelihood_and_variance, p, extra=extra)
            self.watch(mon, label, lambda: lik.generate_extra_statistics(dict(p)), extra=extra)
            self.watch(mon, label, lik.posterior_predictive_resample, [p], extra=extra)
        n = 15
        stored_w = np.random.default_rng(2).uniform(0.5, 2, n)

        def weight(dataset, mu):
            return stored_w

        data = dict(x=rng.random(n), prior=rng.uniform(0.5, 1, n))
        vt = gw.vt.ResamplingVT(model=weight, data=data, n_events=2, enforce_convergence=bool(rng.random() < 0.5))
        for _ in range(2):
            self.watch(mon, label, vt, dict(mu=0.2), extra=[stored_w, data])
            self.watch(mon, label, vt.vt_factor, dict(mu=0.2), extra=[stored_w, data])
        mesh = np.meshgrid(np.linspace(0, 1, 4), np.linspace(0, 1, 5), indexing="ij")
        stored_g = np.random.default_rng(3).random((4, 5))
        gdata = dict(x=mesh[0], y=mesh[1], vt=np.random.default_rng(4).random((4, 5)))
        grid = gw.vt.GridVT(model=lambda dataset, mu: stored_g, data=gdata)
        self.watch(mon, label, grid, dict(mu=0.2), extra=[stored_g, gdata])

    def s_numpyro(self, rng, mon):
        from numpyro import handlers

        use_backend(self, "jax")
        w = catalog.World(self.gw, rng, kind="vt", n_events=3, n_samples=24)
        p = {k: v for k, v in w.params(rng)[0].items()}
        keys = ["x", "y"]
        before = freeze([w.lik.data, w.sel.func.data])
        mod = self.gw.experimental.numpyro
        kw = dict(predictive_resample=bool(rng.random() < 0.7), fit_keys=pick(rng, keys, None), varmax=pick(rng, np.inf, 1.0))
        run = lambda q, kw: handlers.trace(handlers.seed(lambda: mod.gwpopulation_likelihood_model(w.lik, q, **kw), 1)).get_trace()
        self.watch(mon, "numpyro leaves its arguments alone", run, p, kw)
        d = differ(before, freeze([w.lik.data, w.sel.func.data]), "likelihood")
        mon.true("numpyro leaves its arguments alone", d is None, d or "", key="data")

    def s_jitted(self, rng, mon):
        use_backend(self, "jax")
        w = catalog.World(self.gw, rng, kind="vt", n_events=3, n_samples=24, cache=False)
        lik = self.gw.experimental.jax.JittedLikelihood(w.lik)
        for _ in range(2):
            p = w.params(rng)[0]
            self.watch(mon, "jitted leaves its arguments alone", lik.log_likelihood_ratio, p, extra=w.lik.data)
            self.watch(mon, "jitted leaves its arguments alone", lik.log_likelihood, p, extra=w.lik.data)


def before_keys(snapshot):
    return [k for k, _ in snapshot[1]]


def brief_key(args, kwargs):
    from ..core import brief

    return brief([list(args), kwargs])
