"""C10: results do not depend on the history of calls."""
import numpy as np

from .. import catalog
from .common import *

RTOL = 1e-10


class CheckImpl(Check):
    pid = "C10"
    rule = (
        "random histories of evaluations (hyperparameters repeated and varied, several objects of the same class and configuration on different datasets interleaved, returned arrays "
        "overwritten by the caller, refused calls in between, datasets changing where caching is off); every result is compared with the result of a freshly built object and with "
        "earlier results for the same arguments; non-trivial: a non-zero result that is not the first of its object"
    )
    assumptions = [
        "models that cache by design (smoothed mass models with cache=True, spline models, bilby's Model) are held to one dataset",
        "spline node positions are fixed per object (moving them is the listed finding)",
    ]
    scenarios = {
        "models": ("s_models", 96, 3000), "uncached": ("s_uncached", 60, 1500), "populations": ("s_populations", 30, 700), "likelihoods": ("s_likelihoods", 40, 1000),
        "selection": ("s_selection", 30, 700), "in_place": ("s_in_place", 60, 1500), "in_place_likelihoods": ("s_in_place_likelihoods", 30, 600), "cosmology": ("s_cosmology", 24, 500), "nodes": ("s_nodes", 2, 20), "failures": ("s_failures", 20, 300),
    }

    def required(self):
        return [
            "equals a fresh object", "equals the earlier result", "changed dataset equals a fresh object", "population model equals a fresh one", "likelihood equals a fresh one",
            "selection equals a fresh one", "cosmology equals a fresh one", "after a refused call", "changed in place equals a fresh object", "one dictionary for the run",
        ]

    def teardown(self):
        self.gw.set_backend("numpy")

    def scribble(self, rng, value):
        """What a caller may do with a result."""
        if isinstance(value, np.ndarray) and value.ndim and value.flags.writeable and rng.random() < 0.7:
            value *= -7.0
            value[:1] = np.nan

    def evaluate(self, rng, mon, label, func):
        out = func()
        mon.events += 1
        mon.log.append(dict(call=label))
        keep = np.array(out, float, copy=True)
        self.scribble(rng, out)
        return keep

    def case(self, rng, index, names):
        name = names[index % len(names)]
        case = specs.registry()[name](rng)
        if hasattr(case, "shape"):
            case.cfg["normalization_shape"] = case.shape = pick(rng, (300, 150), (200, 100))
            case.default = False
        return name, case

    def s_models(self, rng, mon):
        choose_backend(self, rng, 0.15)
        names = list(specs.registry())
        name, case = self.case(rng, mon.case[1], names)
        n = 40
        pts = [case.params(rng) for _ in range(3)]
        # two objects on different data; the same data for one object throughout
        datas = [case.data(rng, n, pts[0]), case.data(rng, n if rng.random() < 0.6 else 25, pts[1])]
        objs = [case.build(self.gw), case.build(self.gw)]
        arrays = [to_backend(self.gw, d) for d in datas]
        want = {}
        for o in (0, 1):
            for k, p in enumerate(pts):
                want[o, k] = np.array(case.call(case.build(self.gw), to_backend(self.gw, datas[o]), dict(p)), float)
        seen = {}
        steps = [(0, 0), (1, 1)] + [(int(rng.integers(2)), int(rng.integers(3))) for _ in range(8)]
        for j, (o, k) in enumerate(steps):
            got = self.evaluate(rng, mon, f"{name} object {o} point {k}", lambda: case.call(objs[o], arrays[o], dict(pts[k])))
            mon.close("equals a fresh object", got, want[o, k], rtol=RTOL, atol=1e-300, case=case.describe(), parameters=pts[k], step=j, history=steps[: j + 1])
            if (o, k) in seen:
                mon.close("equals the earlier result", got, seen[o, k], rtol=RTOL, atol=1e-300, case=case.describe(), step=j)
            seen[o, k] = got

    def s_uncached(self, rng, mon):
        """Datasets change between calls: same and different shapes."""
        choose_backend(self, rng, 0.15)
        names = [n for n in specs.registry() if not n.startswith(("spline_", "Interpolated"))]
        name, case = self.case(rng, mon.case[1], names)
        if hasattr(case, "cache"):
            case.cache = case.cfg["cache"] = False
            case.default = False
        obj = case.build(self.gw)
        for j in range(5):
            p = case.params(rng)
            n = pick(rng, 30, 30, 30, 12)
            data = case.data(rng, n, p)
            if rng.random() < 0.3:
                data = {k: v.reshape(2, -1) for k, v in data.items()}
            want = np.array(case.call(case.build(self.gw), to_backend(self.gw, data), dict(p)), float)
            got = self.evaluate(rng, mon, name, lambda: case.call(obj, to_backend(self.gw, data), dict(p)))
            mon.close("changed dataset equals a fresh object", got, want, rtol=RTOL, atol=1e-300, case=case.describe(), parameters=p, step=j)

    def s_in_place(self, rng, mon):
        """The caller's dictionaries and arrays stay the same objects while their contents change."""
        choose_backend(self, rng, 0.2)
        gw = self.gw
        names = [n for n in specs.registry() if not n.startswith(("spline_", "Interpolated"))]
        name, case = self.case(rng, mon.case[1], names)
        if hasattr(case, "cache"):
            case.cache = case.cfg["cache"] = False
            case.default = False
        obj = case.build(gw)
        live, params = {}, {}
        for j in range(5):
            change = pick(rng, "both", "data", "parameters") if j else "both"
            if change != "data":
                p = case.params(rng)
                params.clear()
                params.update(p)
            if change != "parameters":
                new = to_backend(gw, case.data(rng, 30, p))
                for k, v in new.items():
                    if k in live and isinstance(live[k], np.ndarray) and rng.random() < 0.7:
                        live[k][...] = v
                    else:
                        live[k] = v
            copies = {k: gw.utils.xp.array(np.array(v)) for k, v in live.items()}
            want = np.array(case.call(case.build(gw), copies, dict(params)), float)
            got = np.array(mon.live(name, lambda d, q: case.call(obj, d, q), live, params), float)
            mon.close("changed in place equals a fresh object", got, want, rtol=RTOL, atol=1e-300, case=case.describe(), parameters=dict(params), change=change, step=j)

    def s_in_place_likelihoods(self, rng, mon):
        """As samplers do: one dictionary of parameters for the whole run."""
        choose_backend(self, rng, 0.2)
        cls = pick(rng, "HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood")
        w = catalog.World(self.gw, rng, cls=cls)
        live = {}
        for j in range(6):
            p, q = w.params(rng)
            live.clear()
            live.update(p)
            want = w.estimate(q)
            if not (np.isfinite(want[0]) and np.isfinite(want[1])):
                continue
            for use in rng.permutation(["lnl", "ratio", "selection"]):
                if use == "lnl":
                    a, b = mon.live(cls, w.lik.ln_likelihood_and_variance, live)
                    mon.close("one dictionary for the run", [float(np.asarray(a)), float(np.asarray(b))], want[:2], rtol=1e-8, atol=1e-9, cls=cls, parameters=p, step=j)
                elif use == "ratio":
                    a = mon.live(cls, w.lik.log_likelihood_ratio, live)
                    mon.close("one dictionary for the run", float(np.asarray(a)), want[0], rtol=1e-8, atol=1e-9, cls=cls, parameters=p, step=j)
                elif w.sel is not None and callable(getattr(w.sel, "func", None)) and "log_sigma" not in live:
                    out = mon.live("selection", w.sel.func, live)
                    mu = w.sel.oracle(q)
                    out = out[0] if isinstance(out, tuple) else out
                    mu = mu[0] if isinstance(mu, tuple) else mu
                    mon.close("one dictionary for the run", float(np.asarray(out)), float(np.asarray(mu)), rtol=1e-8, atol=1e-12, cls=cls, parameters=p, step=j)

    def s_populations(self, rng, mon):
        """Several models combined, as a user combines them."""
        from bilby.hyper.model import Model

        choose_backend(self, rng, 0.15)
        gw = self.gw
        mass = specs.SmoothedMass(rng, pick(rng, *specs.SmoothedMass.CLASSES))
        mass.cfg["normalization_shape"] = mass.shape = (200, 100)
        mass.default = False
        z = specs.Redshift(rng, pick(rng, "PowerLawRedshift", "MadauDickinsonRedshift"))
        spin = specs.IIDSpin(rng)
        cases = [mass, z, spin]
        cache = bool(rng.random() < 0.6)

        def build():
            return Model([c.build(gw) for c in cases], cache=cache)

        def params():
            p = {}
            for c in cases:
                p.update(c.params(rng))
            return p

        pts = [params() for _ in range(3)]
        # change some of the parameters only: cached factors must be told apart
        for k in range(3):
            q = dict(pts[k])
            part = cases[int(rng.integers(3))].params(rng)
            q.update({a: b for a, b in part.items() if a in q})
            pts.append(q)
        data = {}
        for c in cases:
            data.update(c.data(rng, 40, pts[0], hostile=False))
        arr = to_backend(gw, data)
        want = [np.array(build().prob(to_backend(gw, data), **p), float) for p in pts]
        model = build()
        for j in range(10):
            k = int(rng.integers(len(pts)))
            got = np.array(mon.call("Model.prob", lambda p: model.prob(arr, **p), pts[k]), float)
            mon.close("population model equals a fresh one", got, want[k], rtol=RTOL, atol=1e-300, cache=cache, step=j, parameters=pts[k])

    def s_likelihoods(self, rng, mon):
        choose_backend(self, rng, 0.2)
        cls = pick(rng, "HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood")
        seed = int(rng.integers(2**31))

        def build():
            np.random.seed(seed % 2**31)
            return catalog.World(self.gw, np.random.default_rng(seed), cls=cls)

        w, v = build(), build()
        pts = [w.params(rng)[0] for _ in range(3)]

        def values(lik, p):
            a, b = lik.ln_likelihood_and_variance(dict(p))
            return [float(np.asarray(a)), float(np.asarray(b)), float(lik.log_likelihood_ratio(dict(p)))]

        want = []
        for p in pts:
            want.append(values(build().lik, p))
        for j in range(8):
            k = int(rng.integers(3))
            lik = (w if rng.random() < 0.6 else v).lik
            if rng.random() < 0.4:  # other uses in between
                other = pts[int(rng.integers(3))]
                use = pick(rng, "extra", "rate", "resample", "prob", "meta", "uncertainty")
                mon.log.append(dict(call=use))
                if use == "extra":
                    lik.generate_extra_statistics(dict(other))
                elif use == "rate" and "log_sigma" not in other:
                    lik.generate_rate_posterior_sample(dict(other))
                elif use == "resample" and "ycut" not in other:
                    lik.posterior_predictive_resample(dict(other), return_weights=bool(rng.random() < 0.5))
                elif use == "prob":
                    q = lik.conversion_function(dict(other))[0]
                    out = lik.hyper_prior.prob(lik.data, **q)
                    if not isinstance(lik.hyper_prior, catalog.Stored):  # its output is its own
                        self.scribble(rng, out)
                elif use == "meta":
                    lik.meta_data
                elif use == "uncertainty":
                    old = lik.maximum_uncertainty
                    lik.maximum_uncertainty = 0.01
                    lik.log_likelihood_ratio(dict(other))
                    lik.maximum_uncertainty = old
            got = mon.call(f"{cls} point {k}", lambda p: values(lik, p), pts[k])
            mon.close("likelihood equals a fresh one", got, want[k], rtol=1e-10, atol=1e-12, cls=cls, parameters=pts[k], step=j)

    def s_selection(self, rng, mon):
        choose_backend(self, rng, 0.2)
        gw = self.gw
        xp = gw.utils.xp
        pop = catalog.Population(gw, rng)
        grid = rng.random() < 0.4
        n = 60
        inj = dict(x=rng.normal(0, 1, n), y=rng.random(n), prior=10 ** rng.uniform(-1, 0.5, n), total_generated=300)
        mesh = np.meshgrid(np.linspace(-2, 2, 7), np.linspace(0, 1, 7), indexing="ij")
        gdata = dict(x=mesh[0], y=mesh[1], vt=rng.random((7, 7)))
        kw = dict(n_events=int(rng.integers(1, 10)), marginalize_uncertainty=bool(rng.random() < 0.3), enforce_convergence=bool(rng.random() < 0.5))
        shared = {k: xp.asarray(v) for k, v in (gdata if grid else inj).items()}
        cache = bool(rng.random() < 0.6)

        def build(data):
            from bilby.hyper.model import Model

            model = Model(list(pop.functions), cache=cache)
            return gw.vt.GridVT(model=model, data=data) if grid else gw.vt.ResamplingVT(model=model, data=data, **kw)

        fresh = lambda: build({k: xp.asarray(v) for k, v in (gdata if grid else inj).items()})
        objs = [build(shared), build(shared)]
        pts = [pop.params(rng) for _ in range(3)]
        f = lambda r: [float(np.asarray(v)) for v in (r if isinstance(r, tuple) else (r,))]
        want = [f(fresh()(dict(p))) for p in pts]
        for j in range(8):
            k = int(rng.integers(3))
            o = objs[int(rng.integers(2))]
            if not grid and rng.random() < 0.3:
                other = dict(pts[int(rng.integers(3))])
                getattr(o, pick(rng, "detection_efficiency", "surveyed_hypervolume", "vt_factor"))(other)
            got = f(mon.call("selection", o, pts[k]))
            mon.close("selection equals a fresh one", got, want[k], rtol=RTOL, atol=1e-300, grid=grid, step=j, parameters=pts[k])

    def s_cosmology(self, rng, mon):
        choose_backend(self, rng, 0.2)
        gw = self.gw
        name = pick(rng, "Planck15", "FlatLambdaCDM", "FlatwCDM", "FlatwCDM")

        def model(dataset, slope):
            return (1 + slope * dataset["mass_ratio"]) / dataset["mass_1"]

        def build():
            return gw.experimental.cosmo_models.CosmoModel([model], cosmo_model=name)

        n = 30
        obj, redshift = build(), gw.models.redshift.PowerLawRedshift(z_max=2.0, cosmo_model=name)
        steps = []
        for _ in range(3):
            data = dict(mass_1_detector=rng.uniform(5, 100, n), mass_ratio=rng.random(n), luminosity_distance=10 ** rng.uniform(1.5, 4.2, n), redshift=None)
            data.pop("redshift")
            steps.append((data, dict(specs.cosmo_params(rng, name), slope=float(rng.random()))))
        for j in range(7):
            data, p = steps[int(rng.integers(3))]
            want = np.array(build().prob(to_backend(gw, data), **p), float)
            got = np.array(mon.call("CosmoModel.prob", lambda d, p: obj.prob(d, **p), to_backend(gw, data), p), float)
            mon.close("cosmology equals a fresh one", got, want, rtol=RTOL, cosmology=name, parameters=p, step=j)
            q = dict({k: v for k, v in p.items() if k != "slope"}, lamb=2.0)
            z = dict(redshift=np.linspace(0.01, 1.9, n))
            want = np.array(gw.models.redshift.PowerLawRedshift(z_max=2.0, cosmo_model=name)(to_backend(gw, z), **q), float)
            got = np.array(mon.call("PowerLawRedshift", lambda d, q: redshift(d, **q), to_backend(gw, z), q), float)
            mon.close("cosmology equals a fresh one", got, want, rtol=RTOL, cosmology=name, parameters=q, step=j)

    def s_failures(self, rng, mon):
        """A refused evaluation leaves no trace."""
        use_backend(self, "numpy")
        case = specs.SmoothedMass(rng, pick(rng, *specs.SmoothedMass.CLASSES))
        case.cfg["normalization_shape"] = case.shape = (200, 100)
        case.default = False
        p = case.params(rng)
        data = case.data(rng, 40, p)
        obj = case.build(self.gw)
        if rng.random() < 0.5:
            case.call(obj, to_backend(self.gw, data), dict(p))
        for bad in (dict(p, mmin=case.mmin - 0.5), dict(p, mmax=case.mmax + 1), {k: v for k, v in p.items() if k != "mmax"}):
            try:
                case.call(obj, to_backend(self.gw, data), bad)
            except Exception:
                mon.note("refused calls")
        want = np.array(case.call(case.build(self.gw), to_backend(self.gw, data), dict(p)), float)
        got = np.array(mon.call(case.name, lambda d, q: case.call(obj, d, q), to_backend(self.gw, data), p), float)
        mon.close("after a refused call", got, want, rtol=RTOL, atol=1e-300, case=case.describe(), parameters=p)

    def s_nodes(self, rng, mon):
        """Node positions that move between calls: a listed finding."""
        use_backend(self, "numpy")
        case = specs.SplineSpin(rng, "magnitude")
        case.kindi = case.cfg["kind"] = "cubic"
        p = case.params(rng)
        data = case.data(rng, 50, p, hostile=False)
        obj = case.build(self.gw)
        arr = to_backend(self.gw, data)
        case.call(obj, arr, p)
        x = np.linspace(case.x[0] + 0.05, case.x[-1] - 0.1, case.nodes)
        q = dict(p, **{f"a{i}": float(v) for i, v in enumerate(x)})
        want = np.array(case.call(case.build(self.gw), arr, q), float)
        got = np.array(mon.call("spline with moved nodes", lambda d, q: case.call(obj, d, q), arr, q), float)
        if not np.allclose(got, want, rtol=1e-8, atol=0):
            raise KnownFinding("spline-node-positions", f"{case.name}({case.cfg}): the second call used the node positions of the first")
        mon.true("moved nodes", True)
