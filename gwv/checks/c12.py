"""C12: models act pointwise."""
import numpy as np

from .. import catalog
from .common import *


class CheckImpl(Check):
    pid = "C12"
    rule = (
        "one dataset is evaluated as given and then permuted, split, duplicated, reshaped, reduced to single samples, extended and embedded among other samples (fresh objects "
        "and, where caching allows, the same object); values must follow the samples and the shape the dataset; non-trivial: non-zero densities"
    )
    assumptions = ["dataset columns are arrays of one common shape"]
    scenarios = {"models": ("s_models", 72, 2400), "densities": ("s_densities", 40, 1000), "populations": ("s_populations", 16, 300), "cosmology": ("s_cosmology", 16, 300)}
    RTOL = 1e-9

    def required(self):
        return ["permuted", "split", "duplicated", "reshaped", "single sample", "embedded", "shape"]

    def teardown(self):
        self.gw.set_backend("numpy")

    def transforms(self, rng, data, other):
        """(label, dataset, how to read the base values from its result)"""
        n = next(iter(data.values())).size
        take = lambda idx: {k: v[idx] for k, v in data.items()}
        perm = rng.permutation(n)
        yield "permuted", take(perm), lambda out: out[np.argsort(perm)]
        yield "permuted", take(slice(None, None, -1)), lambda out: out[::-1]
        yield "duplicated", {k: np.concatenate([v, v]) for k, v in data.items()}, lambda out: (out[:n], out[n:])
        shape = pick(rng, (2, -1), (-1, 2), (1, n), (n, 1), (3, 2, -1))
        yield "reshaped", {k: v.reshape(shape) for k, v in data.items()}, lambda out: out.ravel()
        yield "reshaped", {k: np.asfortranarray(v.reshape(4, -1)) for k, v in data.items()}, lambda out: out.ravel()
        where = np.sort(rng.permutation(2 * n)[:n])
        big = {k: np.concatenate([other[k], other[k]]) for k in data}
        for k in big:
            big[k][where] = data[k]
        yield "embedded", big, lambda out: out[where]

    def decide(self, rng, mon, run, data, other, **detail):
        """run(dataset) evaluates a fresh object."""
        n = next(iter(data.values())).size
        base = np.asarray(run(data), float)
        mon.true("shape", base.shape == (n,), f"output shape {base.shape} for data of shape {(n,)}", key=str(detail), **detail)
        for label, d, back in self.transforms(rng, data, other):
            got = np.asarray(run(d), float)
            shape = next(iter(d.values())).shape
            mon.true("shape", got.shape == shape, f"output shape {got.shape} for data of shape {shape}", key=(str(detail), shape), **detail)
            back = back(got)
            for g in back if isinstance(back, tuple) else (back,):
                mon.close(label, g, base, rtol=self.RTOL, atol=1e-300, **detail)
        cut = int(rng.integers(1, n - 1)) if self.gw.utils.xp is np else n // 3
        parts = [np.asarray(run({k: v[s] for k, v in data.items()}), float) for s in (slice(0, cut), slice(cut, n))]
        mon.close("split", np.concatenate(parts), base, rtol=self.RTOL, atol=1e-300, **detail)
        for i in rng.permutation(n)[:3]:
            got = np.asarray(run({k: v[i : i + 1] for k, v in data.items()}), float)
            mon.true("shape", got.shape == (1,), f"output shape {got.shape} for a single sample", key=str(detail), **detail)
            mon.close("single sample", got, base[i : i + 1], rtol=self.RTOL, atol=1e-300, **detail)

    N = 24

    def s_models(self, rng, mon):
        choose_backend(self, rng, 0.1)
        names = list(specs.registry())
        name = names[mon.case[1] % len(names)]
        case = specs.registry()[name](rng)
        if hasattr(case, "shape"):
            case.cfg["normalization_shape"] = case.shape = pick(rng, (200, 100), (self.N, 2 * self.N), (60, 24))
            case.default = False
        p = case.params(rng)
        data, other = case.data(rng, self.N, p), case.data(rng, self.N, case.params(rng))
        shared = None if case.uses_cache and case.cfg.get("cache", True) else case.build(self.gw)

        def run(d):
            model = shared if shared is not None and rng.random() < 0.5 else case.build(self.gw)
            return mon.call(name, lambda d, q: case.call(model, d, q), to_backend(self.gw, d), p)

        self.decide(rng, mon, run, data, other, case=case.describe())

    def s_densities(self, rng, mon):
        use_backend(self, "numpy")
        u = self.gw.utils
        which = pick(rng, "powerlaw", "truncnorm", "beta_dist", "von_mises")
        kw = dict(
            powerlaw=dict(alpha=edgy(rng, -4, 4, (-1, 0, 1)), high=50.0, low=2.0), truncnorm=dict(mu=edgy(rng, -2, 2, (0,)), sigma=edgy(rng, 0.2, 3), high=1.5, low=-1.0),
            beta_dist=dict(alpha=edgy(rng, 0.5, 5, (1,)), beta=edgy(rng, 0.5, 5, (1,)), scale=1.0), von_mises=dict(mu=0.3, kappa=edgy(rng, 0, 9, (0,))),
        )[which]
        span = dict(powerlaw=(1, 60), truncnorm=(-2, 2), beta_dist=(-0.2, 1.2), von_mises=(-3, 3))[which]
        data, other = dict(x=rng.uniform(*span, self.N)), dict(x=rng.uniform(*span, self.N))
        # parameters that vary with the sample go through the same transformations
        per_sample = rng.random() < 0.5
        if per_sample:
            key = list(kw)[0]
            lo, hi = (1.5, 4) if which in ("beta_dist", "von_mises") else (-2, 2)
            for d in (data, other):
                d[key] = rng.uniform(lo, hi, self.N)

        def run(d):
            return mon.call(which, lambda d: getattr(u, which)(d["x"], **dict(kw, **{k: v for k, v in d.items() if k != "x"})), d)

        self.decide(rng, mon, run, data, other, function=which, parameters=kw)

    def s_populations(self, rng, mon):
        from bilby.hyper.model import Model

        choose_backend(self, rng, 0.1)
        gw = self.gw
        cases = [specs.SmoothedMass(rng, "SinglePeakSmoothedMassDistribution", small=True), specs.Redshift(rng, "PowerLawRedshift"), specs.IIDSpin(rng)]
        p = {}
        for c in cases:
            c.default = False
            p.update(c.params(rng))
        data, other = {}, {}
        for c in cases:
            data.update(c.data(rng, self.N, p))
            other.update(c.data(rng, self.N, p))

        def run(d):
            return mon.call("Model.prob", lambda d, q: Model([c.build(gw) for c in cases]).prob(d, **q), to_backend(gw, d), p)

        self.decide(rng, mon, run, data, other, model="population")

    def s_cosmology(self, rng, mon):
        choose_backend(self, rng, 0.1)
        gw = self.gw
        name = pick(rng, "Planck15", "FlatLambdaCDM", "FlatwCDM")
        p = dict(specs.cosmo_params(rng, name), lamb=2.0, alpha=2.0, mmin=3.0, mmax=90.0)
        make = lambda: dict(mass_1_detector=rng.uniform(5, 100, self.N), luminosity_distance=10 ** rng.uniform(1.5, 4.1, self.N))
        data, other = make(), make()

        def mass(dataset, alpha, mmin, mmax):
            return gw.models.mass.power_law_mass(dataset["mass_1"], alpha, mmin, mmax)

        def run(d):
            m = gw.experimental.cosmo_models.CosmoModel([mass, gw.models.redshift.PowerLawRedshift(cosmo_model=name)], cosmo_model=name)
            return mon.call("CosmoModel.prob", lambda d, q: m.prob(d, **q), to_backend(gw, d), p)

        self.decide(rng, mon, run, data, other, model="cosmology")
