"""C22: conversion between detector and source frame."""
import numpy as np

from .common import *

Z_TOL = 1e-4  # relative accuracy of the tabulated inverse of the luminosity distance


class CheckImpl(Check):
    pid = "C22"
    rule = (
        "conversions of samples with any subset and order of detector-frame, source-frame and unrelated quantities, for all fixed and "
        "parameterised cosmologies, distances from 5 Mpc to z of about 15, one- and two-dimensional data, on both backends; redshift, "
        "Jacobian and converted quantities decided against own quadrature of the Friedmann equation; CosmoModel.prob against the source "
        "density over the Jacobian, its detector-frame integral against one; non-trivial: non-zero oracle value"
    )
    assumptions = [
        "the inverse luminosity distance is tabulated by wcosmo with relative accuracy 1e-4; the Jacobian is decided tightly at the reported redshift",
        "distances between the redshifts 1e-3 and 30; luminosity_distance and redshift are not both supplied",
    ]
    scenarios = {
        "convert": ("s_convert", 90, 1800),
        "order": ("s_order", 30, 500),
        "redshift_only": ("s_redshift_only", 40, 700),
        "model": ("s_model", 50, 900),
        "history": ("s_history", 20, 300),
        "integral": ("s_integral", 12, 150),
        "missing": ("s_missing", 20, 200),
        "likelihood": ("s_likelihood", 15, 300),
    }

    def required(self):
        return [
            "redshift", "jacobian", "source quantity", "pass through", "keys", "key order", "redshift given", "CosmoModel.prob",
            "detector-frame integral", "neither distance nor redshift", "cosmology parameters", "likelihood of detector-frame data",
        ]

    NAMES = ("Planck15", "Planck18", "FlatLambdaCDM", "FlatwCDM", "FlatLambdaCDM", "FlatwCDM", "WMAP9", "Planck13", "Planck15_LAL")

    def mixin(self, rng, name):
        mod = self.gw.experimental.cosmo_models
        if rng.random() < 0.5:
            return mod.CosmoModel([], cosmo_model=name)
        return mod.CosmoMixin(name)

    @staticmethod
    def dl(z, values):
        z = np.asarray(z, float)
        return (1 + z) * ref.comoving_distance(z.ravel(), *values).reshape(z.shape)

    @classmethod
    def ddl(cls, z, values):
        H0, Om0, w0 = values
        z = np.asarray(z, float)
        dc = ref.comoving_distance(z.ravel(), *values).reshape(z.shape)
        return dc + (1 + z) * ref.C_KMS / H0 / ref.efunc(z, Om0, w0)

    POOL = ("mass_1_detector", "mass_2_detector", "chirp_mass_detector", "spin_period_detector")
    OTHER = ("mass_ratio", "a_1", "cos_tilt_1", "detector", "detector_mass", "mass_detector_1", "mass_1_detector_frame", "prior")

    def draw(self, rng, distance=True, shape=None, name=None):
        name = name or pick(rng, *self.NAMES)
        p = specs.cosmo_params(rng, name)
        values = specs.cosmo_values(name, p)
        shape = shape or pick(rng, (40,), (40,), (3, 12), (1,))
        z = 10 ** rng.uniform(-2.9, 1.2, shape)
        z.ravel()[0] = pick(rng, 1e-3, 1.0, 0.1, 10.0)
        data = {"luminosity_distance": self.dl(z, values)} if distance else {"redshift": z}
        n_det = int(rng.integers(0, 4))
        for k in rng.permutation(len(self.POOL))[:n_det]:
            data[self.POOL[k]] = rng.uniform(2, 100, shape)
        for k in rng.permutation(len(self.OTHER))[: int(rng.integers(0, 4))]:
            data[self.OTHER[k]] = rng.uniform(0, 1, shape)
        keys = [list(data)[k] for k in rng.permutation(len(data))]
        return name, p, values, z, {k: data[k] for k in keys}, n_det

    def decide(self, mon, got, data, z, values, n_det, distance=True, **detail):
        samples, jac = got
        expected = {(k[:-9] if k.endswith("_detector") else k) for k in data if k != "luminosity_distance"} | {"redshift"}
        mon.true("keys", set(samples) == expected, f"converted data has {sorted(samples)}, expected {sorted(expected)}", **detail)
        zo = np.asarray(samples["redshift"], float)
        if distance:
            mon.close("redshift", zo, z, rtol=Z_TOL, **detail)
            want = self.ddl(zo, values)
        else:
            mon.same("redshift given", zo, z, **detail)
            want = np.ones(z.shape)
        want = want * (1 + zo) ** n_det
        mon.close("jacobian", jac, want, rtol=1e-8, **detail)
        for k, v in data.items():
            if k.endswith("_detector"):
                mon.close("source quantity", samples[k[:-9]], v / (1 + zo), rtol=1e-12, key=k, **detail)
            elif k not in ("luminosity_distance", "redshift"):
                mon.same("pass through", samples[k], v, key=k, **detail)
        return zo

    def run(self, mon, obj, data, p, extra=None):
        return mon.call("detector_frame_to_source_frame", lambda d, q: obj.detector_frame_to_source_frame(d, **q), to_backend(self.gw, data), dict(p, **(extra or {})))

    def s_convert(self, rng, mon):
        choose_backend(self, rng, 0.15)
        name, p, values, z, data, n = self.draw(rng)
        obj = self.mixin(rng, name)
        mon.note(f"cosmology {name}")
        got = self.run(mon, obj, data, p, dict(alpha=2.0) if rng.random() < 0.5 else None)
        self.decide(mon, got, data, z, values, n, cosmology=name, parameters=p, keys=list(data))

    def s_order(self, rng, mon):
        """The conversion is independent of the order of the keys."""
        use_backend(self, "numpy")
        name, p, values, z, data, n = self.draw(rng, distance=rng.random() < 0.7)
        obj = self.mixin(rng, name)
        first, jac = self.run(mon, obj, data, p)
        for _ in range(3):
            keys = [list(data)[k] for k in rng.permutation(len(data))]
            again, jac2 = self.run(mon, obj, {k: data[k] for k in keys}, p)
            mon.true("keys", set(first) == set(again), f"{sorted(first)} became {sorted(again)}", keys=keys)
            mon.close("key order", jac2, jac, rtol=1e-13, keys=keys)
            for k in first:
                mon.close("key order", again[k], first[k], rtol=1e-14, keys=keys, key=k)

    def s_redshift_only(self, rng, mon):
        choose_backend(self, rng)
        name, p, values, z, data, n = self.draw(rng, distance=False)
        if rng.random() < 0.3:
            z.ravel()[0] = 0.0
            data["redshift"] = z
        obj = self.mixin(rng, name)
        q = p if rng.random() < 0.6 else {}  # no cosmology is needed in this case
        got = self.run(mon, obj, data, q)
        self.decide(mon, got, data, z, values, n, distance=False, cosmology=name, parameters=p, keys=list(data))

    def s_model(self, rng, mon):
        """The probability of detector-frame data under a source-frame population."""
        choose_backend(self, rng, 0.15)
        gw = self.gw
        distance = rng.random() < 0.8
        name, p, values, z, data, n = self.draw(rng, distance=distance, shape=pick(rng, (30,), (2, 15)))
        for k in ("mass_1_detector", "mass_2_detector"):
            data.pop(k, None)
        data["mass_1_detector"] = rng.uniform(5, 80, z.shape) * (1 + z)
        ratio = rng.random() < 0.5
        if ratio:
            data["mass_ratio"] = rng.uniform(0.3, 1, z.shape)
        else:
            data["mass_2_detector"] = data["mass_1_detector"] * rng.uniform(0.3, 1, z.shape)
        n_det = sum(k.endswith("_detector") for k in data)

        def masses(dataset, slope):
            second = dataset["mass_ratio"] if ratio else dataset["mass_2"] / dataset["mass_1"]
            return dataset["mass_1"] ** slope * second

        kind = pick(rng, "function", "PowerLawRedshift")
        if kind == "PowerLawRedshift":
            second = gw.models.redshift.PowerLawRedshift(z_max=10, cosmo_model=name)
        else:
            def second(dataset, lamb):
                return (1 + dataset["redshift"]) ** lamb

        model = gw.experimental.cosmo_models.CosmoModel([masses, second][:: pick(rng, 1, -1)], cosmo_model=name)
        for _ in range(2):
            q = dict(p, slope=edgy(rng, -3, 2), lamb=edgy(rng, -2, 3))
            got = mon.call("CosmoModel.prob", lambda d, q: model.prob(d, **q), to_backend(gw, data), q)
            # the source-frame quantities at the redshift the package itself reports
            zo = np.asarray(self.run(mon, model, data, q)[0]["redshift"])
            m1 = data["mass_1_detector"] / (1 + zo)
            r = data["mass_ratio"] if ratio else data["mass_2_detector"] / data["mass_1_detector"]
            want = m1 ** q["slope"] * r
            tol = 1e-8
            if kind == "function":
                want = want * (1 + zo) ** q["lamb"]
            else:
                zz, ww = ref.gl_points(np.linspace(0, 10, 20), 48)
                f = lambda x: (1 + x) ** (q["lamb"] - 1) * ref.dvc_dz(x, *values)
                want = want * np.where(zo <= 10, f(zo.ravel()).reshape(zo.shape) / np.sum(f(zz) * ww), 0)
                tol = 1e-4
            jac = (self.ddl(zo, values) if distance else 1.0) * (1 + zo) ** n_det
            mon.close("CosmoModel.prob", got, want / jac, rtol=tol, parameters=q, cosmology=name, keys=list(data))
            if name.startswith("Flat"):
                p = specs.cosmo_params(rng, name)
                values = specs.cosmo_values(name, p)
                # keep the redshifts of the fixed distances in range
                if distance:
                    data["luminosity_distance"] = self.dl(z, values)

    def s_history(self, rng, mon):
        """One object, a sequence of cosmological parameters: each conversion uses its own."""
        choose_backend(self, rng, 0.2)
        name = pick(rng, "FlatLambdaCDM", "FlatwCDM")
        _, p, values, z, data, n = self.draw(rng, name=name, shape=(20,))
        obj = self.mixin(rng, name)
        dl = data["luminosity_distance"]
        seen = []
        for _ in range(4):
            got = self.run(mon, obj, data, p)
            zo = np.asarray(got[0]["redshift"], float)
            ok = (zo > 2e-4) & (zo < 50)
            mon.close("cosmology parameters", np.where(ok, self.dl(zo, values), dl), dl, rtol=3 * Z_TOL, parameters=p)
            mon.close("jacobian", got[1], self.ddl(zo, values) * (1 + zo) ** n, rtol=1e-8, parameters=p)
            seen.append(zo)
            p = specs.cosmo_params(rng, name)
            if rng.random() < 0.4:  # change one parameter only
                old = dict(zip(("H0", "Om0", "w0"), values))
                keep = pick(rng, *list(p))
                p = {k: (p[k] if k == keep else old[k]) for k in p}
            values = specs.cosmo_values(name, p)
            mon.true("names", sorted(obj.cosmology_variables(dict(p, other=1))) == sorted(p), "cosmology_variables", nontrivial=False)

    def s_integral(self, rng, mon):
        """A normalised source-frame density stays normalised over detector-frame coordinates."""
        use_backend(self, "numpy")
        gw = self.gw
        name = pick(rng, *self.NAMES)
        p = specs.cosmo_params(rng, name)
        values = specs.cosmo_values(name, p)
        zmax = edgy(rng, 0.5, 4, (1.0,))
        mods = [gw.models.redshift.PowerLawRedshift(z_max=zmax, cosmo_model=name)]
        with_mass = rng.random() < 0.7
        q = dict(p, lamb=edgy(rng, -2, 4, (0.0,)))
        n = 400
        edges = np.linspace(0, self.dl(np.array([zmax]), values)[0] * 1.001, n + 1)
        edges[0] = self.dl(np.array([1e-4]), values)[0]
        dmid, dw = 0.5 * (edges[1:] + edges[:-1]), np.diff(edges)
        data = dict(luminosity_distance=dmid)
        w = dw
        if with_mass:
            lo, hi = 5.0, 40.0
            q.update(alpha=edgy(rng, -2, 3), mmin=lo, mmax=hi)


            def mass(dataset, alpha, mmin, mmax):
                return gw.utils.powerlaw(dataset["mass_1"], alpha=-alpha, high=mmax, low=mmin)

            mods.append(mass)
            # the limits of the mass integral depend on the distance
            x, xw = ref.gl_points([0, 1], 48)
            zmid = np.interp(dmid, self.dl(np.logspace(-4.5, 1, 4000), values), np.logspace(-4.5, 1, 4000))
            m = lo * 1.0000001 * (1 + zmid)[:, None] + 1e-3 + ((hi - lo) * (1 + zmid)[:, None] - 2e-3) * x
            w = dw[:, None] * ((hi - lo) * (1 + zmid)[:, None] - 2e-3) * xw
            data = dict(luminosity_distance=np.broadcast_to(dmid[:, None], m.shape).copy(), mass_1_detector=m)
        model = gw.experimental.cosmo_models.CosmoModel(mods, cosmo_model=name)
        got = mon.call("CosmoModel.prob", lambda d, q: model.prob(d, **q), data, q)
        mon.close("detector-frame integral", np.sum(np.asarray(got) * w), 1.0, rtol=8e-3, parameters=q, cosmology=name, zmax=zmax)

    def s_missing(self, rng, mon):
        choose_backend(self, rng)
        name, p, values, z, data, n = self.draw(rng)
        obj = self.mixin(rng, name)
        data.pop("luminosity_distance")
        if rng.random() < 0.3:
            data["redshift_detector"] = z + 0.1
        bd = to_backend(self.gw, data)
        mon.raises("neither distance nor redshift", ValueError, lambda: obj.detector_frame_to_source_frame(bd, **p))
        if hasattr(obj, "prob"):
            mon.raises("neither distance nor redshift", ValueError, lambda: obj.prob(bd, **p))

    def s_likelihood(self, rng, mon):
        """A likelihood of detector-frame posteriors and injections."""
        import pandas as pd

        use_backend(self, "numpy")
        gw = self.gw
        name = pick(rng, "FlatLambdaCDM", "FlatwCDM", "Planck15")
        p = specs.cosmo_params(rng, name)
        values = specs.cosmo_values(name, p)

        def masses(dataset, slope):
            return dataset["mass_1"] ** slope * dataset["mass_ratio"]

        def shifts(dataset, lamb):
            return (1 + dataset["redshift"]) ** lamb

        def make(m):
            z = rng.uniform(0.05, 2, m)
            return dict(luminosity_distance=self.dl(z, (70.0, 0.3, -1.0)), mass_1_detector=rng.uniform(5, 80, m) * (1 + z), mass_ratio=rng.uniform(0.2, 1, m), prior=rng.uniform(0.1, 2, m))

        posts = [make(15) for _ in range(3)]
        inj = make(60)
        build = lambda: gw.experimental.cosmo_models.CosmoModel([masses, shifts], cosmo_model=name)
        vt = gw.vt.ResamplingVT(model=build(), data=dict(inj, total_generated=500), n_events=3, enforce_convergence=False)
        lik = gw.hyperpe.HyperparameterLikelihood([pd.DataFrame(x) for x in posts], build(), selection_function=vt)
        q = dict(p, slope=edgy(rng, -3, 2), lamb=edgy(rng, -2, 3))

        def weights(d):
            # invert the distance by interpolation in a fine table of my own
            grid = np.concatenate([[0], np.logspace(-5, 1.2, 20000)])
            z = np.interp(d["luminosity_distance"], self.dl(grid, values), grid)
            src = (d["mass_1_detector"] / (1 + z)) ** q["slope"] * d["mass_ratio"] * (1 + z) ** q["lamb"]
            return src / self.ddl(z, values) / (1 + z) / d["prior"]

        want = sum(np.log(weights(x).mean()) for x in posts) - 3 * np.log(weights(inj).sum() / 500)
        got = mon.call("log_likelihood_ratio", lik.log_likelihood_ratio, q)
        mon.close("likelihood of detector-frame data", got, want, rtol=0, atol=5e-3, parameters=q, cosmology=name)
