"""C08: redshift models."""
import numpy as np

from .common import *

MODELS = ("PowerLawRedshift", "MadauDickinsonRedshift")


class CheckImpl(ModelCheck):
    pid = "C08"
    rule = (
        "evaluations of the redshift models for fixed and parameterised cosmologies, z_max from 0.3 to 10, on both backends, decided "
        "against direct quadrature of the Friedmann equation; normalisation, differential volume, total_four_volume and the "
        "hypervolume of a selection function against the same integrals; non-trivial: non-zero oracle value"
    )
    assumptions = ["flat cosmologies without radiation, as in wcosmo", "three times the error of a 2500-point trapezoid as budget of the normalisation"]
    scenarios = {
        "power_law": ("s_power_law", 40, 800),
        "madau": ("s_madau", 40, 800),
        "volume": ("s_volume", 40, 800),
        "psi": ("s_psi", 30, 600),
        "integral": ("s_integral", 30, 500),
        "four_volume": ("s_four_volume", 30, 500),
        "hypervolume": ("s_hypervolume", 30, 500),
        "subclass": ("s_subclass", 15, 300),
    }

    def required(self):
        return [
            "PowerLawRedshift density", "MadauDickinsonRedshift density", "comoving volume element", "differential spacetime volume", "normalisation",
            "psi", "psi(0)=1", "unit integral", "total_four_volume", "surveyed hypervolume", "user-defined redshift model", "zero above z_max",
        ]

    def both(self, rng, mon, name):
        choose_backend(self, rng)
        case = specs.Redshift(rng, name)
        model = case.build(self.gw)
        for _ in range(2):
            p = case.params(rng)
            data = case.data(rng, 120, p)
            got = mon.call(name, lambda d, q: case.call(model, d, q), to_backend(self.gw, data), p)
            decide_density(mon, f"{name} density", case, data, p, got)
            g = np.asarray(got)
            mon.true("zero above z_max", np.all(g[data["redshift"] > case.z_max] == 0) and np.all(g[data["redshift"] <= case.z_max] > 0), "support is not (0, z_max]", parameters=p)

    def s_power_law(self, rng, mon):
        self.both(rng, mon, MODELS[0])

    def s_madau(self, rng, mon):
        self.both(rng, mon, MODELS[1])

    def budget(self, case, p, lo=1e-6):
        grid = np.linspace(lo, case.z_max, 2500)
        exact = case.norm(p)
        return exact, abs(float(ref.trapz(case.diff(grid, p), grid)) - exact)

    def s_volume(self, rng, mon):
        choose_backend(self, rng)
        xp = self.gw.utils.xp
        case = specs.Redshift(rng, pick(rng, *MODELS))
        model, p = case.build(self.gw), case.params(rng)
        z = case.data(rng, 80, p)["redshift"]
        got = mon.call("dvc_dz", lambda z, **q: model.dvc_dz(z, **q), xp.asarray(z), **p)
        mon.close("comoving volume element", got, case.dvc(z, p), rtol=1e-8, case=case.describe(), parameters=p)
        extra = dict(p, unrelated=1.0)
        got = mon.call("differential_spacetime_volume", lambda d, q: model.differential_spacetime_volume(d, **q), dict(redshift=xp.asarray(z)), extra)
        mon.close("differential spacetime volume", got, case.diff(z, p), rtol=1e-8, case=case.describe(), parameters=p)
        got = mon.call("differential_spacetime_volume", lambda d, q: model.differential_spacetime_volume(d, bounds=True, **q), dict(redshift=xp.asarray(z)), extra)
        mon.close("differential spacetime volume", got, case.diff(z, p) * (z <= case.z_max), rtol=1e-8, case=case.describe(), parameters=p)
        exact, budget = self.budget(case, p)
        got = mon.call("normalisation", model.normalisation, extra)
        mon.close("normalisation", got, exact, rtol=1e-8, atol=3 * budget, case=case.describe(), parameters=p)

    def s_psi(self, rng, mon):
        choose_backend(self, rng)
        xp = self.gw.utils.xp
        case = specs.Redshift(rng, pick(rng, *MODELS))
        model, p = case.build(self.gw), case.params(rng)
        z = np.concatenate([[0.0], rng.uniform(0, 12, 40)])
        got = np.asarray(mon.call("psi_of_z", lambda z, **q: model.psi_of_z(z, **q), xp.asarray(z), **p))
        mon.close("psi", got, case.psi(z, p), rtol=1e-10, parameters=p)
        mon.close("psi(0)=1", got[0], 1.0, rtol=1e-10, parameters=p)

    def s_integral(self, rng, mon):
        use_backend(self, "numpy")
        case = specs.Redshift(rng, pick(rng, *MODELS))
        model, p = case.build(self.gw), case.params(rng)
        z, w = ref.gl_points(np.linspace(0, case.z_max, 12), 48)
        got = mon.call(case.name, lambda d, q: model(d, **q), dict(redshift=z), p)
        mon.close("unit integral", np.sum(got * w), 1.0, rtol=2e-5, case=case.describe(), parameters=p)

    def s_four_volume(self, rng, mon):
        choose_backend(self, rng)
        lamb, time = edgy(rng, -4, 8, (0, 1, 2.7)), edgy(rng, 0.01, 5, (1, 1.0))
        zmax = edgy(rng, 0.3, 8, (2.3, 1.0))
        case = specs.Redshift(np.random.default_rng(0), "PowerLawRedshift")
        case.z_max, case.cosmo = zmax, "Planck15"
        kw = dict(max_redshift=zmax)
        if zmax == 2.3 and rng.random() < 0.7:
            kw = {}
        exact, budget = self.budget(case, dict(lamb=lamb), 0.0)
        got = mon.call("total_four_volume", self.gw.models.redshift.total_four_volume, lamb, time, **kw)
        mon.close("total_four_volume", got, exact / 1e9 * time, rtol=1e-7, atol=3 * budget / 1e9 * time, lamb=lamb, time=time, zmax=zmax)

    def s_hypervolume(self, rng, mon):
        """Surveyed hypervolume of a selection function is the redshift model's normalisation."""
        choose_backend(self, rng)
        gw = self.gw
        time = edgy(rng, 0.05, 3, (1.0,))
        case = specs.Redshift(rng, pick(rng, *MODELS))
        p = case.params(rng)
        inj = dict(redshift=gw.utils.xp.asarray(rng.uniform(0.01, 1, 20)), mass_1=gw.utils.xp.asarray(rng.uniform(5, 50, 20)), prior=gw.utils.xp.asarray(rng.uniform(0.1, 1, 20)), total_generated=1000)
        given_time = rng.random() < 0.8
        if given_time:
            inj["analysis_time"] = time
        else:
            time = 1.0

        def flat(dataset):
            return gw.utils.xp.ones(dataset["mass_1"].shape)

        with_z = rng.random() < 0.7
        models = [flat, case.build(gw)] if with_z else [flat]
        if with_z and rng.random() < 0.5:
            models = models[::-1]
        vt = gw.vt.ResamplingVT(model=models, data=inj, n_events=3)
        got = mon.call("surveyed_hypervolume", vt.surveyed_hypervolume, dict(p, other=2.0))
        if not with_z:
            case.z_max, case.cosmo, case.name, p = 2.3, "Planck15", "PowerLawRedshift", dict(lamb=0.0)
        exact, budget = self.budget(case, p, 0.0)
        budget = max(budget, self.budget(case, p)[1])
        mon.close("surveyed hypervolume", got, exact / 1e9 * time, rtol=1e-7, atol=3 * budget / 1e9 * time, parameters=p, with_redshift_model=with_z)

    def s_subclass(self, rng, mon):
        choose_backend(self, rng)
        gw = self.gw
        a = edgy(rng, 0.1, 3)

        class Mine(gw.models.redshift._Redshift):
            base_variable_names = ["slope"]

            def psi_of_z(self, redshift, **parameters):
                return 1 + parameters["slope"] * redshift

        case = specs.Redshift(rng, "PowerLawRedshift")
        case.psi = lambda z, p: 1 + p["slope"] * z
        p = dict(case.params(rng), slope=a)
        p.pop("lamb")
        model = Mine(**case.cfg)
        mon.true("names of a user-defined model", sorted(model.variable_names) == sorted(p), f"{model.variable_names}")
        data = case.data(rng, 60, p)
        got = mon.call("user redshift", lambda d, q: model(d, **q), to_backend(gw, data), p)
        decide_density(mon, "user-defined redshift model", case, data, p, got)
