"""C13: the hyperparameter likelihood estimator."""
import numpy as np
import pandas as pd

from ..catalog import World
from .common import *

TOL = dict(rtol=1e-9, atol=1e-9)


class CheckImpl(Check):
    pid = "C13"
    rule = (
        "likelihood evaluations on synthetic catalogues (1-7 events, equal and unequal posteriors, with and without sampling prior, "
        "evidences, conversion, all forms of population model and selection function, cached and uncached, both backends) and on "
        "catalogues with the package's own models, decided against the estimator computed from the original data frames; "
        "non-trivial: finite non-zero log likelihood"
    )
    assumptions = ["samples are identified through an id column, so the oracle knows which of them were kept"]
    scenarios = {
        "estimator": ("s_estimator", 150, 4000),
        "package_models": ("s_package", 12, 200),
    }

    def required(self):
        return ["ln likelihood", "variance", "log_likelihood_ratio", "log_likelihood", "noise log likelihood", "end-to-end ln likelihood", "selection default", "selection number", "selection tuple", "selection vt"]

    def s_estimator(self, rng, mon):
        choose_backend(self, rng)
        w = World(self.gw, rng)
        lik = w.lik
        for k in range(4):
            if k == 2 and rng.random() < 0.5:
                p, q = p0  # the same point again
            else:
                p, q = w.params(rng)
            p0 = p, q
            lnl, var, *_ = w.estimate(q)
            if not np.isfinite(lnl):
                mon.note("non-finite estimate")
                continue
            got, gvar = mon.call("ln_likelihood_and_variance", lik.ln_likelihood_and_variance, p)
            mon.close("ln likelihood", got, lnl, **TOL, parameters=p, selection=w.sel.kind)
            mon.close(f"selection {w.sel.kind}", got, lnl, **TOL)
            mon.close("variance", gvar, var, rtol=1e-8, atol=1e-12, parameters=p, selection=w.sel.kind)
            ratio = mon.call("log_likelihood_ratio", lik.log_likelihood_ratio, p)
            mon.close("log_likelihood_ratio", ratio, lnl, **TOL, parameters=p)
            full = mon.call("log_likelihood", lik.log_likelihood, p)
            noise = float(np.sum(w.evidences)) if w.evidences is not None else np.nan
            mon.close("noise log likelihood", mon.call("noise_log_likelihood", lik.noise_log_likelihood), noise, rtol=1e-12)
            mon.close("log_likelihood", full, noise + lnl, **TOL, parameters=p)

    def s_package(self, rng, mon):
        """The package's own models, selection from injections, physical data."""
        from bilby.hyper.model import Model

        choose_backend(self, rng, 0.3)
        gw = self.gw
        parts = [specs.SpinMagnitude(rng, pick(rng, "iid_spin_magnitude_beta", "independent_spin_magnitude_beta"))]
        parts.append(specs.Redshift(rng, pick(rng, "PowerLawRedshift", "MadauDickinsonRedshift")))
        mass = pick(rng, "smooth", "pl", "two")
        parts.append(specs.SmoothedMass(rng, "SinglePeakSmoothedMassDistribution") if mass == "smooth" else specs.AnalyticMass(rng, "power_law_primary_mass_ratio" if mass == "pl" else "two_component_primary_mass_ratio"))
        parts[-1].gmax = 100.0 if mass == "two" else None  # bilby's Model asks for every argument
        if rng.random() < 0.5:
            parts.append(specs.SpinTilt(rng, "iid_spin_orientation_gaussian_isotropic"))
            parts[-1].with_mu = True
        ps = [c.params(rng, smooth=True) for c in parts]
        n, k, m = int(rng.integers(2, 5)), 40, 120

        def draw(size):
            d = {}
            for c, p in zip(parts, ps):
                d.update(c.data(rng, size, p, hostile=False))
            d["prior"] = 10 ** rng.uniform(-1, 1, size)
            return d

        frames = [pd.DataFrame(draw(k)) for _ in range(n)]
        inj = draw(m)
        total = 5 * m
        from bilby.hyper.model import Model

        build = lambda: [c.build(gw) for c in parts]
        vt = gw.vt.ResamplingVT(model=Model(build(), cache=bool(rng.random() < 0.5)), data=dict(to_backend(gw, inj), total_generated=total), n_events=n, enforce_convergence=False)
        lik = gw.hyperpe.HyperparameterLikelihood([f.copy() for f in frames], Model(build(), cache=bool(rng.random() < 0.5)), selection_function=vt)
        data = {c: np.stack([f[c] for f in frames]) for c in frames[0]}

        def prob(d):
            out, rel = 1.0, 0.0
            for c, p in zip(parts, ps):
                v, b = c.ref(d, p)
                out = out * v
                rel = rel + np.where(v > 0, b / np.where(v > 0, v, 1), 0.0)
            return out, rel

        for _ in range(2):
            full = {}
            for p in ps:
                full.update(p)
            pop, rel = prob(data)
            wts = pop / data["prior"]
            ipop, irel = prob(inj)
            iw = ipop / inj["prior"]
            lnbf, var = ref.per_event(wts)
            mu, svar = ref.efficiency(iw, total)
            if np.all(np.isfinite(lnbf)) and mu > 0 and np.nanmax(rel) < 0.2 and np.nanmax(irel) < 0.2:
                got, gvar = mon.call("ln_likelihood_and_variance", lik.ln_likelihood_and_variance, full)
                tol = 3 * n * (np.max(rel) + np.max(irel)) + 1e-5
                mon.close("end-to-end ln likelihood", got, lnbf.sum() - n * np.log(mu), rtol=1e-6, atol=tol, parameters=full)
                mon.close("end-to-end variance", gvar, var.sum() + n**2 * svar / mu**2, rtol=1e-3 + 3 * tol, atol=1e-9, parameters=full)
            ps = [c.params(rng, smooth=True) for c in parts]
