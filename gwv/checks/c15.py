"""C15: rate and null likelihoods."""
import numpy as np

from ..catalog import World
from .common import *

WORST = -np.finfo(float).max


class CheckImpl(Check):
    pid = "C15"
    rule = (
        "RateLikelihood evaluations (rates over 7 decades, all selection forms including a vanishing one, both backends) against the Poisson "
        "estimate from the original data frames; NullHyperparameterLikelihood against the variance of the same catalogue; "
        "non-trivial: finite non-zero estimate"
    )
    scenarios = {"rate": ("s_rate", 120, 3000), "null": ("s_null", 60, 1500), "vanishing": ("s_vanishing", 40, 800), "profile": ("s_profile", 30, 500)}

    def required(self):
        return ["Poisson ln likelihood", "Poisson variance", "Poisson log_likelihood_ratio", "rate posterior is the sampled rate", "null likelihood is zero", "null likelihood rejected", "null variance", "vanishing selection", "profile in the rate"]

    def s_rate(self, rng, mon):
        choose_backend(self, rng)
        w = World(self.gw, rng, "RateLikelihood")
        for _ in range(4):
            p, q = w.params(rng)
            p["rate"] = q["rate"] = float(10 ** rng.uniform(-3, 4))
            lnl, var, *_ = w.estimate(q)
            mon.close("rate posterior is the sampled rate", mon.call("rate posterior", w.lik.generate_rate_posterior_sample, p), p["rate"], rtol=0)
            if not np.isfinite(lnl):
                continue
            got, gvar = mon.call("ln_likelihood_and_variance", w.lik.ln_likelihood_and_variance, p)
            mon.close("Poisson ln likelihood", got, lnl, rtol=1e-9, atol=1e-9, parameters=p, selection=w.sel.kind)
            mon.close("Poisson variance", gvar, var, rtol=1e-8, atol=1e-12, parameters=p, selection=w.sel.kind)
            mon.close("Poisson log_likelihood_ratio", mon.call("log_likelihood_ratio", w.lik.log_likelihood_ratio, p), lnl, rtol=1e-9, atol=1e-9, parameters=p)
            noise = float(np.sum(w.evidences)) if w.evidences is not None else np.nan
            mon.close("Poisson log_likelihood", mon.call("log_likelihood", w.lik.log_likelihood, p), lnl + noise, rtol=1e-9, atol=1e-9, parameters=p)

    def s_profile(self, rng, mon):
        """Ratios between rates involve neither the data nor the estimator."""
        choose_backend(self, rng)
        w = World(self.gw, rng, "RateLikelihood", zeros=False)
        p, q = w.params(rng)
        sel = w.sel.oracle(q)[0]
        n = w.cat.n
        r1, r2 = (float(10 ** rng.uniform(-2, 3)) for _ in range(2))
        a, va = mon.call("at R1", w.lik.ln_likelihood_and_variance, dict(p, rate=r1))
        b, vb = mon.call("at R2", w.lik.ln_likelihood_and_variance, dict(p, rate=r2))
        want = n * np.log(r1 / r2) - (r1 - r2) * sel
        mon.close("profile in the rate", float(a) - float(b), want, rtol=1e-9, atol=1e-8 * (1 + abs(float(a))), r1=r1, r2=r2)

    def s_vanishing(self, rng, mon):
        """No expected detections: the expected number is zero, which is a usable value."""
        choose_backend(self, rng)
        w = World(self.gw, rng, "RateLikelihood", kind="default", zeros=False)
        p, q = w.params(rng)
        lnbf, var = w.events(q)
        form = pick(rng, "plain", "array")
        zero = 0.0 if form == "plain" else self.gw.utils.xp.zeros(())
        w.lik.selection_function = lambda parameters: zero
        with np.errstate(all="ignore"):
            ln, _ = w.lik.ln_likelihood_and_variance(p)
        mon.events += 1
        mon.close("vanishing selection", ln, lnbf.sum() + w.cat.n * np.log(q["rate"]), rtol=1e-9, atol=1e-9, parameters=p)

    def s_null(self, rng, mon):
        choose_backend(self, rng)
        w = World(self.gw, rng, "NullHyperparameterLikelihood", zeros=False)
        for _ in range(4):
            p, q = w.params(rng)
            _, var, *_ = w.estimate(q)
            if not var > 1e-8:
                continue
            ln, gvar = mon.call("ln_likelihood_and_variance", w.lik.ln_likelihood_and_variance, p)
            mon.close("null variance", gvar, var, rtol=1e-8, atol=1e-12, parameters=p)
            w.lik.maximum_uncertainty = pick(rng, np.inf, float(np.sqrt(var) * 1.001), float(np.sqrt(var) * 3))
            mon.true("null likelihood is zero", float(mon.call("log_likelihood_ratio", w.lik.log_likelihood_ratio, p)) == 0.0, "not zero below the allowed uncertainty", parameters=p, variance=var)
            w.lik.maximum_uncertainty = pick(rng, float(np.sqrt(var) * 0.999), float(np.sqrt(var) * 0.1))
            mon.true("null likelihood rejected", float(mon.call("log_likelihood_ratio", w.lik.log_likelihood_ratio, p)) == WORST, "not rejected above the allowed uncertainty", parameters=p, variance=var)
