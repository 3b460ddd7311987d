"""C24: compiled likelihoods."""
import pickle

import numpy as np
import pandas as pd

from ..catalog import World
from .common import *

WORST = -np.finfo(float).max


class CheckImpl(Check):
    pid = "C24"
    rule = (
        "random histories of calls to one or two JittedLikelihoods (of all likelihood classes, selection-function forms and conversion "
        "functions, and of the package's own mass, spin and redshift models with injections) interleaved with plain evaluations, with "
        "repeated points, changing parameter types and rejected points; every value decided against the oracle and against the plain "
        "evaluation; non-trivial: a finite accepted value or a rejection"
    )
    assumptions = ["caching in population models is disabled, as compiled likelihoods require", "the uncertainty limit is set before the first compiled call", "the default likelihood_func, use_ratio not changed"]
    scenarios = {
        "history": ("s_history", 40, 500),
        "dictionary": ("s_dictionary", 24, 300),
        "two": ("s_two", 12, 150),
        "rejected": ("s_rejected", 24, 300),
        "models": ("s_models", 6, 60),
        "attributes": ("s_attributes", 16, 200),
        "custom": ("s_custom", 8, 100),
    }

    def required(self):
        return [
            "ratio equals oracle", "ratio equals plain evaluation", "log likelihood", "noise log likelihood", "python float", "finite ratio",
            "same point again", "rejected point", "attribute", "likelihood of package models", "custom likelihood function", "one dictionary updated in place",
        ]

    CLASSES = ("HyperparameterLikelihood", "HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood")

    def make(self, rng, **kw):
        use_backend(self, "jax")
        kw.setdefault("cls", pick(rng, *self.CLASSES))
        kw.setdefault("zeros", False)
        w = World(self.gw, rng, cache=False, **kw)
        jit = self.gw.experimental.jax.JittedLikelihood(w.lik)
        return w, jit

    def typed(self, rng, p):
        """The same point with other number types."""
        import jax.numpy as jnp

        u = rng.random()
        if u < 0.5:
            return dict(p)
        f = pick(rng, np.float64, np.asarray, jnp.asarray)
        keys = list(p)
        if rng.random() < 0.3:
            keys = [keys[k] for k in rng.permutation(len(keys))]
        return {k: f(p[k]) for k in keys}

    def judge(self, rng, mon, w, jit, p, q):
        want = w.estimate(q)[0]
        got = mon.call("jitted log_likelihood_ratio", jit.log_likelihood_ratio, self.typed(rng, p))
        mon.true("python float", type(got) is float, f"returned {type(got)}", nontrivial=False)
        mon.true("finite ratio", np.isfinite(got), f"returned {got}", parameters=p)
        if np.isfinite(want):
            mon.close("ratio equals oracle", got, want, rtol=1e-9, atol=1e-9, parameters=p, cls=w.cls)
        return got

    def plain(self, mon, w, p):
        return float(mon.call("plain log_likelihood_ratio", w.lik.log_likelihood_ratio, p))

    def s_history(self, rng, mon):
        w, jit = self.make(rng)
        points = [w.params(rng) for _ in range(4)]
        seen = {}
        for _ in range(9):
            k = int(rng.integers(len(points)))
            p, q = points[k]
            u = rng.random()
            if u < 0.25:
                self.plain(mon, w, p)
                continue
            if u < 0.45:
                want = w.evidences.sum() if isinstance(w.evidences, np.ndarray) else (sum(w.evidences) if w.evidences is not None else np.nan)
                noise = mon.call("noise_log_likelihood", jit.noise_log_likelihood)
                mon.close("noise log likelihood", noise, want, rtol=1e-12)
                got = mon.call("jitted log_likelihood", jit.log_likelihood, self.typed(rng, p))
                mon.close("log likelihood", got, want + w.estimate(q)[0], rtol=1e-9, atol=1e-9, parameters=p, cls=w.cls)
                mon.close("log likelihood", got, w.lik.log_likelihood(dict(p)), rtol=1e-10, atol=1e-10, parameters=p, cls=w.cls)
                mon.true("python float", isinstance(got, float), f"returned {type(got)}", nontrivial=False)
                continue
            got = self.judge(rng, mon, w, jit, p, q)
            mon.close("ratio equals plain evaluation", got, self.plain(mon, w, p), rtol=1e-10, atol=1e-10, parameters=p, cls=w.cls)
            if k in seen:
                mon.close("same point again", got, seen[k], rtol=1e-12, atol=1e-12)
            seen[k] = got

    def s_dictionary(self, rng, mon):
        """As samplers do: one dictionary for the whole run, updated in place, sometimes with objects kept outside."""
        w, jit = self.make(rng)
        live = {}
        for _ in range(6):
            p, q = w.params(rng)
            live.update(p)
            before = dict(live)
            which = pick(rng, "log_likelihood_ratio", "log_likelihood_ratio", "log_likelihood")
            got = mon.live("jitted " + which, getattr(jit, which), live)
            mon.true("parameters untouched", set(live) == set(before) and all(live[k] is before[k] for k in before), "the dictionary of the caller was changed")
            want = w.estimate(q)[0]
            if which == "log_likelihood":
                want = want + (np.sum(w.evidences) if w.evidences is not None else np.nan)
            mon.close("one dictionary updated in place", got, want, rtol=1e-9, atol=1e-9, parameters=p, cls=w.cls)
            if rng.random() < 0.3:  # as a new object that may reuse the memory of the old one
                live = dict(live)

    def s_two(self, rng, mon):
        """Two compiled likelihoods of the same class, shapes and names do not share results."""
        cls = pick(rng, *self.CLASSES[:3])
        state = int(rng.integers(2**31))
        made = []
        for _ in range(2):
            r = np.random.default_rng(state)
            w, jit = self.make(r, cls=cls, n_events=2, kind=pick(r, "default", "vt", "number"), conversion=False)
            made.append((w, jit))
            state = state if rng.random() < 0.0 else int(rng.integers(2**31))
        for _ in range(6):
            w, jit = made[int(rng.integers(2))]
            p, q = w.params(rng)
            got = self.judge(rng, mon, w, jit, p, q)
            mon.close("ratio equals plain evaluation", got, self.plain(mon, w, p), rtol=1e-10, atol=1e-10, parameters=p)

    def s_rejected(self, rng, mon):
        limit = float(10 ** rng.uniform(-1.5, 0.5))
        zeros = rng.random() < 0.5
        w, jit = self.make(rng, zeros=zeros, maximum_uncertainty=limit)
        for _ in range(5):
            p, q = w.params(rng)
            if zeros and rng.random() < 0.5:
                p["ycut"] = q["ycut"] = 1e-9  # no sample has any support
            with np.errstate(all="ignore"):
                lnl, var, *_ = w.estimate(q)
            if not np.isfinite(lnl):
                reject = True
            elif np.isfinite(var) and abs(var / limit**2 - 1) > 1e-6:
                reject = var > limit**2
            else:
                continue
            if w.cls == "NullHyperparameterLikelihood" and not np.isfinite(var):
                continue
            got = mon.call("jitted log_likelihood_ratio", jit.log_likelihood_ratio, p)
            mon.true("finite ratio", np.isfinite(got), f"returned {got}", parameters=p)
            mon.true("python float", type(got) is float, f"returned {type(got)}", nontrivial=False)
            plain = self.plain(mon, w, p)
            mon.close("ratio equals plain evaluation", got, plain, rtol=1e-10, atol=1e-10, parameters=p)
            if reject:
                mon.true("rejected point", got == WORST, f"{got} for a point that has to be rejected (variance {var}, limit {limit})", parameters=p, cls=w.cls)
            else:
                mon.close("ratio equals oracle", got, lnl, rtol=1e-9, atol=1e-9, parameters=p, cls=w.cls)

    def s_models(self, rng, mon):
        """The package's own models in a compiled likelihood, against reference densities."""
        from bilby.hyper.model import Model

        use_backend(self, "jax")
        gw = self.gw
        jnp = gw.utils.xp
        mass = pick(rng, "PowerLawRedshift", "two_component_primary_mass_ratio", "iid_spin_magnitude_beta", "gaussian_chi_eff", "SinglePeakSmoothedMassDistribution")
        reg = specs.registry()
        case = reg[mass](np.random.default_rng(int(rng.integers(2**31))))
        if hasattr(case, "cfg") and "cache" in case.cfg:
            case.cfg["cache"] = False
        p = case.params(rng)

        def datum(n):
            return case.data(rng, n, p, hostile=False)

        posts = [datum(20) for _ in range(3)]
        inj = datum(60)
        build = lambda: Model([case.build(gw)], cache=False)
        vt = gw.vt.ResamplingVT(model=pick(rng, build, lambda: [case.build(gw)], lambda: case.build(gw))(), data=dict({k: jnp.asarray(v) for k, v in inj.items()}, prior=jnp.ones(60), total_generated=500), n_events=3, enforce_convergence=False)
        lik = gw.hyperpe.HyperparameterLikelihood([pd.DataFrame(x) for x in posts], build(), selection_function=vt)
        jit = gw.experimental.jax.JittedLikelihood(lik)
        for _ in range(3):
            names = {k: p[k] for k in p}
            if mass == "two_component_primary_mass_ratio":
                names["gaussian_mass_maximum"] = names.get("gaussian_mass_maximum", 100)
            dens = [case.ref(d, p) for d in posts]
            di, bi = case.ref(inj, p)
            ok = all(np.all(np.isfinite(d)) and d.mean() > 0 for d, _ in dens) and di.sum() > 0
            got = mon.call("jitted log_likelihood_ratio", jit.log_likelihood_ratio, names)
            plain = float(lik.log_likelihood_ratio(dict(names)))
            mon.close("ratio equals plain evaluation", got, plain, rtol=1e-9, atol=1e-9, model=mass, parameters=p)
            if ok:
                want = sum(np.log(d.mean()) for d, _ in dens) - 3 * np.log(di.sum() / 500)
                slack = sum(b.mean() / d.mean() for d, b in dens) + 3 * bi.sum() / di.sum()
                mon.close("likelihood of package models", got, want, rtol=1e-9, atol=1e-4 + 3 * slack, model=mass, parameters=p)
            p = case.params(rng)

    def s_attributes(self, rng, mon):
        w, jit = self.make(rng)
        for name in ("n_posteriors", "samples_per_posterior", "maximum_uncertainty", "data", "sampling_prior", "hyper_prior", "selection_function", "conversion_function", "total_noise_evidence"):
            mon.true("attribute", getattr(jit, name) is getattr(w.lik, name) or getattr(jit, name) == getattr(w.lik, name), f"{name} differs", key=(name, self.mon.case))
        p, q = w.params(rng)
        got = mon.call("generate_extra_statistics", jit.generate_extra_statistics, p)
        want = w.lik.generate_extra_statistics(dict(p))
        mon.true("attribute", set(got) == set(want), "extra statistics through the wrapper")
        for k in want:
            mon.close("extra statistics", got[k], want[k], rtol=1e-10)
        ln, var = mon.call("ln_likelihood_and_variance", jit.ln_likelihood_and_variance, p)
        mon.close("estimator through the wrapper", ln, w.estimate(q)[0], rtol=1e-9, atol=1e-9)
        mon.raises("missing attribute", AttributeError, lambda: jit.no_such_attribute)
        self.judge(rng, mon, w, jit, *w.params(rng))

    def s_custom(self, rng, mon):
        """A user-supplied likelihood function with additional arguments."""
        w, _ = self.make(rng)

        def tempered(likelihood, parameters, beta=1.0):
            return beta * likelihood.log_likelihood_ratio(parameters)

        b = float(rng.uniform(0.1, 1))
        kw = pick(rng, None, dict(beta=b))
        jit = self.gw.experimental.jax.JittedLikelihood(w.lik, tempered, kw) if rng.random() < 0.5 else self.gw.experimental.jax.JittedLikelihood(w.lik, likelihood_func=tempered, kwargs=kw)
        for _ in range(2):
            p, q = w.params(rng)
            want = (b if kw else 1.0) * w.estimate(q)[0]
            got = mon.call("jitted log_likelihood_ratio", jit.log_likelihood_ratio, p)
            mon.close("custom likelihood function", got, want, rtol=1e-9, atol=1e-9)
