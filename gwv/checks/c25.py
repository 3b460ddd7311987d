"""C25: the numpyro model."""
import numpy as np

from ..catalog import World
from .common import *

WORST = -np.finfo(float).max


class CheckImpl(Check):
    pid = "C25"
    rule = (
        "executions of gwpopulation_likelihood_model traced with numpyro's handlers: every recorded site is decided against the oracle of "
        "the estimator, the rate site against Gamma(N, rate=VT), predictive sites against the rows of the event they are named after "
        "(populations and catalogues in which all or nearly all of an event's weight sits on one sample, and in which some samples have "
        "none), and log densities of complete numpyro programs, plain and compiled; non-trivial: non-zero oracle value or a drawn row"
    )
    assumptions = ["the likelihood uses the jax backend, a ResamplingVT selection function and uncached models, as the module requires", "every event has a sample with non-zero weight when predictive draws are requested"]
    scenarios = {
        "model": ("s_model", 40, 600),
        "no_selection": ("s_no_selection", 20, 300),
        "varmax": ("s_varmax", 24, 300),
        "onehot": ("s_onehot", 24, 300),
        "zeros": ("s_zeros", 16, 200),
        "resample": ("s_resample", 30, 500),
        "shares": ("s_shares", 2, 12),
        "program": ("s_program", 5, 50),
    }

    def required(self):
        return [
            "returned log likelihood", "equals the standard likelihood", "ln_bayes_factors", "variances", "selection", "selection_variance", "ln_l", "variance",
            "rate mean", "rate variance", "sites", "event row", "injection rows", "dominant sample of the event", "dominant injections", "zero weight never drawn",
            "rejected above varmax", "accepted below varmax", "log density of a program", "shares follow the weights", "hyperparameters unchanged",
        ]

    def make(self, rng, **kw):
        use_backend(self, "jax")
        kw.setdefault("cls", "HyperparameterLikelihood")
        kw.setdefault("kind", "vt")
        kw.setdefault("zeros", False)
        return World(self.gw, rng, cache=False, **kw)

    def trace(self, mon, rng, w, p, **kw):
        from numpyro import handlers

        func = self.gw.experimental.numpyro.gwpopulation_likelihood_model
        out = {}

        def model(q):
            out["value"] = func(w.lik, q, **kw)
            return out["value"]

        q = dict(p)
        seed = int(rng.integers(2**31))
        tr = mon.call("gwpopulation_likelihood_model", lambda q: handlers.trace(handlers.seed(model, seed)).get_trace(q), q)
        mon.true("hyperparameters unchanged", q == p, "hyperparameter dictionary modified", nontrivial=False)
        return out["value"], tr

    def sites(self, tr):
        return {k: v for k, v in tr.items() if v["type"] in ("deterministic", "sample")}

    BASE = {"variances", "ln_bayes_factors", "ln_l", "variance"}
    SEL = {"selection", "selection_variance", "rate"}

    def rows(self, w, keys):
        return {f"{k}_{e}" for k in keys for e in range(w.cat.n)}

    def judge(self, mon, w, q, value, tr, selection=True, detail=None):
        lnl, var, lnbf, evar, sel, svar = w.estimate(q)
        n = w.cat.n
        val = {k: np.asarray(v["value"]) for k, v in tr.items()}
        if not selection:
            lnl, var = lnbf.sum(), evar.sum()
        tol = dict(rtol=1e-9, atol=1e-10)
        mon.close("ln_bayes_factors", val["ln_bayes_factors"], lnbf, parameters=q, **tol)
        mon.close("variances", val["variances"], evar, parameters=q, rtol=1e-8, atol=1e-13)
        mon.close("ln_l", val["ln_l"], lnl, parameters=q, **tol)
        mon.close("variance", val["variance"], var, parameters=q, rtol=1e-8, atol=1e-12)
        if selection:
            mon.close("selection", val["selection"], -n * np.log(sel), parameters=q, **tol)
            mon.close("selection_variance", val["selection_variance"], n**2 * svar / sel**2, parameters=q, rtol=1e-7, atol=1e-12)
            volume = float(w.sel.func.surveyed_hypervolume(dict(q)))
            fn = tr["rate"]["fn"]
            mon.close("rate mean", fn.mean, n / (volume * sel), rtol=1e-8, parameters=q)
            mon.close("rate variance", fn.variance, n / (volume * sel) ** 2, rtol=1e-8, parameters=q)
            mon.true("rate drawn", float(val["rate"]) > 0, "rate is not positive", nontrivial=False)
        return lnl, var

    def s_model(self, rng, mon):
        w = self.make(rng)
        keys = pick(rng, None, ["x"], ["id", "y"], ["y", "x", "id"])
        kw = {}
        if keys is not None:
            keys = [k for k in keys if k != "id"] or ["x"]
            kw["fit_keys"] = keys
        predictive = pick(rng, None, True, False)
        if predictive is not None:
            kw["predictive_resample"] = predictive
        for _ in range(2):
            p, q = w.params(rng)
            value, tr = self.trace(mon, rng, w, p, **kw)
            lnl, var = self.judge(mon, w, q, value, tr)
            mon.close("returned log likelihood", value, lnl, rtol=1e-9, atol=1e-10, parameters=q)
            mon.close("equals the standard likelihood", value, float(w.lik.log_likelihood_ratio(dict(p))), rtol=1e-9, atol=1e-9, parameters=q)
            want = self.BASE | self.SEL
            if predictive is not False:
                want |= self.rows(w, keys if keys is not None else list(w.lik.data))
                want |= {f"{k}_injections" for k in (keys if keys is not None else [k for k in w.sel.func.data if np.ndim(w.sel.func.data[k]) > 0])}
                self.decide_rows(mon, w, tr, keys)
            got = set(self.sites(tr))
            mon.true("sites", got == want, f"sites {sorted(got ^ want)} unexpected or missing")

    def decide_rows(self, mon, w, tr, keys):
        """Drawn rows are joint rows of the event."""
        val = {k: np.asarray(v["value"]) for k, v in self.sites(tr).items()}
        cols = keys if keys is not None else ["x", "y", "id"]
        for e in range(w.cat.n):
            own = {k: np.asarray(w.lik.data[k])[e] for k in cols}
            hit = np.ones(len(own[cols[0]]), bool)
            for k in cols:
                mon.true("shape of a predictive draw", val[f"{k}_{e}"].shape == (), f"shape {val[f'{k}_{e}'].shape}", nontrivial=False)
                hit &= own[k] == val[f"{k}_{e}"]
            mon.true("event row", hit.sum() == 1, f"draw of event {e} is not a row of that event", keys=cols)
        if "x_injections" in val:
            inj = w.sel.inj
            cols = keys if keys is not None else ["x", "y", "prior"]
            n = val[f"{cols[0]}_injections"].shape
            mon.true("shape of a predictive draw", n == (w.cat.n,), f"injections of shape {n}", nontrivial=False)
            for j in range(w.cat.n):
                hit = np.ones(len(inj["x"]), bool)
                for k in cols:
                    hit &= inj[k] == val[f"{k}_injections"][j]
                mon.true("injection rows", hit.sum() == 1, f"draw {j} is not an injection", keys=cols)

    def s_no_selection(self, rng, mon):
        w = self.make(rng, kind=pick(rng, "vt", "default", "number"))
        for _ in range(2):
            p, q = w.params(rng)
            value, tr = self.trace(mon, rng, w, p, apply_selection=False)
            lnl, _ = self.judge(mon, w, q, value, tr, selection=False)
            mon.close("returned log likelihood", value, lnl, rtol=1e-9, atol=1e-10, parameters=q, selection=False)
            want = self.BASE | self.rows(w, list(w.lik.data))
            mon.true("sites", set(self.sites(tr)) == want, f"sites {sorted(set(self.sites(tr)) ^ want)} unexpected or missing")
            if w.sel.kind == "default":
                mon.close("equals the standard likelihood", value, float(w.lik.log_likelihood_ratio(dict(p))), rtol=1e-9, atol=1e-9)

    def s_varmax(self, rng, mon):
        w = self.make(rng)
        selection = rng.random() < 0.7
        for _ in range(2):
            p, q = w.params(rng)
            lnl, var, lnbf, evar, *_ = w.estimate(q)
            if not selection:
                lnl, var = lnbf.sum(), evar.sum()
            if not var > 1e-8:
                continue
            for factor in (1 - 1e-6, 1 + 1e-6, float(rng.uniform(0.05, 0.95)), float(rng.uniform(1.1, 9)), np.inf):
                value, tr = self.trace(mon, rng, w, p, varmax=var * factor, apply_selection=selection, predictive_resample=False)
                self.judge(mon, w, q, value, tr, selection)
                if factor < 1:
                    mon.true("rejected above varmax", float(value) <= WORST, f"{float(value)} with variance {var}, varmax {var * factor}")
                else:
                    mon.close("accepted below varmax", value, lnl, rtol=1e-9, atol=1e-10, varmax=var * factor)

    def s_onehot(self, rng, mon):
        """All the weight of an event on one sample, a different one for each event."""
        w = self.make(rng, n_events=3, n_samples=12, lengths="equal", conversion=False)
        lik = w.lik
        jnp = self.gw.utils.xp
        x = np.asarray(lik.data["x"])
        m = x.shape[1]
        hot = rng.integers(m, size=3)
        exact = rng.random() < 0.5
        prior = np.full(x.shape, np.inf if exact else 1e30)
        prior[np.arange(3), hot] = 1.0
        lik.sampling_prior = jnp.asarray(prior)
        sel = w.sel.func
        ihot = rng.permutation(len(w.sel.inj["x"]))[:3]
        ip = np.full(len(w.sel.inj["x"]), 1e30)
        ip[ihot] = 1.0
        sel.data["prior"] = jnp.asarray(ip)
        p, q = w.params(rng)
        _, tr = self.trace(mon, rng, w, p)
        val = {k: np.asarray(v["value"]) for k, v in self.sites(tr).items()}
        for e in range(3):
            for k in ("x", "y", "id"):
                want = np.asarray(lik.data[k])[e, hot[e]]
                mon.same("dominant sample of the event", val[f"{k}_{e}"], want, event=e, key=k)
        for k in ("x", "y"):
            mon.same("dominant injections", np.sort(val[f"{k}_injections"]), np.sort(w.sel.inj[k][ihot]), key=k)

    def s_zeros(self, rng, mon):
        w = self.make(rng, zeros=True, n_samples=20)
        p, q = w.params(rng)
        p["ycut"] = q["ycut"] = float(rng.uniform(0.15, 0.6))
        y = np.asarray(w.lik.data["y"])
        if not np.all((y <= q["ycut"]).any(axis=1)) or (w.sel.inj["y"] <= q["ycut"]).sum() < w.cat.n:
            mon.note("skipped: an event without weight")
            return
        _, tr = self.trace(mon, rng, w, p)
        val = {k: np.asarray(v["value"]) for k, v in self.sites(tr).items()}
        for e in range(w.cat.n):
            mon.true("zero weight never drawn", val[f"y_{e}"] <= q["ycut"], f"event {e}: sample with zero weight drawn")
        mon.true("zero weight never drawn", np.all(val["y_injections"] <= q["ycut"]), "injection with zero weight drawn")

    def s_resample(self, rng, mon):
        """posterior_predictive_resample itself, for events, one-dimensional data and several draws."""
        from numpyro import handlers

        use_backend(self, "jax")
        jnp = self.gw.utils.xp
        func = self.gw.experimental.numpyro.posterior_predictive_resample
        n, m = 4, 9
        data = dict(a=rng.normal(size=(n, m)), b=np.arange(n * m, dtype=float).reshape(n, m))
        weights = rng.uniform(0.1, 1, (n, m)) * 10 ** rng.uniform(-3, 3)
        cols = {k: np.arange(m) for k in range(n)}
        event = int(rng.integers(n))
        dim = rng.random() < 0.5
        hot = rng.permutation(m)[: 3]
        mask = rng.random() < 0.6
        if mask:  # zero weight away from a few samples, different for each event
            weights *= 0
            for e in range(n):
                weights[e, (hot + e) % m] = rng.uniform(0.1, 1, 3)
        shape = pick(rng, (), (3,), (2,)) if not dim else ()
        label = pick(rng, "first", "injections", 0, 7)
        kw = pick(rng, {}, dict(fit_keys=["a"]), dict(fit_keys=["b", "a"]))
        if dim:
            call = lambda: func({k: jnp.asarray(v) for k, v in data.items()}, jnp.asarray(weights), label, event=event, **kw)
        else:
            call = lambda: func({k: jnp.asarray(v[event]) for k, v in data.items()}, jnp.asarray(weights[event]), label, shape=shape, **kw)
        tr = mon.call("posterior_predictive_resample", lambda: handlers.trace(handlers.seed(call, int(rng.integers(2**31)))).get_trace())
        keys = kw.get("fit_keys", ["a", "b"])
        got = {k: np.asarray(v["value"]) for k, v in tr.items() if v["type"] == "deterministic"}
        mon.true("sites", set(got) == {f"{k}_{label}" for k in keys}, f"sites {sorted(got)}")
        for k in keys:
            mon.true("shape of a predictive draw", got[f"{k}_{label}"].shape == shape, f"{got[f'{k}_{label}'].shape}", nontrivial=False)
        drawn = [np.atleast_1d(got[f"{k}_{label}"]) for k in keys]
        for j in range(len(drawn[0])):
            hit = np.ones(m, bool)
            for k, d in zip(keys, drawn):
                hit &= data[k][event] == d[j]
            mon.true("event row", hit.sum() == 1, "draw is not a row of the event", event=event)
            mon.true("zero weight never drawn", weights[event][np.argmax(hit)] > 0, "sample with zero weight drawn", event=event)
        if mask and len(drawn[0]) == 3:
            mon.true("draws without replacement", len(set(drawn[0])) == 3, "a sample was drawn twice", nontrivial=False)

    def s_shares(self, rng, mon):
        """How often each sample is drawn, over seeds."""
        from numpyro import handlers

        use_backend(self, "jax")
        jnp = self.gw.utils.xp
        func = self.gw.experimental.numpyro.posterior_predictive_resample
        n, m, trials = 2, 12, 400
        share = rng.dirichlet(np.ones(m) * 0.8, size=n)
        scale = 10 ** rng.uniform(-2, 2, (n, 1))
        data, weights = dict(k=jnp.asarray(np.arange(n * m, dtype=float).reshape(n, m))), jnp.asarray(scale * share)

        def both():
            for e in range(n):
                func(data, weights, e, event=e)
            func(dict(k=data["k"][0]), weights[0], "flat")

        counts = np.zeros((n + 1, m))
        joint = np.zeros((m, m))
        for t in range(trials):
            tr = handlers.trace(handlers.seed(both, int(rng.integers(2**31)))).get_trace()
            drawn = [int(tr[f"k_{e}"]["value"]) - e * m for e in range(n)] + [int(tr["k_flat"]["value"])]
            for e, d in enumerate(drawn):
                counts[e, d] += 1
            joint[drawn[0], drawn[1]] += 1
        mon.events += trials
        for e, p in enumerate((share[0], share[1], share[0])):
            sd = np.sqrt(p * (1 - p) / trials)
            mon.close("shares follow the weights", counts[e] / trials, p, rtol=0, atol=6 * sd + 6 / trials, event=e)
        p = np.outer(share[0], share[1])
        mon.close("events are drawn independently", joint / trials, p, rtol=0, atol=6 * np.sqrt(p * (1 - p) / trials) + 7 / trials)

    def s_program(self, rng, mon):
        """A complete numpyro program, as used with a sampler: its log density, plain and compiled."""
        import jax
        import numpyro
        import numpyro.distributions as dist
        from numpyro.infer.util import log_density
        from scipy.stats import gamma, norm

        w = self.make(rng, conversion=False)
        gw = self.gw
        names = list(w.pop.names)
        varmax = pick(rng, np.inf, 1e6)

        def program():
            p = {k: numpyro.sample(k, dist.Normal(0.5, 2.0)) for k in names}
            ln_l = gw.experimental.numpyro.gwpopulation_likelihood_model(w.lik, p, varmax=varmax)
            numpyro.factor("log_likelihood", ln_l)

        compiled = jax.jit(lambda q: log_density(numpyro.handlers.seed(program, 0), (), {}, q)[0])
        for _ in range(3):
            _, q = w.params(rng)
            q = {k: q[k] for k in names}
            lnl, var, lnbf, evar, sel, svar = w.estimate(q)
            volume = float(w.sel.func.surveyed_hypervolume(dict(q)))
            vt = volume * sel
            rate = float(gamma(w.cat.n).rvs(random_state=int(rng.integers(2**31))) / vt)
            want = lnl + norm(0.5, 2.0).logpdf(list(q.values())).sum() + gamma(w.cat.n, scale=1 / vt).logpdf(rate)
            full = dict(q, rate=rate)
            got = mon.call("log_density", lambda f: log_density(numpyro.handlers.seed(program, 0), (), {}, f)[0], full)
            mon.close("log density of a program", got, want, rtol=1e-8, atol=1e-8, parameters=q)
            mon.close("log density of a program", mon.call("compiled log_density", compiled, full), want, rtol=1e-8, atol=1e-8, parameters=q)
