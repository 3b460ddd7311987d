"""C23: conversions of the parameters of Beta distributions."""
import itertools

import numpy as np
import pandas as pd

from .common import *

GROUPS = ("", "_1", "_2")


class CheckImpl(Check):
    pid = "C23"
    rule = (
        "conversions of scalars, arrays and broadcast arrays on both backends decided against the moments of the scaled Beta distribution "
        "(closed form, and quadrature of the package's own density), round trips in both directions, and convert_to_beta_parameters on "
        "dictionaries with every combination per suffix of absent, None, alpha/beta only, mean/variance/maximum only and both; "
        "non-trivial: non-zero oracle value or a dictionary with at least one group"
    )
    assumptions = ["whenever a mean and a variance are supplied so is the maximum (otherwise the code raises KeyError)", "0.02 < alpha, beta < 200, as the inverse loses accuracy like (alpha+beta+1)/(alpha+beta)"]
    scenarios = {
        "moments": ("s_moments", 60, 3000),
        "inverse": ("s_inverse", 60, 3000),
        "quadrature": ("s_quadrature", 30, 600),
        "dictionary": ("s_dictionary", 200, 12000),
        "all_states": ("s_all_states", 1, 6),
        "likelihood": ("s_likelihood", 20, 500),
    }

    def required(self):
        return [
            "mean", "variance", "maximum", "alpha", "beta", "round trip", "quadrature mean", "quadrature variance", "converted alpha", "converted beta",
            "unchanged entries", "added keys", "result keys", "input dictionary", "likelihood with converted parameters",
        ]

    def draw(self, rng, shape):
        def log(lo, hi):
            return 10 ** rng.uniform(np.log10(lo), np.log10(hi), shape)

        a, b, m = log(0.02, 200), log(0.02, 200), log(0.05, 1.0)
        u = rng.random()
        if u < 0.15:
            a = np.ones(shape)
        elif u < 0.3:
            b = np.ones(shape)
        elif u < 0.4:
            b = np.array(a)
        if rng.random() < 0.4:
            m = np.ones(shape)
        if shape == ():
            return float(a), float(b), float(m) if rng.random() < 0.8 or m != 1 else 1
        if rng.random() < 0.3:
            m = float(m.ravel()[0])
        return a, b, m

    @staticmethod
    def moments(a, b, m):
        s = a + b
        return m * (a / s), (m / s) ** 2 * a * b / (s + 1)

    def s_moments(self, rng, mon):
        choose_backend(self, rng)
        xp = self.gw.utils.xp
        a, b, m = self.draw(rng, pick(rng, (), (), (7,), (2, 3)))
        wrap = (lambda v: xp.asarray(v) if np.ndim(v) else v)
        mu, var, top = mon.call("alpha_beta_max_to_mu_var_max", self.gw.conversions.alpha_beta_max_to_mu_var_max, wrap(a), wrap(b), wrap(m))
        wm, wv = self.moments(a, b, m)
        mon.close("mean", mu, wm, rtol=1e-12, alpha=a, beta=b, amax=m)
        mon.close("variance", var, wv, rtol=1e-12, alpha=a, beta=b, amax=m)
        mon.same("maximum", top, m)
        back = mon.call("mu_var_max_to_alpha_beta_max", self.gw.conversions.mu_var_max_to_alpha_beta_max, mu, var, top)
        for g, w in zip(back, (a, b, m)):
            mon.close("round trip", g, w, rtol=1e-10 * (1 + 1 / (np.asarray(a) + b)) ** 2 * (1 + np.asarray(a) / b + b / np.asarray(a)), alpha=a, beta=b, amax=m)

    def s_inverse(self, rng, mon):
        choose_backend(self, rng)
        xp = self.gw.utils.xp
        shape = pick(rng, (), (), (7,), (2, 3))
        _, _, m = self.draw(rng, shape)
        x = rng.uniform(0.02, 0.98, shape)
        v = x * (1 - x) * rng.uniform(0.002, 0.95, shape)
        mu, var = x * m, v * np.asarray(m) ** 2
        if shape == ():
            mu, var = float(mu), float(var)
        wrap = (lambda t: xp.asarray(t) if np.ndim(t) else t)
        a, b, top = mon.call("mu_var_max_to_alpha_beta_max", self.gw.conversions.mu_var_max_to_alpha_beta_max, wrap(mu), wrap(var), wrap(m))
        k = x * (1 - x) / v - 1
        mon.close("alpha", a, x * k, rtol=1e-11 * (1 + 1 / k), mu=mu, var=var, amax=m)
        mon.close("beta", b, (1 - x) * k, rtol=1e-11 * (1 + 1 / k), mu=mu, var=var, amax=m)
        mon.same("maximum", top, m)
        mu2, var2, _ = mon.call("alpha_beta_max_to_mu_var_max", self.gw.conversions.alpha_beta_max_to_mu_var_max, a, b, top)
        mon.close("round trip", mu2, mu, rtol=1e-10 * (1 + 1 / k))
        mon.close("round trip", var2, var, rtol=1e-10 * (1 + 1 / k))

    def s_quadrature(self, rng, mon):
        """Moments of the density the package itself evaluates."""
        choose_backend(self, rng, 0.15)
        a, b, m = 10 ** rng.uniform(0, 1.5), 10 ** rng.uniform(0, 1.5), edgy(rng, 0.2, 1, (1.0,))
        mu, var, _ = mon.call("alpha_beta_max_to_mu_var_max", self.gw.conversions.alpha_beta_max_to_mu_var_max, a, b, m)
        x, w = ref.gl_points(np.concatenate([[0, 1e-4, 1e-3, 0.01], np.linspace(0.05, 0.95, 12), [0.99, 0.999, 0.9999, 1]]) * m, 48)
        d = np.asarray(mon.call("beta_dist", self.gw.utils.beta_dist, self.gw.utils.xp.asarray(x), alpha=a, beta=b, scale=m))
        tol = 1e-7 + 2 * specs.betaln_tol()
        mon.close("quadrature mean", mu, np.sum(d * x * w), rtol=tol, alpha=a, beta=b, amax=m)
        mon.close("quadrature variance", var, np.sum(d * (x - mu) ** 2 * w), rtol=10 * tol, alpha=a, beta=b, amax=m)

    # -- dictionaries -------------------------------------------------------------------
    STATES = ("absent", "none", "none_mv", "ab", "ab_mv", "mv", "a_mv", "b_mv", "an_mv", "bn_mv", "mu", "sigma", "max")

    def group(self, rng, state, suffix):
        shape = () if rng.random() < 0.7 else (4,)
        m = edgy(rng, 0.3, 1, (1.0,))
        x = rng.uniform(0.1, 0.9, shape)
        v = x * (1 - x) * rng.uniform(0.05, 0.8, shape)
        num = (lambda t: float(t)) if shape == () else np.asarray
        out = {}
        if state.startswith("none"):
            out.update({f"alpha_chi{suffix}": None, f"beta_chi{suffix}": None})
        if state.startswith("ab"):
            out.update({f"alpha_chi{suffix}": float(rng.uniform(1, 5)), f"beta_chi{suffix}": float(rng.uniform(1, 5))})
        if state.startswith("a_") or state.startswith("bn"):
            out[f"alpha_chi{suffix}"] = float(rng.uniform(1, 5))
        if state.startswith("b_") or state.startswith("an"):
            out[f"beta_chi{suffix}"] = float(rng.uniform(1, 5))
        if state.startswith("an"):
            out[f"alpha_chi{suffix}"] = None
        if state.startswith("bn"):
            out[f"beta_chi{suffix}"] = None
        if state.endswith("mv"):
            out.update({f"mu_chi{suffix}": num(x * m), f"sigma_chi{suffix}": num(v * m**2), f"amax{suffix}": m})
        elif state in ("ab", "max"):
            out[f"amax{suffix}"] = m
        elif state == "mu":
            out.update({f"mu_chi{suffix}": num(x * m), f"amax{suffix}": m})
        elif state == "sigma":
            out.update({f"sigma_chi{suffix}": num(v * m**2), f"amax{suffix}": m})
        return out

    def expected(self, p):
        """Which groups are converted: an independent statement of the rule."""
        def available(s):
            return p.get(f"alpha_chi{s}") is not None and p.get(f"beta_chi{s}") is not None

        def convertible(s):
            return not available(s) and all(f"{k}{s}" in p for k in ("mu_chi", "sigma_chi", "amax"))

        done = [s for s in ("_1", "_2") if convertible(s)]
        if not done and not any(available(s) for s in ("_1", "_2")) and convertible(""):
            done = [""]
        return done

    def judge(self, rng, mon, states):
        p = {}
        for s, state in zip(GROUPS, states):
            p.update(self.group(rng, state, s))
        for k in ("alpha", "beta", "mu", "sigma_spin", "amax_3", "mu_chi_3", "xi_spin"):
            if rng.random() < 0.25:
                p[k] = pick(rng, 1.5, np.array([1.0, 2.0]), "text", None)
        p = {list(p)[k]: p[list(p)[k]] for k in rng.permutation(len(p))}
        before = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in p.items()}
        kw = pick(rng, {}, dict(remove=True), dict(remove=False))
        self.mon.events += 1
        self.mon.log.append(dict(call="convert_to_beta_parameters", states=list(states), keys=list(p), kwargs=kw))
        got, added = self.gw.conversions.convert_to_beta_parameters(p, **kw)
        # the input
        mon.true("input dictionary", list(p) == list(before) and all(_same(p[k], before[k]) for k in p) and got is not p, "the input was modified", states=states)
        done = self.expected(before)
        new = {f"{k}{s}" for s in done for k in ("alpha_chi", "beta_chi")}
        mon.true("result keys", set(got) == set(before) | new, f"keys {sorted(set(got) ^ (set(before) | new))} unexpected or missing", states=states)
        want = sorted(new) if kw.get("remove", True) else []
        mon.true("added keys", sorted(added) == want and isinstance(added, list), f"reported {added}, expected {want}", states=states, **kw)
        for k in before:
            if k not in new:
                mon.true("unchanged entries", _same(got[k], before[k]), f"{k} changed from {before[k]} to {got[k]}", nontrivial=True, key=(k, states))
        for s in done:
            x = np.asarray(before[f"mu_chi{s}"]) / before[f"amax{s}"]
            v = np.asarray(before[f"sigma_chi{s}"]) / before[f"amax{s}"] ** 2
            k = x * (1 - x) / v - 1
            mon.close("converted alpha", got[f"alpha_chi{s}"], x * k, rtol=1e-10, states=states)
            mon.close("converted beta", got[f"beta_chi{s}"], (1 - x) * k, rtol=1e-10, states=states)
        for s in done:
            mon.note(f"converted suffix {s!r}")
        # converting again changes nothing
        again, added = self.gw.conversions.convert_to_beta_parameters(got, **kw)
        if done:
            rest = self.expected(got)
            mon.true("added keys", (len(added) == 2 * len(rest)) or not kw.get("remove", True), f"second conversion reports {added}", nontrivial=False)

    def s_dictionary(self, rng, mon):
        choose_backend(self, rng, 0.2)
        self.judge(rng, mon, tuple(pick(rng, *self.STATES) for _ in GROUPS))

    def s_all_states(self, rng, mon):
        """Every combination of states of the three groups."""
        use_backend(self, "numpy")
        for states in itertools.product(self.STATES, repeat=3):
            self.judge(rng, mon, states)

    def s_likelihood(self, rng, mon):
        """The converted parameters reach the population model."""
        choose_backend(self, rng, 0.2)
        gw = self.gw
        iid = rng.random() < 0.5
        func = gw.models.spin.iid_spin_magnitude_beta if iid else gw.models.spin.independent_spin_magnitude_beta
        post = [pd.DataFrame(dict(a_1=rng.uniform(0.01, 0.5, 12), a_2=rng.uniform(0.01, 0.5, 12))) for _ in range(2)]
        lik = gw.hyperpe.HyperparameterLikelihood(post, func, conversion_function=gw.conversions.convert_to_beta_parameters)
        for _ in range(2):
            p, q, w = {}, {}, {}
            for s in ([""] if iid else ["_1", "_2"]):
                m = edgy(rng, 0.6, 1, (1.0,))
                x = rng.uniform(0.2, 0.8)
                v = x * (1 - x) * rng.uniform(0.05, 0.6)
                k = x * (1 - x) / v - 1
                p.update({f"mu_chi{s}": x * m, f"sigma_chi{s}": v * m**2, f"amax{s}": m})
                w[s] = (x * k, (1 - x) * k, m)
            if iid:
                w["_1"] = w["_2"] = w[""]
            got = mon.call("log_likelihood_ratio", lik.log_likelihood_ratio, p)
            want = 0.0
            for f in post:
                d = ref.beta_dist(f["a_1"].to_numpy(), *w["_1"]) * ref.beta_dist(f["a_2"].to_numpy(), *w["_2"])
                want += np.log(d.mean())
            mon.close("likelihood with converted parameters", got, want, rtol=1e-8, atol=1e-7 + 10 * specs.betaln_tol(), parameters=p)


def _same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
    return a is b or a == b
