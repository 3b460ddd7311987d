"""C19: selection effects from injections."""
import numpy as np

from ..catalog import Population
from .common import *


class CheckImpl(Check):
    pid = "C19"
    rule = (
        "ResamplingVT evaluations (total_generated given or not, scalar or list of models, cached or not, several parameter points per object, "
        "n_events on either side of the convergence boundary by 1e-6, both backends) against the estimator from the original injections; "
        "non-trivial: finite non-zero efficiency"
    )
    assumptions = ["n_events finite (the default of infinity never converges)"]
    scenarios = {"efficiency": ("s_efficiency", 120, 3000), "convergence": ("s_convergence", 120, 3000), "volume": ("s_volume", 40, 800), "exact": ("s_exact", 30, 500), "unsupported": ("s_unsupported", 30, 500)}

    def required(self):
        return ["detection efficiency", "variance", "selection value", "unconverged is infinite", "converged is unchanged", "marginalised factor", "marginalised unconverged is infinite", "hypervolume", "convergence flag", "unsupported is infinite"]

    def make(self, rng, zeros=None, **kw):
        from bilby.hyper.model import Model

        gw = self.gw
        xp = gw.utils.xp
        pop = Population(gw, rng, zeros=bool(rng.random() < 0.3) if zeros is None else zeros)
        m = int(rng.integers(3, 200)) if xp is np else 60
        inj = dict(x=rng.normal(0, 1.2, m), y=rng.random(m), prior=10 ** rng.uniform(-1, 0.5, m))
        data = {k: xp.asarray(v) for k, v in inj.items()}
        total = m
        if rng.random() < 0.7:
            total = data["total_generated"] = pick(rng, m, int(rng.integers(m, 50 * m)), float(int(rng.integers(m, 10 * m))))
        if rng.random() < 0.5:
            data["analysis_time"] = float(rng.uniform(0.1, 2))
        items = list(data.items())
        data = dict([items[i] for i in rng.permutation(len(items))])
        form = pick(rng, "list", "model", "single")
        if form == "single" and len(pop.functions) == 1:
            model = pop.functions[0]
        elif form == "list":
            model = list(pop.functions)
        else:
            model = Model(list(pop.functions), cache=bool(rng.random() < 0.6))
        vt = gw.vt.ResamplingVT(model=model, data=data, **kw)

        def oracle(p):
            w = pop.oracle(inj, p) / inj["prior"]
            mu = w.sum() / total
            return mu, (w**2).sum() / total**2 - mu**2 / total

        return vt, pop, oracle, data

    def s_efficiency(self, rng, mon):
        choose_backend(self, rng)
        vt, pop, oracle, data = self.make(rng, n_events=int(rng.integers(1, 20)), enforce_convergence=False)
        f = lambda v: float(np.asarray(v))
        last = None
        for k in range(4):
            p = pop.params(rng) if last is None or rng.random() < 0.7 else last
            last = p
            mu, var = oracle(p)
            mon.note("evaluations with zero weights", int("ycut" in p))
            got = mon.call("detection_efficiency", vt.detection_efficiency, dict(p, other=1.0))
            mon.close("detection efficiency", f(got[0]), mu, rtol=1e-9, parameters=p)
            mon.close("variance", f(got[1]), var, rtol=1e-8, atol=1e-13 * (mu**2 + 1e-300), parameters=p)
            got = mon.call("ResamplingVT", vt, p)
            mon.true("value and variance", isinstance(got, tuple) and len(got) == 2, f"returned {type(got)}")
            mon.close("selection value", f(got[0]), mu, rtol=1e-9, parameters=p)
            mon.close("variance", f(got[1]), var, rtol=1e-8, atol=1e-13 * (mu**2 + 1e-300), parameters=p)

    def s_convergence(self, rng, mon):
        choose_backend(self, rng)
        f = lambda v: float(np.asarray(v))
        marg = bool(rng.random() < 0.5)
        kw = dict(marginalize_uncertainty=marg)
        if rng.random() < 0.5 and not marg:
            kw["enforce_convergence"] = True
        if marg and rng.random() < 0.4:
            kw["enforce_convergence"] = bool(rng.random() < 0.5)
        vt, pop, oracle, _ = self.make(rng, n_events=5, **kw)
        for _ in range(3):
            p = pop.params(rng)
            mu, var = oracle(p)
            if not (mu > 0 and var > 1e-8 * mu**2):
                mon.note("no usable variance")
                continue
            edge = mu**2 / (4 * var)
            for n in (edge * (1 - 1e-6), edge * (1 + 1e-6), int(rng.integers(1, 60))):
                if abs(n / edge - 1) < 1e-7:
                    continue
                vt.n_events = n
                good = n < edge
                got = mon.call("ResamplingVT", vt, p)
                flag, corr = mon.call("check_convergence", vt.check_convergence, mu, var)
                mon.true("convergence flag", bool(np.asarray(flag)) == good, f"converged={flag} for mu^2/(4 n var)={edge / n}", n_events=n)
                if marg:
                    want = mu * np.exp(-(3 + n) / 2 * var / mu**2)
                    got2 = mon.call("vt_factor", vt.vt_factor, p)
                    for g in (got, got2):
                        if good:
                            mon.close("marginalised factor", f(g), want, rtol=1e-7, parameters=p, n_events=n)
                        else:
                            mon.true("marginalised unconverged is infinite", f(g) == np.inf, f"{g} instead of inf", n_events=n, edge=edge)
                else:
                    mon.true("value and variance", isinstance(got, tuple) and len(got) == 2, f"returned {type(got)}")
                    if good:
                        mon.close("converged is unchanged", f(got[0]), mu, rtol=1e-9, parameters=p, n_events=n)
                    else:
                        mon.true("unconverged is infinite", f(got[0]) == np.inf, f"{got[0]} instead of inf", n_events=n, edge=edge)
                    mon.close("variance", f(got[1]), var, rtol=1e-8, atol=1e-13 * mu**2, parameters=p)

    def s_unsupported(self, rng, mon):
        """No injection, or a single one, has support: never converged."""
        choose_backend(self, rng)
        f = lambda v: float(np.asarray(v))
        gw = self.gw
        xp = gw.utils.xp
        m = int(rng.integers(2, 80))

        def above(dataset, threshold, height):
            return height * (dataset["x"] > threshold)

        x = np.sort(rng.random(m))
        total = pick(rng, m, int(rng.integers(m, 30 * m)))
        n = int(rng.integers(1, 40))
        data = dict(x=xp.asarray(x), prior=xp.asarray(10 ** rng.uniform(-1, 0.5, m)), total_generated=total)
        found = pick(rng, 0, 0, 1)
        p = dict(threshold=float(1.5 if found == 0 else (x[-1] + x[-2]) / 2), height=float(rng.uniform(0.1, 3)))
        if found == 1 and total < 3:
            return
        vts = {marg: gw.vt.ResamplingVT(model=above, data=dict(data), n_events=n, marginalize_uncertainty=marg) for marg in (False, True)}
        prior = np.asarray(data["prior"])
        mu = float(p["height"] * np.sum((x > p["threshold"]) / prior) / total)
        got = mon.call("ResamplingVT", vts[False], p)
        mon.true("unsupported is infinite", f(got[0]) == np.inf, f"{got[0]} with {found} of {total} injections of any weight and {n} events", parameters=p)
        got = mon.call("ResamplingVT", vts[True], p)
        mon.true("unsupported is infinite", f(got) == np.inf, f"marginalised: {got} with {found} of {total} injections of any weight and {n} events", parameters=p)
        got = mon.call("detection_efficiency", vts[False].detection_efficiency, p)
        mon.close("detection efficiency", f(got[0]), mu, rtol=1e-9, parameters=p)

    def s_exact(self, rng, mon):
        """Weights without scatter: n_eff is infinite (total = number of injections) or set by the total."""
        choose_backend(self, rng)
        gw = self.gw
        xp = gw.utils.xp
        m = 40
        c = float(2.0 ** rng.integers(-3, 3))

        def flat(dataset, height):
            return height * xp.ones(dataset["x"].shape)

        total = pick(rng, m, 160)
        n = int(rng.integers(1, 9))
        vt = gw.vt.ResamplingVT(model=flat, data=dict(x=xp.ones(m), prior=xp.full(m, c), total_generated=total), n_events=n, marginalize_uncertainty=True)
        h = float(2.0 ** rng.integers(-2, 3))
        mu = h / c * m / total
        var = (h / c) ** 2 * m / total**2 - mu**2 / total
        good = mu**2 > 4 * n * var
        if abs(mu**2 - 4 * n * var) < 1e-9 * mu**2:
            return
        got = float(np.asarray(mon.call("vt_factor", vt.vt_factor, dict(height=h))))
        if good:
            mon.close("marginalised factor", got, mu * np.exp(-(3 + n) / 2 * var / mu**2), rtol=1e-7, total=total)
        else:
            mon.true("marginalised unconverged is infinite", got == np.inf, f"{got} instead of inf")

    def s_volume(self, rng, mon):
        choose_backend(self, rng)
        gw = self.gw
        xp = gw.utils.xp
        case = specs.Redshift(rng, pick(rng, "PowerLawRedshift", "MadauDickinsonRedshift"))
        p = case.params(rng)
        model = case.build(gw)
        time = float(rng.uniform(0.1, 3))

        def flat(dataset):
            return xp.ones(dataset["redshift"].shape)

        with_z = rng.random() < 0.6
        data = dict(redshift=xp.asarray(rng.uniform(0.01, 2, 30)), prior=xp.ones(30), analysis_time=time)
        vt = gw.vt.ResamplingVT(model=[flat, model] if with_z else [flat], data=data, n_events=2)
        got = float(np.asarray(mon.call("surveyed_hypervolume", vt.surveyed_hypervolume, p)))
        if with_z:
            want = float(np.asarray(mon.call("normalisation", model.normalisation, p))) / 1e9 * time
        else:
            case.z_max, case.cosmo, case.name, p = 2.3, "Planck15", "PowerLawRedshift", dict(lamb=0.0)
            want = case.norm(p) / 1e9 * time
        mon.close("hypervolume", got, want, rtol=1e-9 if with_z else 1e-6, with_redshift_model=with_z)
