"""C16: extra statistics."""
import numpy as np

from ..catalog import World
from .common import *


class CheckImpl(Check):
    pid = "C16"
    rule = (
        "generate_extra_statistics on synthetic catalogues of all three likelihood classes, interleaved with likelihood evaluations, "
        "against the per-event estimates from the original data frames and against the likelihood's own values; non-trivial: finite values"
    )
    scenarios = {"extra": ("s_extra", 140, 3500), "sweep": ("s_sweep", 20, 400), "in_place": ("s_in_place", 16, 300)}

    def required(self):
        return ["per-event ln Bayes factors", "per-event variances", "selection", "selection variance", "total variance", "adds up to the log likelihood ratio", "other entries untouched", "same variance as the likelihood", "fills the sample it is given"]

    def one(self, rng, mon, w, p, q):
        n = w.cat.n
        lnl, var, lnbf, evar, sel, svar = w.estimate(q)
        sample = dict(p)
        before = dict(sample)
        out = w.lik.generate_extra_statistics(sample)
        mon.events += 1
        mon.log.append(dict(call="generate_extra_statistics", kwargs=p))
        mon.true("fills the sample it is given", out is sample, "returned another object")
        f = lambda v: float(np.asarray(v))
        missing = [k for k in [f"ln_bf_{i}" for i in range(n)] + [f"var_{i}" for i in range(n)] + ["selection", "selection_variance", "variance"] if k not in out]
        mon.true("all statistics present", not missing, f"missing {missing}")
        mon.true("other entries untouched", all(k in out and out[k] == v for k, v in before.items()), "entries of the sample changed", before=before)
        new = set(out) - set(before)
        mon.true("nothing else added", len(new) == 2 * n + 3, f"added {sorted(new)}")
        gb = np.array([f(out[f"ln_bf_{i}"]) for i in range(n)])
        gv = np.array([f(out[f"var_{i}"]) for i in range(n)])
        mon.close("per-event ln Bayes factors", gb, lnbf, rtol=1e-9, atol=1e-9, parameters=p)
        fin = np.isfinite(evar)
        mon.close("per-event variances", np.where(fin, gv, 0), np.where(fin, evar, 0), rtol=1e-8, atol=1e-12, parameters=p)
        mon.close("selection", f(out["selection"]), sel, rtol=1e-9, parameters=p)
        mon.close("selection variance", f(out["selection_variance"]), svar / sel**2, rtol=1e-7, atol=1e-14, parameters=p)
        if np.all(fin):
            mon.close("total variance", f(out["variance"]), var, rtol=1e-8, atol=1e-12, parameters=p, cls=w.cls)
            _, lv = mon.call("ln_likelihood_and_variance", w.lik.ln_likelihood_and_variance, dict(p))
            mon.close("same variance as the likelihood", f(out["variance"]), f(lv), rtol=1e-9, atol=1e-13, parameters=p, cls=w.cls)
        if np.isfinite(lnl) and w.cls != "NullHyperparameterLikelihood":
            term = -n * np.log(f(out["selection"])) if w.cls == "HyperparameterLikelihood" else n * np.log(p["rate"]) - p["rate"] * f(out["selection"])
            r = mon.call("log_likelihood_ratio", w.lik.log_likelihood_ratio, dict(p))
            mon.close("adds up to the log likelihood ratio", gb.sum() + term, f(r), rtol=1e-9, atol=1e-8, parameters=p, cls=w.cls)

    def s_extra(self, rng, mon):
        choose_backend(self, rng)
        w = World(self.gw, rng, pick(rng, "HyperparameterLikelihood", "HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood"))
        for _ in range(3):
            p, q = w.params(rng)
            self.one(rng, mon, w, p, q)

    def s_sweep(self, rng, mon):
        """As in post-processing: all samples of a posterior, then the same sample again."""
        use_backend(self, "numpy")
        w = World(self.gw, rng, pick(rng, "HyperparameterLikelihood", "RateLikelihood"))
        pts = [w.params(rng) for _ in range(6)]
        for p, q in pts + [pts[0], pts[3]]:
            if rng.random() < 0.3:
                mon.call("log_likelihood_ratio", w.lik.log_likelihood_ratio, pts[int(rng.integers(6))][0])
            self.one(rng, mon, w, p, q)

    def s_in_place(self, rng, mon):
        """A conversion function that changes the dictionary it is given must not reach the sample."""
        choose_backend(self, rng, 0.2)
        w = World(self.gw, rng, pick(rng, "HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood"), conversion="in place")
        for _ in range(3):
            p, q = w.params(rng)
            self.one(rng, mon, w, p, q)
            mon.note("sample with a conversion in place")
