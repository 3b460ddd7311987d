"""C14: rejection of unusable likelihood estimates."""
import numpy as np

from ..catalog import World
from .common import *

WORST = -np.finfo(float).max
CLASSES = ("HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood")


class CheckImpl(Check):
    pid = "C14"
    rule = (
        "log_likelihood_ratio of all three likelihood classes with maximum_uncertainty placed a factor 1e-6 on either side of the oracle "
        "uncertainty (constructor and setter, repeatedly on one object), and with vanishing, negative, infinite and NaN selection "
        "functions, vanishing event weights and zero rates, on both backends; non-trivial: a decided accept or reject"
    )
    assumptions = ["estimates with NaN variance but finite ln L are not decided"]
    scenarios = {
        "threshold": ("s_threshold", 120, 3000),
        "degenerate": ("s_degenerate", 120, 3000),
    }

    def required(self):
        return ["accepted below the threshold", "rejected above the threshold", "degenerate estimate rejected", "always finite", "unlimited uncertainty accepts"]

    def ratio(self, mon, lik, p):
        out = mon.call("log_likelihood_ratio", lik.log_likelihood_ratio, p)
        v = float(np.asarray(out))
        mon.true("always finite", np.isfinite(v), f"log_likelihood_ratio returned {v}", parameters=p)
        return v

    def s_threshold(self, rng, mon):
        choose_backend(self, rng)
        cls = pick(rng, *CLASSES)
        kw = {}
        start = pick(rng, None, 0.5, 2, np.inf)
        if start is not None:
            kw["maximum_uncertainty"] = start
        w = World(self.gw, rng, cls, zeros=False, n_samples=int(rng.integers(3, 40)) if self.gw.utils.xp is np else None, **kw)
        lik = w.lik
        for _ in range(3):
            p, q = w.params(rng)
            lnl, var, *_ = w.estimate(q)
            if not (np.isfinite(lnl) and var > 1e-8):
                mon.note("skipped: no variance")
                continue
            limit = start if start is not None else np.inf
            if abs(var / limit**2 - 1) > 1e-6:
                want = lnl if var <= limit**2 else WORST
                mon.close("limit from the constructor", self.ratio(mon, lik, p), want, rtol=1e-9, atol=1e-9, limit=limit, variance=var, cls=cls)
            for side in rng.permutation([-1, 1, 0, 2]):
                if side == 0:
                    lik.maximum_uncertainty = np.inf if rng.random() < 0.5 else float("inf")
                    mon.close("unlimited uncertainty accepts", self.ratio(mon, lik, p), lnl, rtol=1e-9, atol=1e-9, cls=cls)
                    start = np.inf
                    continue
                eps = 1e-6 if side != 2 else float(rng.uniform(0.1, 0.9))
                keep = side == 1
                start = float(np.sqrt(var * (1 + eps if keep else 1 - eps)))
                lik.maximum_uncertainty = start
                mon.close("the limit can be read back", lik.maximum_uncertainty, start, rtol=1e-12)
                got = self.ratio(mon, lik, p)
                if keep:
                    mon.close("accepted below the threshold", got, lnl, rtol=1e-9, atol=1e-9, limit=start, variance=var, cls=cls)
                else:
                    mon.true("rejected above the threshold", got == WORST, f"{got} instead of the most negative float; limit {start}, variance {var}", cls=cls)

    def s_degenerate(self, rng, mon):
        b = choose_backend(self, rng)
        gw = self.gw
        cls = pick(rng, "HyperparameterLikelihood", "HyperparameterLikelihood", "RateLikelihood")
        mode = pick(rng, "sel0", "sel0var", "selneg", "selnan", "selinf", "event0", "event0", "rate0")
        limit = pick(rng, np.inf, 1.0, 0.1)
        if mode == "rate0":
            cls = "RateLikelihood"
        if cls == "RateLikelihood" and mode in ("sel0", "sel0var", "selneg"):
            mode = pick(rng, "selnan", "selinf", "event0")
        value = dict(sel0=0.0, sel0var=0.0, selneg=-0.5, selnan=np.nan, selinf=np.inf).get(mode, 1.0)
        xp = gw.utils.xp
        form = pick(rng, "plain", "tuple", "tuple0")

        def selection(parameters):
            v = xp.asarray(value) * xp.ones(()) if b == "jax" else np.float64(value)
            if form == "plain":
                return v
            return v, (1e-4 if form == "tuple" else 0.0)

        w = World(gw, rng, cls, kind="default", zeros=mode == "event0", maximum_uncertainty=limit)
        w.lik.selection_function = selection
        p, q = w.params(rng)
        if mode == "rate0":
            p["rate"] = q["rate"] = 0.0
        if mode == "event0":
            # no sample of at least one event inside the cut
            y = w.cat.rows(w.ids())["y"]
            cut = float(y.min(axis=1).max()) * (1 - 1e-9)
            p["ycut"] = q["ycut"] = cut
        with np.errstate(all="ignore"):
            got = self.ratio(mon, w.lik, p)
            mon.true("degenerate estimate rejected", got == WORST, f"{got} instead of the most negative float", mode=mode, form=form, cls=cls, limit=limit)
            # and the object still works afterwards
            w.lik.selection_function = lambda parameters: 1.0
            w.lik.maximum_uncertainty = np.inf
            p, q = w.params(rng)
            lnl = w.estimate(q)[0]
            if np.isfinite(lnl):
                mon.close("usable estimate after a rejected one", self.ratio(mon, w.lik, p), lnl, rtol=1e-9, atol=1e-9, mode=mode)
