"""C18: posterior predictive resampling."""
import numpy as np
import pandas as pd

from ..catalog import World
from .common import *


class CheckImpl(Check):
    pid = "C18"
    rule = (
        "posterior_predictive_resample on catalogues with unique sample ids for every accepted container of hyperparameter samples, both "
        "backends: every returned row is traced back to its event, weights against the oracle, accumulated draw counts against the weights "
        "(chi-square p<1e-9 is a violation); non-trivial: non-uniform weights"
    )
    assumptions = ["frequency test at p=1e-9 with numpy's global generator seeded per case"]
    scenarios = {"resample": ("s_resample", 90, 2500), "frequency": ("s_frequency", 10, 150), "concentrated": ("s_concentrated", 40, 800)}

    def required(self):
        return ["rows are joint samples of their own event", "number of samples", "weights", "weights sum to one", "same weights from every container", "draw frequencies", "zero-weight samples never drawn", "likelihood data untouched", "hyperparameter samples untouched", "only sample with weight"]

    def oracle(self, w, qs):
        tot = 0
        for q in qs:
            x = w.cat.weights(w.pop, q, w.ids())
            tot = tot + x / x.sum(axis=-1, keepdims=True)
        return tot / tot.sum(axis=-1, keepdims=True)

    def usable(self, w, qs):
        return all(np.all(w.cat.weights(w.pop, q, w.ids()).sum(axis=-1) > 0) for q in qs)

    def rows(self, mon, w, new, k):
        n = w.cat.n
        mon.true("keys of the samples", set(new) == set(w.lik.data), f"{set(new)} instead of {set(w.lik.data)}")
        for c, v in new.items():
            mon.true("number of samples", np.shape(v) == (n, k), f"{c} has shape {np.shape(v)}, expected {(n, k)}")
        ids = np.asarray(new["id"])
        ii = ids.astype(int)
        good = np.all((ii >= 0) & (ii < len(w.cat.event_of))) and np.all(w.cat.event_of[ii] == np.arange(n)[:, None])
        mon.true("rows are joint samples of their own event", good, "samples of another event", nontrivial=n > 1)
        r = w.cat.rows(ids)
        for c in ("x", "y"):
            mon.same("rows are joint samples of their own event", new[c], r[c], column=c)
        have = w.ids()
        mon.true("rows come from the samples in use", all(set(ids[i]) <= set(have[i]) for i in range(n)), "a sample the likelihood does not use")
        return ids

    def s_resample(self, rng, mon):
        choose_backend(self, rng, 0.2)
        w = World(self.gw, rng, pick(rng, "HyperparameterLikelihood", "RateLikelihood"), conversion=pick(rng, False, False, True, "in place"))
        pts = [w.params(rng) for _ in range(int(rng.integers(1, 5)))]
        keys = sorted(set.intersection(*[set(p) for p, _ in pts]))
        ps, qs = [{k: p[k] for k in keys} for p, _ in pts], [q for _, q in pts]
        pristine = pd.DataFrame([dict(p) for p in ps])
        if not self.usable(w, qs):
            mon.note("an event without any weight")
            return
        k = w.lik.samples_per_posterior
        before = {c: np.array(v) for c, v in w.lik.data.items()}
        want = self.oracle(w, qs)
        forms = [ps, pd.DataFrame(ps)]
        if len(ps) == 1:
            forms.append(ps[0])
        seen = []
        for form in [forms[i] for i in rng.permutation(len(forms))]:
            new, wts = mon.call("posterior_predictive_resample", lambda s: w.lik.posterior_predictive_resample(s, return_weights=True), form)
            ids = self.rows(mon, w, new, k)
            wts = np.asarray(wts)
            mon.true("hyperparameter samples untouched", pd.DataFrame(form if not isinstance(form, dict) else [form]).equals(pristine), "the hyperparameter samples changed")
            mon.close("weights", wts, want, rtol=1e-8, atol=1e-300, container=type(form).__name__)
            mon.close("weights sum to one", wts.sum(axis=-1), np.ones(w.cat.n), rtol=1e-10)
            seen.append(wts)
            have = w.ids()
            for i in range(w.cat.n):
                zero = set(have[i][want[i] == 0])
                mon.true("zero-weight samples never drawn", not (zero & set(ids[i])), f"event {i} drew samples of weight zero", nontrivial=bool(zero))
        for s in seen[1:]:
            mon.close("same weights from every container", s, seen[0], rtol=1e-12)
        plain = mon.call("posterior_predictive_resample", w.lik.posterior_predictive_resample, ps)
        mon.true("samples only", isinstance(plain, dict), f"returned {type(plain)}")
        self.rows(mon, w, plain, k)
        mon.true("likelihood data untouched", set(before) == set(w.lik.data) and all(np.array_equal(before[c], np.asarray(v)) for c, v in w.lik.data.items()), "the data of the likelihood changed")

    def s_frequency(self, rng, mon):
        from scipy import stats

        b = choose_backend(self, rng, 0.15)
        w = World(self.gw, rng, n_events=3, n_samples=24, lengths="equal", zeros=False)
        pts = [w.params(rng) for _ in range(3)]
        keys = sorted(set.intersection(*[set(p) for p, _ in pts]))
        ps, qs = [{k: p[k] for k in keys} for p, _ in pts], [q for _, q in pts]
        want = self.oracle(w, qs)
        counts = np.zeros(want.shape)
        have = w.ids()
        k = w.lik.samples_per_posterior
        reps = 60 if b == "numpy" else 25
        for _ in range(reps):
            new = w.lik.posterior_predictive_resample([dict(p) for p in ps])
            mon.events += 1
            ids = np.asarray(new["id"])
            for i in range(3):
                pos = {v: j for j, v in enumerate(have[i])}
                for v in ids[i]:
                    counts[i, pos[v]] += 1
        for i in range(3):
            e = want[i] * reps * k
            big = e >= 8
            obs, exp = counts[i][big], e[big]
            if e[~big].sum() >= 8:
                obs, exp = np.append(obs, counts[i][~big].sum()), np.append(exp, e[~big].sum())
            exp = np.maximum(exp, 1e-9)
            chi = np.sum((obs - exp) ** 2 / exp)
            pval = stats.chi2.sf(chi, max(1, len(obs) - 1))
            mon.true("draw frequencies", pval > 1e-9, f"event {i}: chi2={chi:.1f} for {len(obs) - 1} degrees of freedom", counts=counts[i], expected=e)
        mon.note("draws counted", int(counts.sum()))

    def s_concentrated(self, rng, mon):
        """All weight of each event on one sample."""
        choose_backend(self, rng, 0.2)
        w = World(self.gw, rng, zeros=True, lengths="equal")
        y = w.cat.rows(w.ids())["y"]
        i = int(rng.integers(w.cat.n))
        srt = np.sort(y, axis=1)
        # a cut that leaves one sample in event i and at least one in every other
        p, q = w.params(rng)
        cut = float(srt[i, 0])
        if np.any(srt[:, 0] > cut):
            i = int(np.argmax(srt[:, 0]))
            cut = float(srt[i, 0])
        p["ycut"] = q["ycut"] = cut
        new, wts = mon.call("posterior_predictive_resample", lambda s: w.lik.posterior_predictive_resample(s, return_weights=True), p)
        ids = self.rows(mon, w, new, w.lik.samples_per_posterior)
        for e in range(w.cat.n):
            allowed = set(w.ids()[e][y[e] <= cut])
            mon.true("only sample with weight", set(ids[e]) <= allowed, f"event {e} drew samples without weight")
        mon.close("weights", wts, self.oracle(w, [q]), rtol=1e-8, atol=1e-300)
