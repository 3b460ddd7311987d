"""C21: rate posterior draws."""
import numpy as np

from ..catalog import World
from .common import *


class CheckImpl(Check):
    pid = "C21"
    rule = (
        "sequences of generate_rate_posterior_sample draws for all selection forms (plain number, tuple, injections with and without redshift "
        "model), 1-7 events, both backends: Kolmogorov-Smirnov distance to the documented Gamma law (p<1e-8 is a violation), mean within 6.5 sigma, "
        "lag correlation, reproducibility from numpy's seed; non-trivial: a sequence of draws decided"
    )
    assumptions = ["statistical decisions at p=1e-8 on seeds fixed per case"]
    scenarios = {"draws": ("s_draws", 16, 300), "seed": ("s_seed", 40, 800), "scaling": ("s_scaling", 60, 1500)}

    def required(self):
        return ["distribution of the draws", "mean of the draws", "independent draws", "reproducible from the seed", "scalar draws", "draws scale with the volume", "rate likelihood returns the rate"]

    def make(self, rng, **kw):
        gw = self.gw
        kind = pick(rng, "default", "number", "tuple", "vt", "vtz", "vtz")
        if kind != "vtz":
            w = World(gw, rng, kind=kind, conversion=False, zeros=False, **kw)
            p, q = w.params(rng)
            sel, _ = w.sel.oracle(q)
            if kind == "vt":
                case = specs.Redshift(np.random.default_rng(0), "PowerLawRedshift")
                case.z_max, case.cosmo = 2.3, "Planck15"
                sel = sel * case.norm(dict(lamb=0.0)) / 1e9
            return w, p, sel, kind
        w = World(gw, rng, kind="default", conversion=False, zeros=False, **kw)
        case = specs.Redshift(rng, pick(rng, "PowerLawRedshift", "MadauDickinsonRedshift"))
        xp = gw.utils.xp
        m, time = 60, float(rng.uniform(0.1, 2))
        inj = dict(redshift=rng.uniform(0.01, 0.95, m) * case.z_max, prior=10 ** rng.uniform(-1, 1, m))
        total = 300
        data = dict({k: xp.asarray(v) for k, v in inj.items()}, total_generated=total, analysis_time=time)
        enforce = bool(rng.random() < 0.5)
        w.lik.selection_function = gw.vt.ResamplingVT(model=[case.build(gw)], data=data, n_events=w.cat.n, enforce_convergence=enforce)
        zp = case.params(rng)
        p, _ = w.params(rng)
        p.update(zp)
        dens, _ = case.ref(inj, zp)
        eff = np.sum(dens / inj["prior"]) / total
        return w, p, eff * case.norm(zp) / 1e9 * time, kind

    def s_draws(self, rng, mon):
        from scipy import stats

        b = choose_backend(self, rng, 0.15)
        w, p, vt, kind = self.make(rng)
        n = 1200 if b == "numpy" else 400
        draws = np.empty(n)
        for i in range(n):
            r = w.lik.generate_rate_posterior_sample(p)
            draws[i] = float(np.asarray(r))
        mon.events += n
        mon.true("scalar draws", np.ndim(np.asarray(r)) == 0, f"shape {np.shape(r)}")
        mon.true("positive draws", np.all(draws > 0) and np.all(np.isfinite(draws)), "non-positive rate")
        d, pval = stats.kstest(draws * vt, stats.gamma(w.cat.n).cdf)
        mon.true("distribution of the draws", pval > 1e-8, f"KS distance {d:.4f} from Gamma({w.cat.n}) over {n} draws, p={pval:.1e}", kind=kind, mean=float(np.mean(draws)), vt=vt)
        z = (np.mean(draws * vt) - w.cat.n) / np.sqrt(w.cat.n / n)
        mon.true("mean of the draws", abs(z) < 6.5, f"mean is {z:.1f} sigma from n/VT", kind=kind)
        u = stats.gamma(w.cat.n).cdf(draws * vt) - 0.5
        c = np.mean(u[1:] * u[:-1]) * 12 * np.sqrt(n)
        mon.true("independent draws", abs(c) < 6.5 and len(np.unique(draws)) > 0.99 * n, f"lag correlation {c:.1f} sigma, {len(np.unique(draws))} distinct of {n}", kind=kind)

    def s_seed(self, rng, mon):
        choose_backend(self, rng, 0.15)
        w, p, vt, kind = self.make(rng)
        if rng.random() < 0.3:
            w2 = World(self.gw, rng, "RateLikelihood")
            q, _ = w2.params(rng)
            mon.close("rate likelihood returns the rate", mon.call("rate posterior", w2.lik.generate_rate_posterior_sample, q), q["rate"], rtol=0)
        s = int(rng.integers(2**31))
        seq = []
        for _ in range(2):
            np.random.seed(s)
            seq.append([float(np.asarray(mon.call("rate posterior", w.lik.generate_rate_posterior_sample, p))) for _ in range(4)])
        mon.same("reproducible from the seed", seq[1], seq[0], kind=kind)
        np.random.seed(s + 1)
        other = [float(np.asarray(w.lik.generate_rate_posterior_sample(p))) for _ in range(4)]
        mon.true("other seeds give other draws", other != seq[0] and len(set(seq[0])) == 4, "identical draws")

    def s_scaling(self, rng, mon):
        """With the same seed, draws at two points of one likelihood differ by the ratio of the volumes."""
        choose_backend(self, rng, 0.15)
        w, p, vt, kind = self.make(rng)
        s = int(rng.integers(2**31))
        np.random.seed(s)
        a = float(np.asarray(mon.call("rate posterior", w.lik.generate_rate_posterior_sample, p)))
        w.lik.selection_function = lambda parameters: 1.0
        np.random.seed(s)
        b = float(np.asarray(mon.call("rate posterior", w.lik.generate_rate_posterior_sample, p)))
        mon.close("draws scale with the volume", b / a, vt, rtol=1e-4 if kind.startswith("vt") else 1e-9, kind=kind)
