"""C04: elementary densities against independent closed forms."""
import numpy as np

from .common import *


class CheckImpl(Check):
    pid = "C04"
    rule = (
        "calls of the elementary densities with random and special parameters (scalars, ints, arrays), abscissae inside, "
        "at, next to and outside the support, on both backends; non-trivial: the oracle density is non-zero and finite somewhere"
    )
    assumptions = ["scipy.special and Gauss-Legendre quadrature", "floating point comparison at 1e-9 relative plus the conditioning of the closed form"]
    scenarios = {
        "powerlaw": ("s_powerlaw", 150, 4000),
        "truncnorm": ("s_truncnorm", 150, 4000),
        "beta": ("s_beta", 150, 4000),
        "von_mises": ("s_von_mises", 60, 1500),
        "gauss2d": ("s_gauss2d", 60, 1500),
        "trapezoid": ("s_trapezoid", 60, 1500),
        "integral": ("s_integral", 40, 600),
    }

    def required(self):
        return ["powerlaw density", "truncnorm density", "beta density", "von Mises density", "2d gaussian", "trapezoid", "unit integral"]

    N = 64

    def maybe_array(self, rng, draw):
        """A parameter as python float, int, numpy scalar or array over samples."""
        v = draw()
        u = rng.random()
        if u < 0.3:
            return np.array([draw() for _ in range(self.N)])
        if u < 0.45:
            return np.float64(v)
        if u < 0.6 and float(v).is_integer():
            return int(v)
        return float(v)

    def convert(self, v):
        return self.gw.utils.xp.asarray(v) if isinstance(v, np.ndarray) else v

    def observe(self, mon, label, func, x, kw, positional):
        kwb = {k: self.convert(v) for k, v in kw.items()}
        if positional:
            return mon.call(label, func, self.convert(x), *kwb.values())
        return mon.call(label, func, self.convert(x), **kwb)

    def finite_nonneg(self, mon, label, got, want, kw):
        g = np.asarray(got, float)
        ok = np.isfinite(g) & (g >= 0)
        mon.true(label + " finite and non-negative", np.all(ok | ~np.isfinite(want)), f"{g[~(ok | ~np.isfinite(want))][:3]}", parameters=kw)

    def s_powerlaw(self, rng, mon):
        choose_backend(self, rng)
        alpha = self.maybe_array(rng, lambda: edgy(rng, -8, 10, (-1, 0, 1, 2, -2, -3, -1.001, -0.99), 0.5))
        zero = rng.random() < 0.15 and np.all(np.asarray(alpha) > -1)
        low = 0.0 if zero else self.maybe_array(rng, lambda: edgy(rng, 0.01, 10, (1.0, 5.0)))
        high = self.maybe_array(rng, lambda: edgy(rng, 10.5, 150, (100.0, 50.0)))
        lo, hi = np.broadcast_to(low, self.N).astype(float), np.broadcast_to(high, self.N).astype(float)
        t = specs.strata(rng, self.N, 0, 1)
        x = lo + (hi - lo) * t
        x = np.where(t == 1, hi, np.where(t == 0, lo, x))
        k = rng.integers(self.N, size=6)
        x[k[:2]], x[k[2:4]] = 0.0, -3.0
        kw = dict(alpha=alpha, high=high, low=low)
        got = self.observe(mon, "powerlaw", self.gw.utils.powerlaw, x, kw, rng.random() < 0.3)
        want = ref.powerlaw(x, alpha, high, low)
        want = np.where((want == np.inf), np.nan, want)  # x=0 with a diverging density
        self.finite_nonneg(mon, "powerlaw", got, want, kw)
        g = np.asarray(got, float)
        mon.close("powerlaw density", np.where(np.isnan(want), 0, g), np.where(np.isnan(want), 0, want), rtol=ref.powerlaw_rtol(alpha, high, low), atol=1e-300, parameters=kw)

    def s_truncnorm(self, rng, mon):
        choose_backend(self, rng)
        low = self.maybe_array(rng, lambda: edgy(rng, -5, 5, (-1, 0)))
        width = edgy(rng, 0.1, 10, (1, 2))
        high = low + width
        far = pick(rng, 1, 1, 5, 30)
        sigma = self.maybe_array(rng, lambda: edgy(rng, 0.05, 5, (1,)) if rng.random() < 0.8 else float(10 ** rng.uniform(0, 2.5)))
        mu = self.maybe_array(rng, lambda: edgy(rng, -5 - far, 5 + far, (0, 1, -1)))
        if rng.random() < 0.15:  # mean exactly at a truncation bound
            mu = high if rng.random() < 0.5 else low
        lo, hi = np.broadcast_to(low, self.N).astype(float), np.broadcast_to(high, self.N).astype(float)
        t = specs.strata(rng, self.N, 0, 1)
        x = np.where(t == 1, hi, np.where(t == 0, lo, lo + (hi - lo) * t))
        kw = dict(mu=mu, sigma=sigma, high=high, low=low)
        got = self.observe(mon, "truncnorm", self.gw.utils.truncnorm, x, kw, rng.random() < 0.3)
        want = ref.truncnorm(x, mu, sigma, high, low)
        self.finite_nonneg(mon, "truncnorm", got, want, kw)
        mon.close("truncnorm density", got, want, rtol=ref.truncnorm_rtol(mu, sigma, high, low) + specs.jax_tol(), atol=1e-280, parameters=kw)

    def s_beta(self, rng, mon):
        choose_backend(self, rng)
        draw = lambda: edgy(rng, 0.2, 12, (1, 2, 0.5, 3), 0.45)
        alpha, beta = self.maybe_array(rng, draw), self.maybe_array(rng, draw)
        scale = self.maybe_array(rng, lambda: edgy(rng, 0.1, 5, (1, 2, 0.5), 0.5))
        sc = np.broadcast_to(scale, self.N).astype(float)
        t = specs.strata(rng, self.N, 0, 1)
        x = np.where(t == 1, sc, sc * t)
        kw = dict(alpha=alpha, beta=beta, scale=scale)
        if rng.random() < 0.2:
            kw.pop("scale")
            scale, x = 1.0, t
        got = self.observe(mon, "beta_dist", self.gw.utils.beta_dist, x, kw, rng.random() < 0.3)
        want = ref.beta_dist(x, alpha, beta, scale)
        want = np.where(np.isinf(want), np.nan, want)
        self.finite_nonneg(mon, "beta", got, want, kw)
        g = np.asarray(got, float)
        gap = np.maximum(np.abs(np.asarray(scale) - x), 1e-16)
        rtol = 1e-9 + specs.betaln_tol() + np.abs(np.asarray(beta, float) - 1) * 4e-16 * np.asarray(scale) / gap
        mon.close("beta density", np.where(np.isnan(want), 0, g), np.where(np.isnan(want), 0, want), rtol=rtol, atol=1e-300, parameters=kw)

    def s_von_mises(self, rng, mon):
        choose_backend(self, rng)
        mu = self.maybe_array(rng, lambda: edgy(rng, -4, 4, (0, np.pi, -np.pi)))
        kappa = self.maybe_array(rng, lambda: edgy(rng, 0, 20, (0, 1)) if rng.random() < 0.7 else float(10 ** rng.uniform(-4, 4)))
        x = specs.strata(rng, self.N, -np.pi, np.pi, (0,))
        kw = dict(mu=mu, kappa=kappa)
        got = self.observe(mon, "von_mises", self.gw.utils.von_mises, x, kw, rng.random() < 0.3)
        want = ref.von_mises(x, mu, kappa)
        self.finite_nonneg(mon, "von Mises", got, want, kw)
        mon.close("von Mises density", got, want, rtol=1e-8 + 1e-14 * np.asarray(kappa), atol=1e-290, parameters=kw)

    def s_gauss2d(self, rng, mon):
        choose_backend(self, rng)
        kw = dict(
            mu_x=edgy(rng, -2, 2, (0,)), mu_y=edgy(rng, -2, 2, (0,)), sigma_x=edgy(rng, 0.1, 3, (1,)),
            sigma_y=edgy(rng, 0.1, 3, (1,)), covariance=edgy(rng, -0.95, 0.95, (0, 0.9, -0.5)),
        )
        x, y = rng.uniform(-3, 3, (2, self.N))
        x[0], y[0] = kw["mu_x"], kw["mu_y"]
        got = mon.call("unnormalized_2d_gaussian", self.gw.utils.unnormalized_2d_gaussian, self.convert(x), self.convert(y), **kw)
        want = ref.gaussian_2d(x, y, *kw.values())
        mon.close("2d gaussian", got, want, rtol=1e-10 + 1e-13 * np.abs(np.log(want)) / (1 - kw["covariance"] ** 2), atol=1e-290, parameters=kw)

    def s_trapezoid(self, rng, mon):
        choose_backend(self, rng)
        ndim = int(rng.integers(1, 4))
        shape = tuple(int(rng.integers(2, 7)) for _ in range(ndim))
        axis = int(rng.integers(-ndim, ndim))
        y = rng.normal(size=shape)
        n = shape[axis]
        mode = pick(rng, "x", "dx", "default")
        if mode == "x":
            x = np.cumsum(rng.uniform(0.01, 1, n))
            got = mon.call("trapezoid", self.gw.utils.trapezoid, self.convert(y), x=self.convert(x), axis=axis)
        elif mode == "dx":
            dx = float(rng.uniform(0.01, 2))
            x = np.arange(n) * dx
            got = mon.call("trapezoid", self.gw.utils.trapezoid, self.convert(y), dx=dx, axis=axis)
        else:
            x, axis = np.arange(shape[-1]), -1
            got = mon.call("trapezoid", self.gw.utils.trapezoid, self.convert(y))
        mon.close("trapezoid", got, ref.trapz(y, x, axis), rtol=1e-10, atol=1e-12)

    def s_integral(self, rng, mon):
        """The observed densities integrate to one."""
        use_backend(self, "numpy")
        u = self.gw.utils
        which = pick(rng, "powerlaw", "truncnorm", "beta", "von_mises")
        if which == "powerlaw":
            low, high, alpha = edgy(rng, 0.1, 5, (1,)), edgy(rng, 6, 100), edgy(rng, -5, 6, (-1, 0, 1))
            pts, w = ref.gl_points(np.geomspace(low, high, 12), 48)
            f = mon.call("powerlaw", u.powerlaw, pts, alpha=alpha, high=high, low=low)
        elif which == "truncnorm":
            low, high = -1.0, edgy(rng, 0, 3)
            mu, sigma = edgy(rng, -3, 4), edgy(rng, 0.1, 3)
            pts, w = ref.gl_points(np.clip(np.concatenate([np.linspace(low, high, 40), mu + sigma * np.arange(-6, 7)]), low, high), 48)
            f = mon.call("truncnorm", u.truncnorm, pts, mu=mu, sigma=sigma, high=high, low=low)
        elif which == "beta":
            a, b, s = edgy(rng, 1, 9, (1,)), edgy(rng, 1, 9, (1,)), edgy(rng, 0.2, 3, (1,))
            pts, w = ref.gl_points(s * np.concatenate([[0], np.geomspace(1e-6, 0.5, 12), 1 - np.geomspace(1e-6, 0.5, 12), [1]]), 48)
            f = mon.call("beta_dist", u.beta_dist, pts, alpha=a, beta=b, scale=s)
        else:
            mu, kappa = edgy(rng, -3, 3), edgy(rng, 0, 60, (0,))
            pts, w = ref.gl_points(np.linspace(-np.pi, np.pi, 20), 48)
            f = mon.call("von_mises", u.von_mises, pts, mu=mu, kappa=kappa)
        mon.close("unit integral", np.sum(f * w), 1.0, rtol=1e-5 if which == "beta" else 1e-8)
