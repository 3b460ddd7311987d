"""
Registry of the package's population models: how to build, parameterise and call each one,
what data it takes, and its reference density.

A Spec is a template; Spec.draw(rng) returns a Case with a concrete configuration.  A Case
can build the model (with whatever backend is active), generate hyperparameters and data
(hostile: including the edges of and points outside the support) and evaluate the reference.
"""
import numpy as np

from . import ref


# jax.scipy.special.betaln is only accurate to about 1e-6 (up to 1.4e-6 seen); this is the
# accuracy that models built on it can be held to when the jax backend is active.
JAX_BETALN = 5e-6
ACTIVE = {"backend": "numpy"}


def betaln_tol():
    return JAX_BETALN if ACTIVE["backend"] != "numpy" else 0.0


def jax_tol():
    """jax.scipy.special.log_ndtr switches to a short asymptotic series (error 105/z**8 at |z|>20)"""
    return 3e-8 if ACTIVE["backend"] != "numpy" else 0.0


# -- helpers -----------------------------------------------------------------------------------
def pick(rng, *options):
    return options[int(rng.integers(len(options)))]


def edgy(rng, low, high, special=(), p_special=0.25):
    """Uniform with occasional special values inside [low, high]."""
    sp = [s for s in special if low <= s <= high]
    if sp and rng.random() < p_special:
        return float(sp[int(rng.integers(len(sp)))])
    return float(rng.uniform(low, high))


def to_backend(gw, data):
    """dataset (dict of numpy arrays, or an array) as arrays of the active backend"""
    xp = gw.utils.xp
    if isinstance(data, dict):
        return {k: xp.asarray(v) for k, v in data.items()}
    return xp.asarray(data)


def strata(rng, n, low, high, edges=(), outside=True):
    """Points inside [low, high], close to and at its edges, and outside."""
    x = rng.uniform(low, high, n)
    k = max(1, n // 6)
    w = high - low
    near = np.array(list(edges) + [low, high])
    idx = rng.permutation(n)
    x[idx[:k]] = near[rng.integers(len(near), size=k)]
    x[idx[k : 2 * k]] = near[rng.integers(len(near), size=k)] + w * rng.choice([-1, 1], k) * 10 ** rng.uniform(-9, -1, k)
    if outside:
        x[idx[2 * k : 3 * k]] = np.where(rng.random(k) < 0.5, low - w * rng.uniform(0, 1, k), high + w * rng.uniform(0, 1, k))
    else:
        x = np.clip(x, low, high)
    return x


class Case:
    """A concrete configuration of a model."""

    name = "?"
    takes_array = None  # name of the data column if the model takes an array
    numeric = False  # normalised numerically
    uses_cache = False  # object keeps data-dependent caches

    def __init__(self, rng):
        self.cfg = {}
        self.configure(rng)

    def configure(self, rng):
        pass

    def build(self, gw):
        raise NotImplementedError

    def params(self, rng):
        raise NotImplementedError

    def data(self, rng, n, p, hostile=True):
        raise NotImplementedError

    def ref(self, data, p):
        """(value, absolute error budget)"""
        raise NotImplementedError

    def rtol(self, data, p):
        return 1e-9

    def call(self, model, data, p):
        if self.takes_array:
            return model(data[self.takes_array], **p)
        return model(data, **p)

    def describe(self):
        return dict(model=self.name, **self.cfg)


# -- mass ----------------------------------------------------------------------------------------
ALPHAS = (-4, -2, -1, 0, 1, 2, 3, 4, 1.5)


def mass_params(rng, kind, lo=2.0, hi=100.0, smooth=False):
    mmin = edgy(rng, lo, min(10.0, lo + 0.3 * (hi - lo)), (lo, 5.0))
    mmax = edgy(rng, max(mmin + 5, 0.35 * hi), hi, (hi, 0.5 * hi))
    p = dict(mmin=mmin, mmax=mmax)

    def alpha():
        return edgy(rng, -4, 8, () if smooth else ALPHAS)

    if kind in ("bpl", "bplp"):
        p.update(alpha_1=alpha(), alpha_2=alpha(), break_fraction=edgy(rng, 0.02, 0.98, (0.5,)))
    else:
        p.update(alpha=alpha())
    if kind in ("plp", "plpp", "bplp"):
        p.update(lam=edgy(rng, 0, 1, () if smooth else (0, 1)))
    if kind in ("plp", "bplp"):
        p.update(mpp=edgy(rng, mmin, hi, (35.0,)), sigpp=edgy(rng, 0.5, 10, (1.0,)))
    if kind == "plpp":
        p.update(
            lam_1=edgy(rng, 0, 1, () if smooth else (0, 1)),
            mpp_1=edgy(rng, mmin, 0.5 * hi),
            mpp_2=edgy(rng, 0.3 * hi, hi),
            sigpp_1=edgy(rng, 0.5, 10),
            sigpp_2=edgy(rng, 0.5, 10),
        )
    return p


def mass_edges(p):
    e = [p["mmin"], p["mmax"]]
    if "break_fraction" in p:
        e.append(p["mmin"] + p["break_fraction"] * (p["mmax"] - p["mmin"]))
    for k in ("mpp", "mpp_1", "mpp_2"):
        if k in p:
            e.append(p[k])
    return e


class AnalyticMass(Case):
    """Closed-form mass model functions."""

    FUNCS = {
        # name: (kind, form); form: single, q, m2ind, m2id
        "power_law_mass": ("pl", "single"),
        "double_power_law_primary_mass": ("bpl", "single"),
        "double_power_law_peak_primary_mass": ("bplp", "single"),
        "two_component_single": ("plp", "single"),
        "three_component_single": ("plpp", "single"),
        "power_law_primary_mass_ratio": ("pl", "q"),
        "double_power_law_primary_power_law_mass_ratio": ("bpl", "q"),
        "two_component_primary_mass_ratio": ("plp", "q"),
        "power_law_primary_secondary_independent": ("pl", "m2ind"),
        "power_law_primary_secondary_identical": ("pl", "m2id"),
        "two_component_primary_secondary_independent": ("plp", "m2ind"),
        "two_component_primary_secondary_identical": ("plp", "m2id"),
    }
    HAS_GMAX = {"bplp", "plp", "plpp"}

    def __init__(self, rng, func):
        self.name = func
        self.kind, self.form = self.FUNCS[func]
        self.takes_array = "mass_1" if self.form == "single" else None
        super().__init__(rng)

    def configure(self, rng):
        self.gmax = None
        if self.kind in self.HAS_GMAX and rng.random() < 0.5:
            self.gmax = edgy(rng, 60, 200, (100.0,))
        self.cfg = dict(gaussian_mass_maximum=self.gmax)

    def build(self, gw):
        return getattr(gw.models.mass, self.name)

    def params(self, rng, smooth=False):
        p = mass_params(rng, self.kind, smooth=smooth)
        if self.form in ("q", "m2ind"):
            p["beta"] = edgy(rng, -4, 8, () if smooth else ALPHAS)
        if self.gmax is not None:
            p["gaussian_mass_maximum"] = self.gmax
        return p

    def data(self, rng, n, p, hostile=True):
        g = p.get("gaussian_mass_maximum", 100.0)
        hi = max(p["mmax"], g) if self.kind in self.HAS_GMAX else p["mmax"]
        if not hostile:
            m1 = p["mmin"] + (hi - p["mmin"]) * rng.beta(1, 3, n)
        else:
            m1 = strata(rng, n, p["mmin"], hi, mass_edges(p) + [g])
            k = rng.integers(n, size=max(1, n // 20))
            m1[k] = rng.uniform(1e-3, p["mmin"], len(k))
            m1 = np.where(m1 > 0, m1, 0.5)
        d = dict(mass_1=m1)
        if self.form == "q":
            low = np.minimum(p["mmin"] / m1, 1.0)
            d["mass_ratio"] = self._q(rng, n, low, hostile)
        elif self.form != "single":
            if hostile:
                m2 = strata(rng, n, p["mmin"], hi, mass_edges(p))
                m2 = np.where(m2 > 0, m2, 0.5)
                same = rng.random(n) < 0.1
                m2 = np.where(same, m1, m2)
            else:
                m2 = p["mmin"] + (m1 - p["mmin"]) * rng.random(n)
            d["mass_2"] = m2
        return d

    @staticmethod
    def _q(rng, n, low, hostile):
        q = low + (1 - low) * rng.random(n)
        if hostile:
            u = rng.random(n)
            q = np.where(u < 0.06, 1.0, q)
            q = np.where((u > 0.06) & (u < 0.12), low * rng.uniform(0.3, 0.999, n), q)
            q = np.where((u > 0.12) & (u < 0.17), 1 + rng.uniform(1e-6, 0.5, n), q)
            q = np.where((u > 0.17) & (u < 0.2), low * (1 + 1e-9), q)
        return q

    def ref(self, d, p):
        g = p.get("gaussian_mass_maximum", 100.0)
        p1 = ref.mass_primary(self.kind, d["mass_1"], p, g)
        if self.form == "single":
            val = p1
        elif self.form == "q":
            val = p1 * ref.powerlaw(d["mass_ratio"], p["beta"], 1.0, p["mmin"] / d["mass_1"])
            val = np.where(d["mass_1"] <= p["mmin"], np.where(d["mass_1"] == p["mmin"], np.nan, 0.0), val)
        else:
            p2 = dict(p)
            if self.form == "m2ind":
                p2["alpha"] = p["beta"]
            val = 2 * p1 * ref.mass_primary(self.kind, d["mass_2"], p2, g) * (d["mass_1"] >= d["mass_2"])
        return val, np.zeros_like(val)

    def rtol(self, d, p):
        t = 1e-9
        for k in ("alpha", "alpha_1", "alpha_2"):
            if k in p:
                t = max(t, float(ref.powerlaw_rtol(-p[k], p["mmax"], p["mmin"], 1e-9)))
        if "break_fraction" in p:
            mb = p["mmin"] + p["break_fraction"] * (p["mmax"] - p["mmin"])
            t = max(
                t,
                float(ref.powerlaw_rtol(-p["alpha_1"], mb, p["mmin"], 1e-9)),
                float(ref.powerlaw_rtol(-p["alpha_2"], p["mmax"], mb, 1e-9)),
            )
        if self.form == "q":
            return t + ref.powerlaw_rtol(p["beta"], 1.0, np.minimum(p["mmin"] / d["mass_1"], 0.99999999), 1e-9) + 1e-15 / np.maximum(1e-15, np.abs(1 - p["mmin"] / d["mass_1"]))
        if self.form == "m2ind":
            t += float(ref.powerlaw_rtol(-p["beta"], p["mmax"], p["mmin"], 1e-9))
        return 2 * t


def window_rtol(d, p):
    return ref.window_rtol(d["mass_1"], p["mmin"], p["delta_m"]) + ref.window_rtol(d["mass_1"] * d["mass_ratio"], p["mmin"], p["delta_m"])


def draw_delta(rng, smooth):
    """Window widths from much narrower than any grid spacing to several solar masses"""
    if smooth:
        return edgy(rng, 0.5, 10)
    if rng.random() < 0.15:
        return float(10 ** rng.uniform(-3, -0.5))
    return edgy(rng, 0.05, 10, (0.0, 5.0), 0.3)


def in_window(rng, m1, q, p):
    """Move some of the samples so that one of the masses lies within the window"""
    n = m1.size
    t = p["mmin"] + p["delta_m"] * rng.uniform(0.05, 1.1, n)
    u = rng.random(n)
    m1 = np.where(u < 0.06, t, m1)
    low = p["mmin"] / m1
    q = np.where(u < 0.06, low + (1 - low) * rng.uniform(0.6, 1, n), q)
    return m1, np.where((u > 0.06) & (u < 0.14) & (m1 > t), t / m1, q)


class SmoothedMass(Case):
    CLASSES = {
        "SinglePeakSmoothedMassDistribution": "plp",
        "MultiPeakSmoothedMassDistribution": "plpp",
        "BrokenPowerLawSmoothedMassDistribution": "bpl",
        "BrokenPowerLawPeakSmoothedMassDistribution": "bplp",
    }
    numeric = True
    uses_cache = True

    def __init__(self, rng, cls, small=False):
        self.name = cls
        self.kind = self.CLASSES[cls]
        self.small = small
        super().__init__(rng)

    def configure(self, rng):
        self.mmin = edgy(rng, 1, 4, (2.0,), 0.6)
        self.mmax = edgy(rng, 60, 200, (100.0,), 0.6)
        self.shape = pick(rng, (1000, 500), (500, 300), (800, 400), (1500, 600)) if not self.small else (300, 150)
        self.cache = bool(rng.random() < 0.7)
        self.default = self.mmin == 2.0 and self.mmax == 100.0 and self.shape == (1000, 500) and self.cache
        self.cfg = dict(mmin=self.mmin, mmax=self.mmax, normalization_shape=self.shape, cache=self.cache)

    def build(self, gw):
        return getattr(gw.models.mass, self.name)(**({} if self.default else self.cfg))

    def params(self, rng, smooth=False):
        p = mass_params(rng, self.kind, self.mmin, self.mmax, smooth=smooth)
        p["beta"] = edgy(rng, -2, 7, () if smooth else (-1, 0, 1, 2))
        p["delta_m"] = draw_delta(rng, smooth)
        return p

    def data(self, rng, n, p, hostile=True):
        m1 = p["mmin"] + (self.mmax - p["mmin"]) * rng.beta(1, 3, n)
        if hostile:
            m1 = np.where(rng.random(n) < 0.6, strata(rng, n, p["mmin"], self.mmax, mass_edges(p) + [p["mmin"] + p["delta_m"]]), m1)
            m1 = np.where(m1 > 0, m1, 0.5)
            # a sharp edge that the two forms of the comparison could resolve differently
            m1 = np.where(m1 == p["mmin"], p["mmin"] * (1 + 1e-3), m1)
        low = np.minimum(p["mmin"] / m1, 1.0)
        q = AnalyticMass._q(rng, n, low, hostile)
        if hostile and p["delta_m"] > 0:
            m1, q = in_window(rng, m1, q, p)
        return dict(mass_1=m1, mass_ratio=q)

    def ref(self, d, p):
        return ref.smoothed_mass(self.kind, d, p, self.mmin, self.mmax, self.shape)

    def rtol(self, d, p):
        an = AnalyticMass.__new__(AnalyticMass)
        an.form = "q"
        return 10 * an.rtol(d, p) + window_rtol(d, p)


class SplineMass(Case):
    name = "InterpolatedPowerlaw"
    numeric = True
    uses_cache = True

    def __init__(self, rng, small=False):
        self.small = small
        super().__init__(rng)

    def configure(self, rng):
        self.nodes = pick(rng, 4, 5, 8, 10, 12, 15)
        self.kindi = pick(rng, "cubic", "cubic", "linear", "nearest")
        self.mmin = edgy(rng, 1, 4, (2.0,), 0.6)
        self.mmax = edgy(rng, 60, 200, (100.0,), 0.6)
        self.shape = pick(rng, (1000, 500), (700, 300)) if not self.small else (300, 150)
        self.reg = bool(rng.random() < 0.4)
        self.cfg = dict(nodes=self.nodes, kind=self.kindi, mmin=self.mmin, mmax=self.mmax, normalization_shape=self.shape, regularize=self.reg)
        if rng.random() < 0.5:
            lo, hi = self.mmin, self.mmax
        else:
            lo, hi = edgy(rng, self.mmin, 12), edgy(rng, 45, self.mmax)
        # node positions are fixed for one object: the model caches them
        self.x = np.geomspace(lo, hi, self.nodes)

    def build(self, gw):
        return gw.models.mass.InterpolatedPowerlaw(**self.cfg)

    def params(self, rng, smooth=False):
        p = mass_params(rng, "pl", self.mmin, self.mmax, smooth=smooth)
        p["mmin"] = min(p["mmin"], 8.0)
        p["beta"] = edgy(rng, -2, 7, () if smooth else (-1, 0, 1, 2))
        p["delta_m"] = draw_delta(rng, smooth)
        p.update({f"mass{i}": float(v) for i, v in enumerate(self.x)})
        p.update({f"fmass{i}": float(rng.normal()) for i in range(self.nodes)})
        if self.reg:
            p["rmsmass"] = float(rng.uniform(0.2, 2))
        return p

    def values(self, p):
        f = np.array([p[f"fmass{i}"] for i in range(self.nodes)])
        if self.reg:
            f = f * p["rmsmass"] / np.sqrt(np.mean(f**2))
        return f

    def data(self, rng, n, p, hostile=True):
        m1 = p["mmin"] + (self.mmax - p["mmin"]) * rng.beta(1, 3, n)
        if not hostile:
            lo, hi = max(self.x[0], p["mmin"]), min(self.x[-1], p["mmax"])
            m1 = lo + (hi - lo) * rng.beta(1, 3, n)
        if hostile:
            m1 = np.where(rng.random(n) < 0.6, strata(rng, n, p["mmin"], self.mmax, [p["mmax"], self.x[0], self.x[-1]]), m1)
            m1 = np.where(m1 > 0, m1, 0.5)
            m1 = np.where(m1 == p["mmin"], p["mmin"] * (1 + 1e-3), m1)
            # the last node goes through exp/log-free comparisons only, but geomspace is not exact
            for e in (self.x[0], self.x[-1]):
                m1 = np.where(np.abs(m1 - e) < 1e-9 * e, e * (1 + 1e-3), m1)
        low = np.minimum(p["mmin"] / m1, 1.0)
        q = AnalyticMass._q(rng, n, low, hostile)
        if hostile and p["delta_m"] > 0:
            m1, q = in_window(rng, m1, q, p)
        return dict(mass_1=m1, mass_ratio=q)

    def ref(self, d, p):
        x = self.x
        s = ref.spline(np.log(x), self.values(p), self.kindi)

        def extra(m):
            m = np.asarray(m, float)
            inside = (m >= x[0]) & (m <= x[-1])
            return np.where(inside, np.exp(s(np.log(np.where(inside, m, x[0])))), 0.0)

        lx = np.log(x)
        extra.breaks = np.concatenate([x, np.exp((lx[1:] + lx[:-1]) / 2)])
        return ref.smoothed_mass("pl", d, p, self.mmin, self.mmax, self.shape, norm_extra=extra)

    def rtol(self, d, p):
        an = AnalyticMass.__new__(AnalyticMass)
        an.form = "q"
        return 10 * an.rtol(d, p) + 1e-8 + window_rtol(d, p)

    def avoid(self, d, p):
        """Samples at which the nearest-node rule is a tie or a node edge"""
        if self.kindi != "nearest":
            return np.zeros(d["mass_1"].shape, bool)
        lx = np.log(self.x)
        mid = (lx[1:] + lx[:-1]) / 2
        return np.any(np.abs(np.log(d["mass_1"])[..., None] - mid) < 1e-9, axis=-1)


# -- splines -------------------------------------------------------------------------------------
class SplineSpin(Case):
    numeric = True
    uses_cache = True

    def __init__(self, rng, which):
        self.which = which  # magnitude, tilt, generic
        super().__init__(rng)

    def configure(self, rng):
        lo, hi = (-1.0, 1.0) if self.which == "tilt" else (0.0, 1.0)
        if rng.random() < 0.4:
            lo, hi = (-0.8, 0.9) if self.which == "tilt" else (0.05, 0.8)
        if self.which == "generic":
            lo, hi = pick(rng, (0.0, 1.0), (-3.0, 5.0), (2.0, 50.0), (1.0, 10.0))
        self.log = bool(self.which == "generic" and lo > 0 and rng.random() < 0.5)
        self.lo, self.hi = lo, hi
        self.nodes = pick(rng, 4, 5, 6, 8, 10, 20)
        self.kindi = pick(rng, "cubic", "cubic", "linear", "nearest")
        self.reg = bool(rng.random() < 0.4)
        self.cfg = dict(minimum=lo, maximum=hi, nodes=self.nodes, kind=self.kindi, regularize=self.reg)
        if self.which == "generic":
            self.cfg["parameters"] = pick(rng, ["xx_1", "xx_2"], ["xx"], ["xx_1", "xx_2", "xx_3"])
            self.cfg["log_nodes"] = self.log
            self.cols, self.base = self.cfg["parameters"], "xx"
        elif self.which == "magnitude":
            self.cols, self.base = ["a_1", "a_2"], "a"
        else:
            self.cols, self.base = ["cos_tilt_1", "cos_tilt_2"], "cos_tilt"
        self.name = dict(magnitude="SplineSpinMagnitudeIdentical", tilt="SplineSpinTiltIdentical", generic="InterpolatedNoBaseModelIdentical")[self.which]
        space = np.geomspace if self.log else np.linspace
        self.x = space(lo, hi, self.nodes)
        if rng.random() < 0.25:
            w = hi - lo
            self.x = space(lo + 0.1 * w, hi - 0.15 * w, self.nodes)

    def build(self, gw):
        if self.which == "generic":
            return gw.models.interped.InterpolatedNoBaseModelIdentical(**self.cfg)
        return getattr(gw.models.spin, self.name)(**self.cfg)

    def params(self, rng, smooth=False):
        p = {f"{self.base}{i}": float(v) for i, v in enumerate(self.x)}
        p.update({f"f{self.base}{i}": float(rng.normal()) for i in range(self.nodes)})
        if self.reg:
            p[f"rms{self.base}"] = float(rng.uniform(0.2, 2))
        return p

    def values(self, p):
        f = np.array([p[f"f{self.base}{i}"] for i in range(self.nodes)])
        if self.reg:
            f = f * p[f"rms{self.base}"] / np.sqrt(np.mean(f**2))
        return f

    def data(self, rng, n, p, hostile=True):
        out = {}
        x0, x1 = self.x[0], self.x[-1]
        for c in self.cols:
            if hostile:
                v = strata(rng, n, x0, x1, [self.lo, self.hi])
                if self.log:
                    v = np.where(v > 0, v, 0.1)
                v = np.where((v != x0) & (np.abs(v - x0) < 1e-12), x0, v)
            else:
                v = rng.uniform(x0, x1, n)
            out[c] = v
        return out

    def ref(self, d, p):
        val, rel = 1.0, 0.0
        grid = np.linspace(self.lo, self.hi, 10 * self.nodes)
        for c in self.cols:
            v, b = ref.spline_density(d[c], self.x, self.values(p), self.kindi, grid, self.log)
            val = val * v
            with np.errstate(all="ignore"):
                rel = rel + np.where(v > 0, b / np.where(v > 0, v, 1), 0)
        return val, val * rel * (1 + rel)

    def rtol(self, d, p):
        return 1e-8

    def avoid(self, d, p):
        if self.kindi != "nearest":
            return np.zeros(d[self.cols[0]].shape, bool)
        func = np.log if self.log else np.asarray
        lx = func(self.x)
        mid = (lx[1:] + lx[:-1]) / 2
        return np.any(
            [np.any(np.abs(func(np.where(d[c] > 0, d[c], 1.0) if self.log else d[c])[..., None] - mid) < 1e-9, axis=-1) for c in self.cols], axis=0
        )


# -- spins -----------------------------------------------------------------------------------------
def beta_params(rng, suffix="", smooth=False):
    sp = () if smooth else (1.0, 1.0, 2.0, 0.5)
    return {
        f"alpha_chi{suffix}": edgy(rng, 1.5 if smooth else 0.3, 8, sp),
        f"beta_chi{suffix}": edgy(rng, 1.5 if smooth else 0.3, 8, sp),
        f"amax{suffix}": edgy(rng, 0.3, 1, () if smooth else (1.0,), 0.4),
    }


class SpinMagnitude(Case):
    def __init__(self, rng, func):
        self.name = func
        super().__init__(rng)

    def build(self, gw):
        return getattr(gw.models.spin, self.name)

    def params(self, rng, smooth=False):
        if self.name == "iid_spin_magnitude_beta":
            return beta_params(rng, smooth=smooth)
        p = beta_params(rng, "_1", smooth)
        p.update(beta_params(rng, "_2", smooth))
        return p

    def both(self, p):
        s = ("", "") if "amax" in p else ("_1", "_2")
        return [(p[f"alpha_chi{k}"], p[f"beta_chi{k}"], p[f"amax{k}"]) for k in s]

    def data(self, rng, n, p, hostile=True):
        out = {}
        for i, (a, b, amax) in enumerate(self.both(p)):
            if hostile:
                v = strata(rng, n, 0, amax, [1.0])
                # leave out the end points at which the density itself diverges
                if a < 1:
                    v = np.where(v == 0, 0.3 * amax, v)
                if b < 1:
                    v = np.where(v == amax, 0.3 * amax, v)
            else:
                v = rng.uniform(0.02, 0.98, n) * amax
            out[f"a_{i + 1}"] = v
        return out

    def ref(self, d, p):
        val = 1.0
        for i, (a, b, amax) in enumerate(self.both(p)):
            val = val * ref.beta_dist(d[f"a_{i + 1}"], a, b, amax)
        return val, np.zeros_like(val)

    def rtol(self, d, p):
        # conditioning of (amax - a)**(beta-1) next to the upper edge
        t = 1e-9 + 2 * betaln_tol()
        for i, (a, b, amax) in enumerate(self.both(p)):
            gap = np.abs(amax - d[f"a_{i + 1}"])
            t = t + abs(b - 1) * 4e-16 / np.maximum(gap, 1e-16)
        return t


class SpinTilt(Case):
    def __init__(self, rng, func):
        self.name = func
        super().__init__(rng)

    def configure(self, rng):
        self.with_mu = bool(rng.random() < 0.6)
        self.cfg = dict(with_mu=self.with_mu)

    def build(self, gw):
        return getattr(gw.models.spin, self.name)

    def params(self, rng, smooth=False):
        p = dict(xi_spin=edgy(rng, 0, 1, () if smooth else (0, 1)))
        sig = lambda: edgy(rng, 0.1, 4, (1.0,))
        mu = lambda: edgy(rng, -1, 1, (1, -1, 0))
        if self.name.startswith("iid"):
            p["sigma_spin"] = sig()
            if self.with_mu:
                p["mu_spin"] = mu()
        else:
            p.update(sigma_1=sig(), sigma_2=sig())
            if self.with_mu:
                p.update(mu_1=mu(), mu_2=mu())
        return p

    def data(self, rng, n, p, hostile=True):
        # the isotropic component is defined on [-1, 1] only
        f = (lambda: strata(rng, n, -1, 1, outside=False)) if hostile else (lambda: rng.uniform(-0.98, 0.98, n))
        return dict(cos_tilt_1=f(), cos_tilt_2=f())

    def ref(self, d, p):
        s1, s2 = (p["sigma_spin"],) * 2 if "sigma_spin" in p else (p["sigma_1"], p["sigma_2"])
        m1, m2 = (p.get("mu_spin", 1),) * 2 if "sigma_spin" in p else (p.get("mu_1", 1), p.get("mu_2", 1))
        val = (1 - p["xi_spin"]) / 4 + p["xi_spin"] * ref.truncnorm(d["cos_tilt_1"], m1, s1, 1, -1) * ref.truncnorm(
            d["cos_tilt_2"], m2, s2, 1, -1
        )
        return val, np.zeros_like(val)


class IIDSpin(Case):
    name = "iid_spin"

    def configure(self, rng):
        self.mag = SpinMagnitude(rng, "iid_spin_magnitude_beta")
        self.tilt = SpinTilt(rng, "iid_spin_orientation_gaussian_isotropic")
        self.tilt.with_mu = False

    def build(self, gw):
        return gw.models.spin.iid_spin

    def params(self, rng, smooth=False):
        p = self.mag.params(rng, smooth)
        p.update(self.tilt.params(rng, smooth))
        return p

    def data(self, rng, n, p, hostile=True):
        d = self.mag.data(rng, n, p, hostile)
        d.update(self.tilt.data(rng, n, p, hostile))
        return d

    def ref(self, d, p):
        val = self.mag.ref(d, p)[0] * self.tilt.ref(d, p)[0]
        return val, np.zeros_like(val)

    def rtol(self, d, p):
        return self.mag.rtol(d, p) + 1e-9


class EffectiveSpin(Case):
    def __init__(self, rng, func):
        self.name = func
        super().__init__(rng)

    def configure(self, rng):
        self.eff = self.name == "gaussian_chi_eff"
        self.col = "chi_eff" if self.eff else "chi_p"
        self.lo = -1.0 if self.eff else 0.0

    def build(self, gw):
        return getattr(gw.models.spin, self.name)

    def params(self, rng, smooth=False):
        return {f"mu_{self.col}": edgy(rng, self.lo, 1, (0, 1, -1)), f"sigma_{self.col}": edgy(rng, 0.05, 1.5, (1.0,))}

    def data(self, rng, n, p, hostile=True):
        return {self.col: strata(rng, n, self.lo, 1) if hostile else rng.uniform(self.lo + 0.02, 0.98, n)}

    def ref(self, d, p):
        val = ref.truncnorm(d[self.col], p[f"mu_{self.col}"], p[f"sigma_{self.col}"], 1, self.lo)
        return val, np.zeros_like(val)


class ChiEffChiP(Case):
    name = "GaussianChiEffChiP"
    numeric = True

    def build(self, gw):
        return gw.models.spin.GaussianChiEffChiP()

    def params(self, rng, smooth=False):
        return dict(
            mu_chi_eff=edgy(rng, -1, 1, (0.0,)),
            mu_chi_p=edgy(rng, 0, 1, (0.0, 1.0)),
            sigma_chi_eff=edgy(rng, 0.05, 1, (1.0,)),
            sigma_chi_p=edgy(rng, 0.05, 1, (1.0,)),
            spin_covariance=edgy(rng, -0.9, 0.9, (0.0,)),
        )

    def data(self, rng, n, p, hostile=True):
        if not hostile:
            return dict(chi_eff=rng.uniform(-0.98, 0.98, n), chi_p=rng.uniform(0.02, 0.98, n))
        return dict(chi_eff=strata(rng, n, -1, 1), chi_p=strata(rng, n, 0, 1))

    def norm(self, p, xs, ws, ys, vs):
        g = ref.gaussian_2d(xs[:, None], ys[None, :], p["mu_chi_eff"], p["mu_chi_p"], p["sigma_chi_eff"], p["sigma_chi_p"], p["spin_covariance"])
        return float(ws @ g @ vs)

    def ref(self, d, p):
        def brk(lo, mu, s):
            b = np.concatenate([np.linspace(lo, 1, 9), mu + s * np.arange(-6, 7)])
            return np.unique(np.clip(b, lo, 1))

        xs, ws = ref.gl_points(brk(-1, p["mu_chi_eff"], p["sigma_chi_eff"]), 16)
        ys, vs = ref.gl_points(brk(0, p["mu_chi_p"], p["sigma_chi_p"]), 16)
        exact = self.norm(p, xs, ws, ys, vs)

        def tw(x):
            w = np.full(x.size, x[1] - x[0])
            w[[0, -1]] /= 2
            return w

        gx, gy = np.linspace(-1, 1, 500), np.linspace(0, 1, 250)
        scheme = self.norm(p, gx, tw(gx), gy, tw(gy))
        num = ref.gaussian_2d(d["chi_eff"], d["chi_p"], p["mu_chi_eff"], p["mu_chi_p"], p["sigma_chi_eff"], p["sigma_chi_p"], p["spin_covariance"])
        num = num * (np.abs(d["chi_eff"]) <= 1) * (d["chi_p"] >= 0) * (d["chi_p"] <= 1)
        return num / exact, np.abs(num / scheme - num / exact)

    def rtol(self, d, p):
        # exponent conditioning
        return 1e-8


# -- redshift -------------------------------------------------------------------------------------
COSMOLOGIES = {  # published H0 and Om0
    "WMAP9": (69.32, 0.2865), "Planck13": (67.77, 0.30712), "Planck15": (67.74, 0.3075),
    "Planck18": (67.66, 0.30966), "Planck15_LAL": (67.90, 0.3065),
}


def cosmo_values(name, p):
    if name == "FlatLambdaCDM":
        return p["H0"], p["Om0"], -1.0
    if name == "FlatwCDM":
        return p["H0"], p["Om0"], p["w0"]
    return (*COSMOLOGIES[name], -1.0)


def cosmo_params(rng, name):
    p = {}
    if name in ("FlatLambdaCDM", "FlatwCDM"):
        p.update(H0=edgy(rng, 20, 140, (70.0,)), Om0=edgy(rng, 0.1, 0.6, (0.3,)))
    if name == "FlatwCDM":
        p["w0"] = edgy(rng, -1.4, -0.6, (-1.0,))
    return p


class Redshift(Case):
    numeric = True

    def __init__(self, rng, cls, cosmologies=None):
        self.name = cls
        self.cosmologies = cosmologies or ("Planck15", "Planck15", "Planck18", "FlatLambdaCDM", "FlatwCDM", "WMAP9", "Planck13", "Planck15_LAL")
        super().__init__(rng)

    def configure(self, rng):
        self.z_max = edgy(rng, 0.3, 10, (2.3, 1.0), 0.5)
        self.cosmo = pick(rng, *self.cosmologies)
        self.cfg = dict(z_max=self.z_max, cosmo_model=self.cosmo)

    def build(self, gw):
        cls = getattr(gw.models.redshift, self.name)
        if self.z_max == 2.3 and self.cosmo == "Planck15":
            return cls()
        return cls(**self.cfg)

    def params(self, rng, smooth=False):
        if self.name == "PowerLawRedshift":
            p = dict(lamb=edgy(rng, -4, 8, (0, 1, 3)))
        else:
            p = dict(gamma=edgy(rng, -4, 8, (0, 2.7)), kappa=edgy(rng, -4, 8, (0, 5.6)), z_peak=edgy(rng, 0.05, 6, (1.9,)))
        p.update(cosmo_params(rng, self.cosmo))
        return p

    def data(self, rng, n, p, hostile=True):
        z = rng.uniform(1e-4, 0.999, n) * self.z_max
        if hostile:
            z = np.where(rng.random(n) < 0.6, strata(rng, n, 0, self.z_max), z)
            z = np.where(z < 1e-5, 1e-3, z)
        return dict(redshift=z)

    def psi(self, z, p):
        if self.name == "PowerLawRedshift":
            return (1 + z) ** p["lamb"]
        return ref.madau_dickinson(z, p["gamma"], p["kappa"], p["z_peak"])

    def dvc(self, z, p):
        """Full-sky comoving volume element, by direct quadrature of the Friedmann equation."""
        z = np.asarray(z, float)
        return ref.dvc_dz(z.ravel(), *cosmo_values(self.cosmo, p)).reshape(z.shape)

    def diff(self, z, p):
        return self.psi(z, p) / (1 + z) * self.dvc(z, p)

    def norm(self, p):
        pts, wts = ref.gl_points(np.linspace(0, self.z_max, 9), 48)
        return float(np.sum(self.diff(pts, p) * wts))

    def ref(self, d, p):
        z = np.asarray(d["redshift"], float)
        exact = self.norm(p)
        grid = np.linspace(1e-6, self.z_max, 2500)
        scheme = float(ref.trapz(self.diff(grid, p), grid))
        num = self.diff(z, p) * (z <= self.z_max)
        return num / exact, np.abs(num / scheme - num / exact)

    def rtol(self, d, p):
        return 1e-8


# -- registry ---------------------------------------------------------------------------------------
def registry():
    out = {}
    for f in AnalyticMass.FUNCS:
        out[f] = lambda rng, f=f: AnalyticMass(rng, f)
    for c in SmoothedMass.CLASSES:
        out[c] = lambda rng, c=c: SmoothedMass(rng, c)
    out["InterpolatedPowerlaw"] = lambda rng: SplineMass(rng)
    for w in ("magnitude", "tilt", "generic"):
        out[f"spline_{w}"] = lambda rng, w=w: SplineSpin(rng, w)
    for f in ("iid_spin_magnitude_beta", "independent_spin_magnitude_beta"):
        out[f] = lambda rng, f=f: SpinMagnitude(rng, f)
    for f in ("iid_spin_orientation_gaussian_isotropic", "independent_spin_orientation_gaussian_isotropic"):
        out[f] = lambda rng, f=f: SpinTilt(rng, f)
    out["iid_spin"] = lambda rng: IIDSpin(rng)
    for f in ("gaussian_chi_eff", "gaussian_chi_p"):
        out[f] = lambda rng, f=f: EffectiveSpin(rng, f)
    out["GaussianChiEffChiP"] = lambda rng: ChiEffChiP(rng)
    for c in ("PowerLawRedshift", "MadauDickinsonRedshift"):
        out[c] = lambda rng, c=c: Redshift(rng, c)
    return out
