"""
Reference implementations (oracles), written from the documentation with numpy/scipy only.

Nothing here imports gwpopulation.  Functions that stand for a model with a numerical
normalisation return (value, budget): the exact density and the error that a trapezoidal
normalisation on the advertised grid makes, which is the accuracy such a model can be
held to.
"""
import numpy as np
from scipy import special, stats
from scipy.interpolate import CubicSpline

np.seterr(all="ignore")


# -- elementary densities ------------------------------------------------------------
def power_integral(alpha, high, low):
    """Integral of x**alpha over [low, high], accurate for every alpha (low > 0 or alpha > -1)."""
    alpha, high, low = np.broadcast_arrays(*[np.asarray(v, float) for v in (alpha, high, low)])
    a = alpha + 1
    out = np.empty(a.shape)
    zero = low <= 0
    with np.errstate(all="ignore"):
        L = np.log(high) - np.log(np.where(zero, 1.0, low))
        body = np.exp(a * np.log(np.where(zero, 1.0, low))) * np.where(
            a == 0, L, np.expm1(a * L) / np.where(a == 0, 1.0, a)
        )
        out = np.where(zero, high**a / np.where(a == 0, 1.0, a), body)
    return out


def powerlaw(x, alpha, high, low):
    x, alpha, high, low = np.broadcast_arrays(*[np.asarray(v, float) for v in (x, alpha, high, low)])
    inside = (x >= low) & (x <= high)
    xs = np.where(inside, x, 1.0)
    with np.errstate(all="ignore"):
        val = xs**alpha / power_integral(alpha, high, low)
    return np.where(inside, val, 0.0)


def powerlaw_rtol(alpha, high, low, base=1e-10):
    """Relative accuracy that double precision allows the closed form (cancellation near alpha=-1)."""
    alpha, high, low = np.broadcast_arrays(*[np.asarray(v, float) for v in (alpha, high, low)])
    a = np.abs(alpha + 1)
    with np.errstate(all="ignore"):
        L = np.log(high / np.where(low > 0, low, 1e-300))
        cond = np.where(a == 0, 1.0, 1 / np.minimum(1.0, a * L))
    return base + 1e-14 * cond


def truncnorm(x, mu, sigma, high, low):
    x, mu, sigma, high, low = np.broadcast_arrays(*[np.asarray(v, float) for v in (x, mu, sigma, high, low)])
    a, b, z = (low - mu) / sigma, (high - mu) / sigma, (x - mu) / sigma
    with np.errstate(all="ignore"):
        # reflect so that the interval is never entirely in the upper tail
        up = a > 0
        a2, b2 = np.where(up, -b, a), np.where(up, -a, b)
        la, lb = special.log_ndtr(a2), special.log_ndtr(b2)
        log_norm = lb + np.log(-np.expm1(la - lb))
        val = np.exp(-(z**2) / 2 - 0.5 * np.log(2 * np.pi) - np.log(sigma) - log_norm)
    return np.where((x >= low) & (x <= high), val, 0.0)


def truncnorm_rtol(mu, sigma, high, low, base=1e-9):
    mu, sigma, high, low = np.broadcast_arrays(*[np.asarray(v, float) for v in (mu, sigma, high, low)])
    a, b = (low - mu) / sigma, (high - mu) / sigma
    with np.errstate(all="ignore"):
        far = np.maximum(np.abs(a), np.abs(b))
        width = (high - low) / sigma
        # relative width of the interval in units of the local decay length
        cond = 1 / np.minimum(1.0, width * np.maximum(1.0, np.minimum(np.abs(a), np.abs(b)) * (a * b > 0)))
    return base + 1e-13 * cond + 1e-15 * far**2


def beta_dist(x, alpha, beta, scale=1.0):
    x, alpha, beta, scale = np.broadcast_arrays(*[np.asarray(v, float) for v in (x, alpha, beta, scale)])
    u = x / scale
    inside = (x >= 0) & (x <= scale)
    us = np.where(inside, u, 0.5)
    with np.errstate(all="ignore"):
        ln = (
            special.xlogy(alpha - 1, us)
            + special.xlog1py(beta - 1, -us)
            + special.gammaln(alpha + beta)
            - special.gammaln(alpha)
            - special.gammaln(beta)
        )
        val = np.exp(ln) / scale
    return np.where(inside, val, 0.0)


def von_mises(x, mu, kappa):
    x, mu, kappa = np.broadcast_arrays(*[np.asarray(v, float) for v in (x, mu, kappa)])
    return np.exp(-2 * kappa * np.sin((x - mu) / 2) ** 2) / (2 * np.pi * special.ive(0, kappa))


def gaussian_2d(x, y, mu_x, mu_y, sigma_x, sigma_y, rho):
    cov = np.array([[sigma_x**2, rho * sigma_x * sigma_y], [rho * sigma_x * sigma_y, sigma_y**2]])
    inv = np.linalg.inv(cov)
    r = np.stack(np.broadcast_arrays(np.asarray(x, float) - mu_x, np.asarray(y, float) - mu_y), axis=-1)
    return np.exp(-0.5 * np.einsum("...i,ij,...j->...", r, inv, r))


# -- integration -------------------------------------------------------------------------
_GL = {n: np.polynomial.legendre.leggauss(n) for n in (16, 48, 96)}


def gl_points(breaks, n=48):
    """Gauss-Legendre points and weights on each interval between the break points."""
    x, w = _GL[n]
    b = np.unique(np.asarray(breaks, float))
    lo, hi = b[:-1, None], b[1:, None]
    pts = 0.5 * (hi + lo) + 0.5 * (hi - lo) * x
    wts = 0.5 * (hi - lo) * w
    return pts.ravel(), wts.ravel()


def gl_integrate(func, breaks, n=48):
    pts, wts = gl_points(breaks, n)
    return float(np.sum(func(pts) * wts))


def trapz(y, x, axis=-1):
    y, x = np.asarray(y, float), np.asarray(x, float)
    y = np.moveaxis(y, axis, -1)
    return np.sum((y[..., 1:] + y[..., :-1]) * np.diff(x) / 2, axis=-1)


# -- mass models -----------------------------------------------------------------------------
def broken_power_law(m, alpha_1, alpha_2, mmin, mmax, break_fraction):
    m = np.asarray(m, float)
    mb = mmin + break_fraction * (mmax - mmin)
    norm = power_integral(-alpha_1, mb, mmin) * mb**alpha_1 + power_integral(-alpha_2, mmax, mb) * mb**alpha_2
    inside = (m >= mmin) & (m <= mmax)
    ms = np.where(inside, m, mb) / mb
    return np.where(inside, np.where(ms < 1, ms**-alpha_1, ms**-alpha_2) / norm, 0.0)


def mass_primary(kind, m, p, gmax):
    """One-mass densities, kind in pl, bpl, plp, plpp, bplp; gmax the upper limit of peaks."""
    if kind in ("bpl", "bplp"):
        base = broken_power_law(m, p["alpha_1"], p["alpha_2"], p["mmin"], p["mmax"], p["break_fraction"])
    else:
        base = powerlaw(m, -p["alpha"], p["mmax"], p["mmin"])
    if kind in ("pl", "bpl"):
        return base
    if kind == "plpp":
        g = p["lam_1"] * truncnorm(m, p["mpp_1"], p["sigpp_1"], gmax, p["mmin"]) + (1 - p["lam_1"]) * truncnorm(
            m, p["mpp_2"], p["sigpp_2"], gmax, p["mmin"]
        )
    else:
        g = truncnorm(m, p["mpp"], p["sigpp"], gmax, p["mmin"])
    return (1 - p["lam"]) * base + p["lam"] * g


def mass_breaks(kind, p, gmax, delta=0.0):
    b = [p["mmin"], p["mmax"]]
    if kind in ("bpl", "bplp"):
        b.append(p["mmin"] + p["break_fraction"] * (p["mmax"] - p["mmin"]))
    if kind in ("plp", "bplp"):
        b += [gmax] + [p["mpp"] + k * p["sigpp"] for k in (-8, -4, -2, -1, 0, 1, 2, 4, 8)]
    if kind == "plpp":
        b.append(gmax)
        for i in (1, 2):
            b += [p[f"mpp_{i}"] + k * p[f"sigpp_{i}"] for k in (-8, -4, -2, -1, 0, 1, 2, 4, 8)]
    if kind in ("plp", "plpp", "bplp"):  # a peak beyond its truncation piles up at the edge
        b += list(gmax - (gmax - p["mmin"]) * np.geomspace(1e-5, 0.1, 14))
    top = max(p["mmax"], gmax) if kind in ("plp", "plpp", "bplp") else p["mmax"]
    if delta > 0:
        b += list(p["mmin"] + delta * np.linspace(0, 1, 9))
    b += list(np.geomspace(p["mmin"], top, 12))
    b = np.array(b)
    return np.unique(b[(b >= p["mmin"]) & (b <= top)])


def window(m, mmin, delta):
    m = np.asarray(m, float)
    if delta == 0:
        return np.where(m >= mmin, 1.0, 0.0)
    t = (m - mmin) / delta
    inner = (t > 0) & (t < 1)
    ts = np.where(inner, t, 0.5)
    return np.where(t >= 1, 1.0, np.where(inner, special.expit(1 / (1 - ts) - 1 / ts), 0.0))


def window_rtol(m, mmin, delta):
    """Relative effect on the window of the rounding of its argument"""
    if delta == 0:
        return 0.0
    m = np.asarray(m, float)
    t = (m - mmin) / delta
    err = 5e-16 * (np.abs(m) + mmin) / delta
    t0, t1 = np.maximum(np.abs(t), 1e-9), np.maximum(np.abs(1 - t), 1e-9)
    return np.where((t > -1e-6) & (t < 1 + 1e-6), np.minimum(1.0, err / t0**2) + np.minimum(1.0, err / t1**2), 0.0)


def smoothed_mass(kind, data, p, grid_mmin, grid_mmax, shape, norm_extra=None):
    """
    Smoothed model: density and error budget.

    norm_extra: optional factor g(m) multiplying the primary density (spline models).
    """
    m1, q = np.asarray(data["mass_1"], float), np.asarray(data["mass_ratio"], float)
    mmin, delta, beta = p["mmin"], p.get("delta_m", 0.0), p["beta"]
    extra = norm_extra if norm_extra is not None else (lambda m: np.ones_like(np.asarray(m, float)))

    def primary(m):
        return kind(m, p) if callable(kind) else mass_primary(kind, m, p, grid_mmax)

    def f1(m):
        return primary(m) * window(m, mmin, delta) * (np.asarray(m) <= grid_mmax) * extra(m)

    num1 = f1(m1)
    if delta == 0 and norm_extra is None:
        n1 = n1s = 1.0
    else:
        brk = mass_breaks("pl" if callable(kind) else kind, p, grid_mmax, delta)
        if norm_extra is not None:
            e = np.asarray(norm_extra.breaks)
            brk = np.unique(np.concatenate([brk, e[(e > brk[0]) & (e < brk[-1])]]))
        n1 = gl_integrate(f1, brk, 48)
        ms = np.linspace(grid_mmin, grid_mmax, shape[0])
        n1s = float(trapz(f1(ms), ms))
    num2 = powerlaw(q, beta, 1.0, mmin / m1) * window(m1 * q, mmin, delta) * (q <= 1)
    if delta == 0:
        n2 = n2s = np.ones(m1.shape)
    else:
        n2 = q_norm_exact(m1, beta, mmin, delta)
        n2s = q_norm_grid(m1, beta, mmin, delta, grid_mmin, grid_mmax, shape)
    with np.errstate(all="ignore"):
        val = num1 / n1 * np.where(num2 > 0, num2 / n2, 0.0)
        scheme = num1 / n1s * np.where(num2 > 0, num2 / n2s, 0.0)
    zero = (num1 == 0) | (num2 == 0)
    val = np.where(zero, 0.0, val)
    scheme = np.where(zero, 0.0, scheme)
    return val, np.abs(scheme - val)


def q_norm_exact(m1, beta, mmin, delta):
    m1 = np.asarray(m1, float)
    flat = m1.ravel()
    ok = flat > mmin
    mm = np.where(ok, flat, 2 * mmin)
    low = mmin / mm
    knee = np.minimum(1.0, (mmin + delta) / mm)
    total = np.zeros(mm.shape)
    x, w = _GL[48]
    edges = [low + (knee - low) * t for t in (0, 0.1, 0.25, 0.5, 0.75, 1.0)] + [
        np.minimum(1.0, knee * np.exp(np.log(1.0 / knee) * t)) for t in (0.34, 0.67, 1.0)
    ]
    for lo, hi in zip(edges[:-1], edges[1:]):
        pts = 0.5 * (hi + lo)[:, None] + 0.5 * (hi - lo)[:, None] * x
        f = powerlaw(np.clip(pts, low[:, None], 1.0), beta, 1.0, low[:, None]) * window(mm[:, None] * pts, mmin, delta)
        total += np.sum(f * w, axis=-1) * 0.5 * (hi - lo)
    return np.where(ok, total, 1.0).reshape(m1.shape)


def q_norm_grid(m1, beta, mmin, delta, grid_mmin, grid_mmax, shape):
    ms = np.linspace(grid_mmin, grid_mmax, shape[0])
    qs = np.linspace(0.001, 1, shape[1])
    mg, qg = np.meshgrid(ms, qs)
    f = powerlaw(qg, beta, 1.0, mmin / mg) * window(mg * qg, mmin, delta)
    norms = trapz(np.nan_to_num(f.T, posinf=0), qs)
    return np.interp(np.asarray(m1, float), ms, norms)


# -- splines ---------------------------------------------------------------------------------
def spline(nodes, values, kind):
    nodes, values = np.asarray(nodes, float), np.asarray(values, float)
    if kind == "cubic":
        return CubicSpline(nodes, values, bc_type="not-a-knot", extrapolate=True)
    if kind == "linear":
        return lambda x: np.interp(x, nodes, values)
    if kind == "nearest":
        return lambda x: values[np.argmin(np.abs(np.asarray(x, float)[..., None] - nodes), axis=-1)]
    raise ValueError(kind)


def spline_density(x, nodes, values, kind, grid=None, log=False):
    """Normalised exp(spline) on [nodes[0], nodes[-1]] and the budget of a trapezoid on grid."""
    x = np.asarray(x, float)
    nodes = np.asarray(nodes, float)
    func = np.log if log else (lambda v: np.asarray(v, float))
    s = spline(func(nodes), values, kind)

    def raw(v):
        v = np.asarray(v, float)
        inside = (v >= nodes[0]) & (v <= nodes[-1])
        return np.where(inside, np.exp(s(func(np.where(inside, v, nodes[0])))), 0.0)

    brk = nodes if kind != "nearest" else np.sort(np.concatenate([nodes, (nodes[1:] + nodes[:-1]) / 2]))
    exact = gl_integrate(raw, brk, 48)
    val = raw(x) / exact
    budget = np.zeros_like(val)
    if grid is not None:
        approx = float(trapz(raw(grid), grid))
        budget = np.abs(raw(x) / approx - val)
    return val, budget


# -- cosmology ---------------------------------------------------------------------------------
C_KMS = 299792.458


def efunc(z, Om0, w0):
    z = np.asarray(z, float)
    return np.sqrt(Om0 * (1 + z) ** 3 + (1 - Om0) * (1 + z) ** (3 * (1 + w0)))


def comoving_distance(z, H0, Om0, w0):
    z = np.atleast_1d(np.asarray(z, float))
    x, w = _GL[48]
    pts = 0.5 * z[..., None] * (x + 1)
    return C_KMS / H0 * np.sum(w / efunc(pts, Om0, w0), axis=-1) * 0.5 * z


def dvc_dz(z, H0, Om0, w0):
    """Full-sky comoving volume element in Mpc^3."""
    z = np.atleast_1d(np.asarray(z, float))
    return 4 * np.pi * C_KMS / H0 * comoving_distance(z, H0, Om0, w0) ** 2 / efunc(z, Om0, w0)


def madau_dickinson(z, gamma, kappa, z_peak):
    z = np.asarray(z, float)
    f = lambda v: (1 + v) ** gamma / (1 + ((1 + v) / (1 + z_peak)) ** kappa)
    return f(z) / f(0.0)


# -- likelihood ----------------------------------------------------------------------------------
def per_event(weights):
    """ln of the mean weight of each event and fractional variance of the mean."""
    weights = np.asarray(weights, float)
    k = weights.shape[-1]
    mean = weights.mean(axis=-1)
    var = ((weights - mean[..., None]) ** 2).mean(axis=-1) / k / mean**2
    return np.log(mean), var


def efficiency(weights, total):
    weights = np.asarray(weights, float)
    mu = weights.sum() / total
    return mu, (weights**2).sum() / total**2 - mu**2 / total
