"""C09: spin models."""
import numpy as np

from .common import *


class CheckImpl(ModelCheck):
    pid = "C09"
    rule = (
        "evaluations of the spin models (random and special hyperparameters, spins inside, at, next to and outside their limits, both "
        "backends) decided against independent densities; identical against independent models; integrals of observed values; "
        "non-trivial: non-zero density"
    )
    assumptions = ["tilts within [-1, 1]", "the error of a 500x250 trapezoid as budget of the joint effective-spin model"]
    scenarios = {
        "magnitude": ("s_magnitude", 60, 1500),
        "tilt": ("s_tilt", 60, 1500),
        "iid_spin": ("s_iid_spin", 40, 800),
        "effective": ("s_effective", 50, 1200),
        "joint": ("s_joint", 25, 400),
        "shared": ("s_shared", 50, 1000),
        "defaults": ("s_defaults", 30, 500),
        "integral": ("s_integral", 40, 600),
    }

    def required(self):
        return [
            "spin magnitude density", "spin tilt density", "iid_spin density", "effective spin density", "joint effective spin density",
            "identical equals independent with shared parameters", "default parameters", "unit integral", "iid_spin is a product",
        ]

    def s_magnitude(self, rng, mon):
        self.drive(rng, mon, specs.SpinMagnitude(rng, pick(rng, "iid_spin_magnitude_beta", "independent_spin_magnitude_beta")), evaluations=2, label="spin magnitude density")

    def s_tilt(self, rng, mon):
        self.drive(rng, mon, specs.SpinTilt(rng, pick(rng, "iid_spin_orientation_gaussian_isotropic", "independent_spin_orientation_gaussian_isotropic")), evaluations=2, label="spin tilt density")

    def s_iid_spin(self, rng, mon):
        choose_backend(self, rng)
        case = specs.IIDSpin(rng)
        model, p = case.build(self.gw), case.params(rng)
        data = case.data(rng, 160, p)
        b = to_backend(self.gw, data)
        got = mon.call("iid_spin", lambda d, q: model(d, **q), b, p)
        decide_density(mon, "iid_spin density", case, data, p, got)
        s = self.gw.models.spin
        mag = mon.call("magnitude", s.iid_spin_magnitude_beta, b, p["amax"], p["alpha_chi"], p["beta_chi"])
        tilt = mon.call("tilt", s.iid_spin_orientation_gaussian_isotropic, b, p["xi_spin"], p["sigma_spin"])
        mon.close("iid_spin is a product", got, np.asarray(mag) * np.asarray(tilt), rtol=1e-12, parameters=p)

    def s_effective(self, rng, mon):
        self.drive(rng, mon, specs.EffectiveSpin(rng, pick(rng, "gaussian_chi_eff", "gaussian_chi_p")), evaluations=2, label="effective spin density")

    def s_joint(self, rng, mon):
        self.drive(rng, mon, specs.ChiEffChiP(rng), evaluations=2, label="joint effective spin density")

    def s_shared(self, rng, mon):
        choose_backend(self, rng)
        s = self.gw.models.spin
        if rng.random() < 0.5:
            case = specs.SpinMagnitude(rng, "iid_spin_magnitude_beta")
            p = case.params(rng)
            q = {f"{k}_{i}": v for k, v in p.items() for i in (1, 2)}
            pair = s.iid_spin_magnitude_beta, s.independent_spin_magnitude_beta
        else:
            case = specs.SpinTilt(rng, "iid_spin_orientation_gaussian_isotropic")
            p = case.params(rng)
            q = dict(xi_spin=p["xi_spin"], sigma_1=p["sigma_spin"], sigma_2=p["sigma_spin"])
            if "mu_spin" in p:
                q.update(mu_1=p["mu_spin"], mu_2=p["mu_spin"])
            pair = s.iid_spin_orientation_gaussian_isotropic, s.independent_spin_orientation_gaussian_isotropic
        data = to_backend(self.gw, case.data(rng, 100, p))
        one = mon.call("identical", pair[0], data, **p)
        two = mon.call("independent", pair[1], data, **q)
        mon.close("identical equals independent with shared parameters", two, np.asarray(one), rtol=1e-12, parameters=p)
        # exchanging the two objects leaves the identical model unchanged
        swap = {k[:-1] + ("2" if k.endswith("1") else "1"): v for k, v in data.items()}
        mon.close("identical model is symmetric", mon.call("identical", pair[0], swap, **p), np.asarray(one), rtol=1e-12, parameters=p)

    def s_defaults(self, rng, mon):
        choose_backend(self, rng)
        s = self.gw.models.spin
        case = specs.SpinMagnitude(rng, "iid_spin_magnitude_beta")
        p = dict(amax=1.0, alpha_chi=1.0, beta_chi=1.0)
        keep = {}
        for k, v in case.params(rng).items():
            if rng.random() < 0.4:
                keep[k] = v
        p.update(keep)
        data = case.data(rng, 60, p)
        got = mon.call("iid_spin_magnitude_beta", s.iid_spin_magnitude_beta, to_backend(self.gw, data), **keep)
        decide_density(mon, "default parameters", case, data, p, got)
        tilt = specs.SpinTilt(rng, "independent_spin_orientation_gaussian_isotropic")
        p = tilt.params(rng)
        p = {k: v for k, v in p.items() if not k.startswith("mu_")}
        if rng.random() < 0.5:
            p[pick(rng, "mu_1", "mu_2")] = edgy(rng, -1, 1)
        data = tilt.data(rng, 60, p)
        got = mon.call("independent tilt", s.independent_spin_orientation_gaussian_isotropic, to_backend(self.gw, data), **p)
        decide_density(mon, "default parameters", tilt, data, p, got)

    def s_integral(self, rng, mon):
        use_backend(self, "numpy")
        which = pick(rng, "mag", "tilt", "eff", "joint", "iid")
        gl = lambda lo, hi, extra=(): ref.gl_points(np.clip(np.concatenate([np.linspace(lo, hi, 5), list(extra)]), lo, hi), 16)
        sig = np.arange(-5, 6)
        tol = 1e-6
        if which in ("mag", "iid"):
            case = specs.SpinMagnitude(rng, pick(rng, "iid_spin_magnitude_beta", "independent_spin_magnitude_beta") if which == "mag" else "iid_spin_magnitude_beta")
            p = case.params(rng, smooth=True)
            ax = [gl(0, am, am * np.array([1e-3, 1e-2, 0.05, 0.95, 0.99, 0.999])) for _, _, am in case.both(p)]
            cols, tol = ["a_1", "a_2"], 1e-4
        if which == "tilt":
            case = specs.SpinTilt(rng, pick(rng, "iid_spin_orientation_gaussian_isotropic", "independent_spin_orientation_gaussian_isotropic"))
            p = case.params(rng)
            ax = [gl(-1, 1, p.get("mu_spin", p.get(f"mu_{i}", 1)) + p.get("sigma_spin", p.get(f"sigma_{i}", 1)) * sig) for i in (1, 2)]
            cols = ["cos_tilt_1", "cos_tilt_2"]
        elif which == "eff":
            case = specs.EffectiveSpin(rng, pick(rng, "gaussian_chi_eff", "gaussian_chi_p"))
            p = case.params(rng)
            cols = [case.col]
            ax = [gl(case.lo, 1, p[f"mu_{case.col}"] + p[f"sigma_{case.col}"] * sig)]
        elif which == "joint":
            case = specs.ChiEffChiP(rng)
            p = case.params(rng)
            cols, tol = ["chi_eff", "chi_p"], 5e-3
            ax = [gl(lo, 1, p[f"mu_{c}"] + p[f"sigma_{c}"] * sig) for c, lo in (("chi_eff", -1), ("chi_p", 0))]
        if which == "iid":
            case = specs.IIDSpin(rng)
            p.update(case.tilt.params(rng))
            ax += [gl(-1, 1, 1 + p["sigma_spin"] * sig)] * 2
            # magnitudes and tilts are independent: integrate the two planes at a fixed point of the other
            mag = np.meshgrid(ax[0][0], ax[1][0], indexing="ij")
            tilt = np.meshgrid(ax[2][0], ax[3][0], indexing="ij")
            model = case.build(self.gw)
            t0, m0 = (0.3, 0.5), (0.3 * p["amax"], 0.4 * p["amax"])
            f = lambda a1, a2, c1, c2: np.asarray(mon.call("iid_spin", lambda d, q: model(d, **q), dict(a_1=a1, a_2=a2, cos_tilt_1=c1, cos_tilt_2=c2), p))
            one = lambda v, s: np.full(s, v)
            A = np.sum(f(mag[0], mag[1], one(t0[0], mag[0].shape), one(t0[1], mag[0].shape)) * np.outer(ax[0][1], ax[1][1]))
            B = np.sum(f(one(m0[0], tilt[0].shape), one(m0[1], tilt[0].shape), tilt[0], tilt[1]) * np.outer(ax[2][1], ax[3][1]))
            C = float(f(*[np.array([v]) for v in (*m0, *t0)])[0])
            got = A * B / C
        else:
            mesh = np.meshgrid(*[a[0] for a in ax], indexing="ij")
            w = ax[0][1] if len(ax) == 1 else np.outer(ax[0][1], ax[1][1])
            model = case.build(self.gw)
            got = np.sum(w * np.asarray(mon.call(case.name, lambda d, q: case.call(model, d, q), dict(zip(cols, mesh)), p)))
        mon.close("unit integral", got, 1.0, rtol=tol, which=which, case=case.describe(), parameters=p)
