"""C27: the hyperparameters a model announces."""
import inspect

import numpy as np

from .common import *


class CheckImpl(Check):
    pid = "C27"
    rule = (
        "for every model, configuration and cosmology, and for user-defined smoothed-mass and redshift models, alone and in products: the "
        "announced names against the documented ones, evaluation through a population model with exactly these names (decided against the "
        "reference density), with each one omitted, with unrelated ones added and in other orders, and repeated readings of the names "
        "around evaluations, other instances and modification of what was returned; non-trivial: a decided reading or evaluation"
    )
    assumptions = ["bilby's Model asks for every argument of a function, including those with defaults"]
    scenarios = {
        "names": ("s_names", 60, 2500),
        "spline": ("s_spline", 40, 1500),
        "redshift": ("s_redshift", 40, 1500),
        "custom": ("s_custom", 30, 800),
        "product": ("s_product", 20, 500),
        "functions": ("s_functions", 30, 1200),
        "infer": ("s_infer", 20, 500),
    }

    def required(self):
        return [
            "announced names", "announced once", "exactly the announced names suffice", "omitting a name fails", "extra parameters change nothing",
            "reading has no side effect", "instances are independent", "names of a function", "names after inferring nodes", "user-defined smoothed model", "user-defined redshift model", "product of models",
        ]

    def model(self, funcs):
        from bilby.hyper.model import Model

        return Model(list(funcs), cache=False)

    def names(self, mon, obj, want, **detail):
        got = list(obj.variable_names)
        mon.true("announced once", len(got) == len(set(got)), f"names repeated: {got}", nontrivial=False, **detail)
        mon.true("announced names", set(got) == set(want), f"announces {sorted(got)}, needs {sorted(want)}", key=(sorted(got), str(detail)), **detail)
        held = obj.variable_names
        for spoil in ("append", "add", "extend", "clear"):  # what was returned belongs to the caller
            if hasattr(held, spoil):
                try:
                    getattr(held, spoil)(*{"append": ["zz"], "add": ["zz"], "extend": [["zz"]], "clear": []}[spoil])
                except Exception:
                    pass
        mon.true("reading has no side effect", sorted(obj.variable_names) == sorted(got), f"{sorted(got)} became {sorted(obj.variable_names)}", **detail)
        return got

    def evaluate(self, rng, mon, funcs, data, p, noise=True):
        """exact names; omitted names; extra names"""
        pop = self.model(funcs)
        bd = to_backend(self.gw, data)
        base = np.asarray(mon.call("prob", lambda d, q: pop.prob(d, **q), bd, p))
        omit = list(p) if len(p) <= 6 else [list(p)[k] for k in rng.permutation(len(p))[:6]]
        for key in omit:
            q = {k: v for k, v in p.items() if k != key}
            mon.raises("omitting a name fails", (KeyError, TypeError), lambda: pop.prob(bd, **q))
        if noise:
            extra = {k: float(rng.normal()) for k in ("unrelated", "kappa_x", "rate", "mass", "fmass", "chi", "lam_9", "Ob0", "m_nu", "name", "nodes", "kind", "cache", "z_max", "minimum")}
            q = dict(extra, **p)
            q = {list(q)[k]: q[list(q)[k]] for k in rng.permutation(len(q))}
            got = mon.call("prob with extras", lambda d, q: pop.prob(d, **q), bd, q)
            mon.same("extra parameters change nothing", got, base, parameters=p)
        again = mon.call("prob", lambda d, q: pop.prob(d, **q), bd, {k: p[k] for k in sorted(p)})
        mon.close("order of the parameters", again, base, rtol=1e-12)
        return base

    CLASSES = list(specs.SmoothedMass.CLASSES) + ["InterpolatedPowerlaw", "spline_magnitude", "spline_tilt", "spline_generic", "PowerLawRedshift", "MadauDickinsonRedshift"]

    def case(self, rng, name):
        if name in specs.SmoothedMass.CLASSES:
            return specs.SmoothedMass(rng, name, small=True)
        if name == "InterpolatedPowerlaw":
            return specs.SplineMass(rng, small=True)
        return specs.registry()[name](rng)

    def through(self, rng, mon, case, label="exactly the announced names suffice"):
        model = case.build(self.gw)
        p = case.params(rng)
        if hasattr(model, "variable_names"):
            self.names(mon, model, p, **case.describe())
        data = case.data(rng, 24, p)
        base = self.evaluate(rng, mon, [model], data, p)
        decide_density(mon, label, case, data, p, base)
        if hasattr(model, "variable_names"):
            self.names(mon, model, p, **case.describe())
        return model, p

    def s_names(self, rng, mon):
        choose_backend(self, rng, 0.15)
        self.through(rng, mon, self.case(rng, pick(rng, *self.CLASSES)))

    def s_spline(self, rng, mon):
        """Names follow node count and regularisation, each instance has its own."""
        use_backend(self, "numpy")
        made = []
        for _ in range(3):
            case = self.case(rng, pick(rng, "InterpolatedPowerlaw", "spline_magnitude", "spline_tilt", "spline_generic"))
            model, p = self.through(rng, mon, case)
            made.append((case, model, p))
        for case, model, p in made:
            mon.true("instances are independent", set(model.variable_names) == set(p), f"names changed to {sorted(model.variable_names)}", **case.describe())

    def s_redshift(self, rng, mon):
        choose_backend(self, rng, 0.15)
        made = []
        for _ in range(3):
            case = self.case(rng, pick(rng, "PowerLawRedshift", "MadauDickinsonRedshift"))
            model, p = self.through(rng, mon, case)
            made.append((case, model, p))
        for case, model, p in made:
            mon.true("instances are independent", set(model.variable_names) == set(p), f"names changed to {sorted(model.variable_names)}", **case.describe())
        # cosmology names of the mixin
        for name, want in (("FlatwCDM", {"H0", "Om0", "w0"}), ("FlatLambdaCDM", {"H0", "Om0"}), ("Planck15", set())):
            obj = self.gw.experimental.cosmo_models.CosmoMixin(name)
            mon.true("cosmology names", set(obj.cosmology_names) == want, f"{name}: {obj.cosmology_names}")

    def s_custom(self, rng, mon):
        """User-defined models built on the base classes."""
        use_backend(self, "numpy")
        gw = self.gw
        kind = pick(rng, "function", "fixed", "object", "redshift", "inherit")
        z = float(rng.uniform(1, 3))
        if kind == "redshift":
            base = pick(rng, ["slope"], [], None, ["slope", "other"])

            class Mine(gw.models.redshift._Redshift):
                base_variable_names = base

                def psi_of_z(self, redshift, **parameters):
                    return 1 + parameters.get("slope", 0.0) * redshift + parameters.get("other", 0.0) * redshift**2

            cosmo = pick(rng, "Planck15", "FlatLambdaCDM", "FlatwCDM")
            case = specs.Redshift(rng, "PowerLawRedshift", (cosmo,))
            model = Mine(**case.cfg)
            p = dict(specs.cosmo_params(rng, cosmo), **{k: float(rng.uniform(0, 2)) for k in (base or [])})
            self.names(mon, model, p, base=base)
            mon.true("reading has no side effect", Mine.base_variable_names == base, "base_variable_names modified")
            case.psi = lambda z, p: 1 + p.get("slope", 0.0) * z + p.get("other", 0.0) * z**2
            data = case.data(rng, 20, p)
            got = self.evaluate(rng, mon, [model], data, p)
            decide_density(mon, "user-defined redshift model", case, data, p, got)
            return

        def primary(mass, alpha, mmin, mmax, tilt=0.0, level=1.0):
            return gw.utils.powerlaw(mass, alpha=-alpha, high=mmax, low=mmin) * level * (1 + tilt * 0)

        names = {"alpha", "mmin", "mmax", "tilt", "level"}
        fixed = {}
        if kind == "function":
            class Mine(gw.models.mass.BaseSmoothedMassDistribution):
                primary_model = primary
        elif kind == "fixed":
            fixed = pick(rng, dict(level=2.0), dict(tilt=0.3, level=0.5))

            class Mine(gw.models.mass.BaseSmoothedMassDistribution):
                primary_model = primary

                @property
                def kwargs(self):
                    return dict(fixed)
        elif kind == "object":
            declared = pick(rng, list, tuple, set)(["alpha", "mmin", "mmax"])

            class Primary:
                variable_names = declared

                def __call__(self, mass, alpha, mmin, mmax):
                    return gw.utils.powerlaw(mass, alpha=-alpha, high=mmax, low=mmin)

            names = {"alpha", "mmin", "mmax"}
            instance = Primary()

            class Mine(gw.models.mass.BaseSmoothedMassDistribution):
                primary_model = instance
        else:
            class Mine(gw.models.mass.SinglePeakSmoothedMassDistribution):
                pass

            names = {"alpha", "mmin", "mmax", "lam", "mpp", "sigpp"}
        grid = pick(rng, {}, dict(mmin=3.0, mmax=80.0), dict(normalization_shape=(400, 200)))
        model = Mine(**grid)
        lo, hi = grid.get("mmin", 2), grid.get("mmax", 100)
        shape = grid.get("normalization_shape", (1000, 500))
        inner = "plp" if kind == "inherit" else "pl"
        p = specs.mass_params(rng, inner, lo, hi)
        p.update(beta=edgy(rng, -1, 3), delta_m=edgy(rng, 1, 8))
        if "tilt" in names - set(fixed):
            p["tilt"] = 0.1
        if "level" in names - set(fixed):
            p["level"] = 2.0
        self.names(mon, model, (names - set(fixed)) | {"beta", "delta_m"}, kind=kind)
        if kind == "object":
            mon.true("reading has no side effect", sorted(declared) == ["alpha", "mmax", "mmin"], f"names of the primary model became {declared}")
        m1 = rng.uniform(p["mmin"] + p["delta_m"], 0.9 * p["mmax"], 20)
        data = dict(mass_1=m1, mass_ratio=rng.uniform(np.minimum(0.95, (p["mmin"] + p["delta_m"]) / m1), 1))
        got = self.evaluate(rng, mon, [model], data, p, noise=True)
        want, budget = ref.smoothed_mass(inner, data, p, lo, hi, shape)
        skip = budget > 0.2 * want
        mon.close("user-defined smoothed model", np.where(skip, 0, got), np.where(skip, 0, want), rtol=1e-7, atol=3 * np.where(skip, 0, budget) + 1e-290, kind=kind, parameters=p)
        self.names(mon, model, (names - set(fixed)) | {"beta", "delta_m"}, kind=kind)

    def s_product(self, rng, mon):
        """A population model needs the union of the names of its parts."""
        choose_backend(self, rng, 0.15)
        parts = [pick(rng, "SinglePeakSmoothedMassDistribution", "InterpolatedPowerlaw", "two_component_primary_mass_ratio"), pick(rng, "spline_magnitude", "iid_spin_magnitude_beta"), pick(rng, "spline_tilt", "iid_spin_orientation_gaussian_isotropic"), pick(rng, "PowerLawRedshift", "MadauDickinsonRedshift")]
        parts = [parts[k] for k in rng.permutation(4)[: int(rng.integers(2, 5))]]
        cases = [self.case(rng, n) for n in parts]
        p, data, funcs, want, budget = {}, {}, [], 1.0, 0.0
        for c in cases:
            q = c.params(rng)
            d = c.data(rng, 16, q, hostile=False)
            if c.name == "two_component_primary_mass_ratio":
                q.setdefault("gaussian_mass_maximum", 100)
            if c.name == "iid_spin_orientation_gaussian_isotropic":
                q.setdefault("mu_spin", 1)
            p.update(q)
            data.update(d)
            funcs.append(c.build(self.gw))
            v, b = c.ref(d, q)
            with np.errstate(all="ignore"):
                budget = budget + np.where(v > 0, b / np.where(v > 0, v, 1), 0)
            want = want * v
        got = self.evaluate(rng, mon, funcs, data, p)
        ok = np.isfinite(want) & (budget < 0.2)
        mon.close("product of models", np.where(ok, got, 0), np.where(ok, want, 0), rtol=1e-6 + 10 * specs.betaln_tol(), atol=3 * np.where(ok, want * budget, 0) + 1e-280, parts=parts)

    FUNCTIONS = [
        "power_law_primary_mass_ratio", "double_power_law_primary_power_law_mass_ratio", "two_component_primary_mass_ratio", "power_law_primary_secondary_independent",
        "power_law_primary_secondary_identical", "two_component_primary_secondary_independent", "two_component_primary_secondary_identical",
        "iid_spin_magnitude_beta", "independent_spin_magnitude_beta", "iid_spin_orientation_gaussian_isotropic", "independent_spin_orientation_gaussian_isotropic", "iid_spin",
        "gaussian_chi_eff", "gaussian_chi_p", "GaussianChiEffChiP",
    ]

    OPTIONAL = dict(gaussian_mass_maximum=100, mu_spin=1, mu_1=1, mu_2=1)  # documented defaults

    def s_functions(self, rng, mon):
        choose_backend(self, rng, 0.15)
        case = specs.registry()[pick(rng, *self.FUNCTIONS)](rng)
        func = case.build(self.gw)
        p = case.params(rng)
        target = func if inspect.isfunction(func) else func.__call__
        args = [a for a in inspect.signature(target).parameters if a not in ("self", "dataset")]
        for a, v in inspect.signature(target).parameters.items():  # bilby asks for arguments with defaults as well
            if v.default is not inspect.Parameter.empty and a in self.OPTIONAL:
                p.setdefault(a, self.OPTIONAL[a])
        if "gaussian_mass_maximum" in p and "gaussian_mass_maximum" not in args:
            p.pop("gaussian_mass_maximum")
        if not any(a in ("args", "kwargs", "parameters") for a in args):
            mon.true("names of a function", set(args) == set(p), f"{case.name} takes {sorted(args)}, documented {sorted(p)}", key=case.name)
        data = case.data(rng, 24, p)
        got = self.evaluate(rng, mon, [func], data, p)
        decide_density(mon, "names of a function", case, data, p, got)

    def s_infer(self, rng, mon):
        """More nodes than the model was built with: the names follow."""
        use_backend(self, "numpy")
        case = self.case(rng, pick(rng, "spline_magnitude", "spline_tilt", "spline_generic"))
        more = case.nodes
        less = int(rng.integers(2 if case.kindi != "cubic" else 4, more + 1))
        if less == more:
            less = max(2, more - 1) if case.kindi != "cubic" else more
        full = dict(case.cfg)
        case.cfg = dict(full, nodes=less)
        model = case.build(self.gw)
        case.cfg = full
        base = case.base
        few = [f"{a}{base}{i}" for a in ("", "f") for i in range(less)] + ([f"rms{base}"] if case.reg else [])
        self.names(mon, model, few)
        p = case.params(rng)
        data = case.data(rng, 24, p)
        got = mon.call(case.name, lambda d, q: model(d, **q), data, p)
        decide_density(mon, "density after inferring nodes", case, data, p, got)
        mon.true("names after inferring nodes", set(model.variable_names) == set(p), f"announces {sorted(model.variable_names)}", **case.describe())
        fresh = case.build(self.gw)
        self.names(mon, fresh, p)
