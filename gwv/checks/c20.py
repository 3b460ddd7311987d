"""C20: selection effects on a grid."""
import numpy as np

from .common import *


class CheckImpl(Check):
    pid = "C20"
    rule = (
        "GridVT on random grids (1-4 dimensions, any assignment of parameters to axes and order of keys, equal and unequal lengths, uniform and "
        "non-uniform increasing spacing, both backends) against an explicit nested trapezoidal sum; non-trivial: non-zero integral"
    )
    assumptions = ["grids increasing along their axis, at least two points per dimension"]
    scenarios = {"grid": ("s_grid", 200, 6000), "separable": ("s_separable", 60, 1500), "package": ("s_package", 20, 300)}

    def required(self):
        return ["grid integral", "equal lengths", "closed form of a separable model", "package models on a grid", "repeatable"]

    def axes(self, rng, ndim, equal):
        n = int(rng.integers(2, 12))
        out = []
        few = [(5, 5, 5, 5), (7, 4, 5, 3), (3, 6, 4, 5)][int(rng.integers(3))]  # few distinct shapes to compile for
        for k in range(ndim):
            m = n if equal else int(rng.integers(2, 12 if ndim > 2 else 40))
            if self.gw.utils.xp is not np:
                m = 5 if equal else few[k]
            if rng.random() < 0.5:
                out.append(np.linspace(rng.uniform(-2, 0), rng.uniform(0.5, 3), m))
            else:
                out.append(np.cumsum(rng.uniform(0.02, 1.0, m)) - rng.uniform(0, 2))
        return out

    def s_grid(self, rng, mon):
        b = choose_backend(self, rng, 0.15)
        xp = self.gw.utils.xp
        ndim = int(rng.integers(1, 5))
        equal = bool(rng.random() < 0.4)
        grids = self.axes(rng, ndim, equal)
        names = [["alpha", "m", "zz", "chi"][i] for i in rng.permutation(4)[:ndim]]
        mesh = np.meshgrid(*grids, indexing="ij")
        vts = rng.random(mesh[0].shape) if rng.random() < 0.8 else np.ones(mesh[0].shape)

        def model(dataset, scale, tilt):
            out = scale
            for j, name in enumerate(sorted(names)):
                out = out * (1 + tilt * dataset[name] ** (j + 1)) ** 2
            return out

        from bilby.hyper.model import Model

        items = [(nm, g) for nm, g in zip(names, mesh)] + [("vt", vts)]
        items = [items[i] for i in rng.permutation(len(items))]
        data = {k: xp.asarray(v) for k, v in items}
        form = pick(rng, "function", "list", "model")
        m = model if form == "function" else [model] if form == "list" else Model([model], cache=bool(rng.random() < 0.5))
        vt = self.gw.vt.GridVT(model=m, data=data)
        last = None
        for k in range(3):
            p = dict(scale=float(rng.uniform(0.2, 3)), tilt=float(rng.uniform(-0.4, 0.4)))
            f = np.asarray(model({n: g for n, g in zip(names, mesh)}, **p)) * vts
            want = f
            for ax in range(ndim - 1, -1, -1):
                want = ref.trapz(want, grids[ax], ax)
            got = mon.call("GridVT", vt, p)
            mon.close("grid integral", got, want, rtol=1e-9, atol=1e-12, axes=names, shape=mesh[0].shape)
            if equal and ndim > 1:
                mon.close("equal lengths", got, want, rtol=1e-9, atol=1e-12)
            if last is not None:
                mon.close("repeatable", mon.call("GridVT", vt, last[0]), last[1], rtol=1e-12)
            last = p, np.asarray(got)

    def s_separable(self, rng, mon):
        """Multilinear integrand and sensitivity: the trapezoid is exact."""
        use_backend(self, "numpy")
        ndim = int(rng.integers(1, 5))
        grids = self.axes(rng, ndim, bool(rng.random() < 0.5))
        names = [f"p{i}" for i in rng.permutation(ndim)]
        mesh = np.meshgrid(*grids, indexing="ij")
        coef = rng.normal(size=ndim)

        def model(dataset, k):
            out = k
            for n, c in zip(names, coef):
                out = out * (1 + c * dataset[n])
            return out

        data = dict(zip(names, mesh))
        data["vt"] = np.full(mesh[0].shape, 0.5)
        vt = self.gw.vt.GridVT(model=model, data=data)
        want = 0.5 * 2.0
        size = 1.0
        for g, c in zip(grids, coef):
            want *= (g[-1] - g[0]) + c * (g[-1] ** 2 - g[0] ** 2) / 2
            size *= (g[-1] - g[0]) * (1 + abs(c) * max(abs(g)))
        got = mon.call("GridVT", vt, dict(k=2.0))
        mon.close("closed form of a separable model", got, want, rtol=1e-9, atol=1e-11 * size, shape=mesh[0].shape)

    def s_package(self, rng, mon):
        choose_backend(self, rng, 0.2)
        xp = self.gw.utils.xp
        n = pick(rng, 40, 60)
        m1, q = np.linspace(2.5, 90, n), np.linspace(0.05, 1, pick(rng, n, 30))
        mesh = np.meshgrid(m1, q, indexing="ij") if rng.random() < 0.5 else [g.T for g in np.meshgrid(m1, q, indexing="ij")]
        order = [m1, q] if mesh[0].shape == (len(m1), len(q)) and mesh[0][0, 0] == mesh[0][0, -1] else [q, m1]
        case = specs.AnalyticMass(rng, "power_law_primary_mass_ratio")
        p = case.params(rng)
        p["mmin"] = max(p["mmin"], 2.6)
        vts = rng.random(mesh[0].shape)
        d = dict(mass_1=mesh[0], mass_ratio=mesh[1])
        vt = self.gw.vt.GridVT(model=self.gw.models.mass.power_law_primary_mass_ratio, data=dict({k: xp.asarray(v) for k, v in d.items()}, vt=xp.asarray(vts)))
        val = np.nan_to_num(case.ref(d, p)[0]) * vts
        want = ref.trapz(ref.trapz(val, order[1], 1), order[0], 0)
        mon.close("package models on a grid", mon.call("GridVT", vt, p), want, rtol=1e-6, atol=1e-15, parameters=p)
