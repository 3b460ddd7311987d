"""
Synthetic catalogues and selection functions with independent oracles, for the checks of the
likelihoods.

Every posterior sample and every injection carries a unique id, so that what the code did
with it can be followed through ingestion, evaluation and resampling.
"""
import numpy as np
import pandas as pd

from .specs import edgy, pick


class Population:
    """A product of population models the user could have written, and its oracle."""

    def __init__(self, gw, rng, zeros=False, strict=False):
        self.gw = gw
        self.zeros = zeros

        def gauss_x(dataset, mu, sigma):
            xp = gw.utils.xp
            return xp.exp(-(((dataset["x"] - mu) / sigma) ** 2) / 2) / sigma

        def slope_y(dataset, slope):
            return 1 + slope * (2 * dataset["y"] - 1)

        def cut_y(dataset, ycut):
            return (dataset["y"] <= ycut) / ycut

        class Tilted:
            variable_names = ["slope"]

            def __call__(self, dataset, slope):
                return slope_y(dataset, slope)

        self.functions = [gauss_x]
        self.names = ["mu", "sigma"]
        if rng.random() < 0.6:
            self.functions.append(slope_y if rng.random() < 0.5 else Tilted())
            self.names.append("slope")
        if zeros:
            self.functions.append(cut_y)
            self.names.append("ycut")
        order = rng.permutation(len(self.functions))
        self.functions = [self.functions[i] for i in order]

    def params(self, rng):
        p = dict(mu=edgy(rng, -1, 1, (0.0,)), sigma=edgy(rng, 0.4, 2, (1.0,)))
        if "slope" in self.names:
            p["slope"] = edgy(rng, -0.95, 0.95, (0.0,))
        if "ycut" in self.names:
            p["ycut"] = edgy(rng, 0.35, 1, (1.0,))
        return p

    def oracle(self, d, p):
        x, y = np.asarray(d["x"], float), np.asarray(d["y"], float)
        out = np.exp(-(((x - p["mu"]) / p["sigma"]) ** 2) / 2) / p["sigma"]
        if "slope" in self.names:
            out = out * (1 + p["slope"] * (2 * y - 1))
        if "ycut" in self.names:
            out = out * (y <= p["ycut"]) / p["ycut"]
        return out

    def hyper_prior(self, rng, kind=None, cache=None):
        """The population model in one of the forms a likelihood accepts."""
        from bilby.hyper.model import Model

        kind = kind or pick(rng, "model", "model", "function", "stored")
        if kind == "function" and len(self.functions) > 1:
            kind = "model"
        if kind == "function":
            return self.functions[0]
        if kind == "stored" and self.gw.utils.xp is np:
            return Stored(self.functions)
        cache = bool(rng.random() < 0.6) if cache is None else cache
        return Model(list(self.functions), cache=cache)


class Stored:
    """
    A user's own population model that remembers what it returned for given hyperparameters
    and returns the same array again.
    """

    def __init__(self, functions):
        from bilby.hyper.model import Model

        self._model = Model(list(functions), cache=False)
        self._memory = {}

    @property
    def models(self):
        return self._model.models

    @property
    def parameters(self):
        return self._model.parameters

    @parameters.setter
    def parameters(self, value):
        self._model.parameters.update(value)

    def prob(self, data, **kwargs):
        key = (id(data), tuple(sorted((k, float(v)) for k, v in kwargs.items() if np.ndim(v) == 0)))
        if key not in self._memory:
            self._memory[key] = (data, self._model.prob(data, **kwargs))
        return self._memory[key][1]


def log_sigma_in_place(parameters):
    """A conversion function that works on the dictionary it is given."""
    import gwpopulation

    if "log_sigma" in parameters:
        parameters["sigma"] = gwpopulation.utils.xp.exp(parameters.pop("log_sigma"))
    return parameters, ["sigma"]


def log_sigma_conversion(parameters):
    """A conversion function a user could write."""
    added = []
    converted = dict(parameters)
    if "log_sigma" in converted:
        import gwpopulation

        converted["sigma"] = gwpopulation.utils.xp.exp(converted["log_sigma"])
        added.append("sigma")
    return converted, added


class Catalog:
    """Posterior samples of a number of events."""

    def __init__(self, rng, n_events=None, lengths="equal", prior=None, extra=True, n_samples=None):
        self.n = n_events or int(rng.integers(1, 8))
        k = n_samples or int(rng.integers(2, 60))
        self.lengths = [k] * self.n if lengths == "equal" else [int(rng.integers(max(1, k // 2), 2 * k)) for _ in range(self.n)]
        self.has_prior = bool(rng.random() < 0.75) if prior is None else prior
        self.frames = []
        start = 0
        for i, m in enumerate(self.lengths):
            d = dict(
                x=rng.normal(rng.normal() * 0.3, 0.8, m),
                y=rng.random(m),
                id=np.arange(start, start + m).astype(float),
            )
            start += m
            if self.has_prior:
                d["prior"] = 10 ** rng.uniform(-1.5, 1.0, m)
            cols = list(d)
            if rng.random() < 0.5:
                cols = [cols[j] for j in rng.permutation(len(cols))]
            frame = pd.DataFrame({c: d[c] for c in cols})
            u = rng.random()
            if u < 0.3:  # an index as left behind by cuts, merges and sorting
                frame.index = rng.permutation(5 * m)[:m]
            elif u < 0.4:
                frame.index = np.zeros(m, int)
            self.frames.append(frame)
        self.table = {c: np.concatenate([f[c].to_numpy() for f in self.frames]) for c in ("x", "y", "id")}
        self.table["prior"] = np.concatenate([f["prior"].to_numpy() for f in self.frames]) if self.has_prior else np.ones(start)
        self.event_of = np.repeat(np.arange(self.n), self.lengths)

    def rows(self, ids):
        """The original samples with the given ids."""
        idx = np.asarray(ids).astype(int)
        return {c: v[idx] for c, v in self.table.items()}

    def weights(self, population, p, ids):
        r = self.rows(ids)
        return population.oracle(r, p) / r["prior"]


class Selection:
    """A selection function in one of the accepted forms and its oracle."""

    KINDS = ("default", "number", "tuple", "vt")

    def __init__(self, gw, rng, population, n_events, kind=None, jax=False, injections=None):
        self.kind = kind or pick(rng, *self.KINDS)
        self.gw, self.pop = gw, population
        self.scale = float(10 ** rng.uniform(-2, 1))
        self.frac = float(10 ** rng.uniform(-4, -1))
        if self.kind == "default":
            self.func = None
        elif self.kind == "number":
            self.func = lambda parameters: self.scale * (1 + parameters["mu"] ** 2)
        elif self.kind == "tuple":
            self.func = lambda parameters: (self.scale * (1 + parameters["mu"] ** 2), (self.frac * self.scale) ** 2)
        else:
            m = injections or (int(rng.integers(20, 120)) if gw.utils.xp is np else 50)
            self.inj = dict(x=rng.normal(0, 1, m), y=rng.random(m), prior=10 ** rng.uniform(-1, 0.5, m))
            self.total = int(rng.integers(m, 20 * m))
            data = {k: gw.utils.xp.asarray(v) for k, v in self.inj.items()}
            data["total_generated"] = self.total
            self.func = gw.vt.ResamplingVT(model=population.hyper_prior(rng, "model", cache=False if jax else None), data=data, n_events=n_events, enforce_convergence=False)

    def oracle(self, p):
        if self.kind == "default":
            return 1.0, 0.0
        if self.kind in ("number", "tuple"):
            return self.scale * (1 + p["mu"] ** 2), (self.frac * self.scale) ** 2 if self.kind == "tuple" else 0.0
        w = self.pop.oracle(self.inj, p) / self.inj["prior"]
        mu = w.sum() / self.total
        return mu, (w**2).sum() / self.total**2 - mu**2 / self.total


class World:
    """A likelihood with everything that is needed to predict its values."""

    def __init__(self, gw, rng, cls="HyperparameterLikelihood", lengths=None, kind=None, zeros=None, cache=None, n_events=None, n_samples=None, conversion=None, injections=None, **kwargs):
        self.gw, self.cls = gw, cls
        on_jax = gw.utils.xp is not np
        if on_jax:  # few distinct shapes, so that compiled code is reused
            n_events = n_events or pick(rng, 1, 3)
            n_samples = n_samples or 24
            lengths = lengths or "equal"
        self.pop = Population(gw, rng, zeros=bool(rng.random() < 0.3) if zeros is None else zeros)
        self.cat = Catalog(rng, lengths=lengths or pick(rng, "equal", "equal", "varied"), n_events=n_events, n_samples=n_samples)
        self.sel = Selection(gw, rng, self.pop, self.cat.n, kind, jax=cache is False, injections=injections)
        self.converted = bool(rng.random() < 0.35) if conversion is None else conversion
        kw = dict(kwargs)
        if self.sel.func is not None:
            kw["selection_function"] = self.sel.func
        if self.converted:
            kw["conversion_function"] = log_sigma_in_place if conversion == "in place" else log_sigma_conversion
        self.evidences = None
        if rng.random() < 0.5:
            self.evidences = pick(rng, list, np.array)(rng.normal(-50, 20, self.cat.n))
            kw["ln_evidences"] = self.evidences
        if rng.random() < 0.3 and "max_samples" not in kw:
            kw["max_samples"] = 16 if on_jax else int(rng.integers(2, 80))
        hp = self.pop.hyper_prior(rng, cache=cache)
        self.kwargs = kw
        self.lik = getattr(gw.hyperpe, cls)([f.copy() for f in self.cat.frames], hp, **kw)

    def params(self, rng):
        """(parameters handed to the likelihood, parameters of the population model)"""
        p = self.pop.params(rng)
        if self.cls == "RateLikelihood":
            p["rate"] = float(10 ** rng.uniform(-1, 3))
        q = dict(p)
        if self.converted:
            p = dict(p)
            p["log_sigma"] = float(np.log(p.pop("sigma")))
            q = dict(p, sigma=float(np.exp(p["log_sigma"])))
        if rng.random() < 0.3:
            p["unused"] = 3.0
        return p, q

    def ids(self):
        return np.asarray(self.lik.data["id"])

    def events(self, q):
        w = self.cat.weights(self.pop, q, self.ids())
        k = w.shape[-1]
        mean = w.mean(axis=-1)
        var = ((w - mean[:, None]) ** 2).mean(axis=-1) / k / mean**2
        return np.log(mean), var

    def estimate(self, q):
        """(ln L, variance, per-event ln BF, per-event variance, selection, selection variance)"""
        lnbf, var = self.events(q)
        sel, svar = self.sel.oracle(q)
        n = self.cat.n
        if self.cls == "RateLikelihood":
            nexp = q["rate"] * sel
            lnl = lnbf.sum() + n * np.log(q["rate"]) - nexp
            tot = var.sum() + nexp * svar / sel**2
        else:
            lnl = lnbf.sum() - n * np.log(sel)
            tot = var.sum() + n**2 * svar / sel**2
        if self.cls == "NullHyperparameterLikelihood":
            lnl = 0.0
        return lnl, tot, lnbf, var, sel, svar
