"""C17: ingestion of posterior samples."""
import numpy as np
import pandas as pd

from ..catalog import Catalog, Population
from .common import *


class CheckImpl(Check):
    pid = "C17"
    rule = (
        "likelihoods built from data frames whose samples carry unique ids (equal and unequal lengths, arbitrary indices, column orders, "
        "column types, extra columns, max_samples below, at and above the posterior lengths, both backends); the arrays the likelihood holds "
        "are traced back to the original rows; non-trivial: more than one sample"
    )
    scenarios = {"build": ("s_build", 220, 6000), "direct": ("s_direct", 60, 1500)}

    def required(self):
        return ["shape", "rows hold their own event", "parameters stay together", "no sample used twice", "all samples used without thinning", "sampling prior stays with its sample", "reported sizes", "meta data", "frames untouched"]

    def frames(self, rng):
        cat = Catalog(rng, lengths=pick(rng, "equal", "varied", "varied"))
        frames = [f.copy() for f in cat.frames]
        kinds = {}
        if rng.random() < 0.4:  # an integer, a float32 column
            for f in frames:
                f["tag"] = (f["id"] * 3 + 1).astype(pick(rng, "int64", "int32", "float32"))
            kinds["tag"] = lambda ids: ids * 3 + 1
        if rng.random() < 0.3 and len(frames) > 1:  # columns only later events have
            frames[-1]["only_here"] = 1.0
        return cat, frames, kinds

    def trace(self, mon, cat, data, prior, k, kinds, keys):
        n = cat.n
        for key in keys:
            mon.true("shape", np.asarray(data[key]).shape == (n, k), f"{key} has shape {np.asarray(data[key]).shape}, expected {(n, k)}", nontrivial=k > 1)
        ids = np.asarray(data["id"])
        mon.same("ids are ids", ids, np.round(ids))
        ii = ids.astype(int)
        mon.true("rows hold their own event", np.all((ii >= 0) & (ii < len(cat.event_of))) and np.all(cat.event_of[ii] == np.arange(n)[:, None]), "samples of another event", nontrivial=n > 1)
        rows = cat.rows(ids)
        for c in ("x", "y"):
            mon.same("parameters stay together", data[c], rows[c], column=c)
        for c, f in kinds.items():
            mon.same("parameters stay together", data[c], f(ids), column=c)
        for i in range(n):
            mon.true("no sample used twice", len(np.unique(ids[i])) == k, f"event {i} has repeated samples", nontrivial=k > 1)
            if cat.lengths[i] == k:
                mon.true("all samples used without thinning", set(ids[i]) == set(cat.frames[i]["id"]), f"event {i} does not use all of its samples")
        if prior is not None:
            mon.same("sampling prior stays with its sample", np.broadcast_to(np.asarray(prior, float), ids.shape), rows["prior"])

    def s_build(self, rng, mon):
        b = choose_backend(self, rng)
        gw = self.gw
        cat, frames, kinds = self.frames(rng)
        shortest = min(cat.lengths)
        kw, k = {}, shortest
        if rng.random() < 0.6:
            m = int(pick(rng, 1, max(1, shortest - 1), shortest, shortest + 1, int(rng.integers(1, 100)), 10**6))
            kw["max_samples"] = m
            k = min(m, shortest)
        pop = Population(gw, rng)
        cls = pick(rng, "HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood")
        copies = [f.copy() for f in frames]
        lik = mon.call(cls, lambda fr, **q: getattr(gw.hyperpe, cls)(frames, pop.hyper_prior(rng, "model"), **q), [], **kw)
        for f, c in zip(frames, copies):
            mon.true("frames untouched", f.equals(c) and list(f.columns) == list(c.columns) and f.index.equals(c.index), "a data frame was modified")
        keys = [c for c in frames[0].columns if c != "prior"]
        mon.true("keys", set(lik.data) == set(keys), f"{set(lik.data)} instead of {set(keys)}")
        self.trace(mon, cat, lik.data, lik.sampling_prior, k, kinds, keys)
        mon.true("arrays of the backend", all(type(v).__module__.startswith("jax") == (b == "jax") for v in lik.data.values()), "arrays of another backend")
        mon.true("reported sizes", lik.n_posteriors == cat.n and lik.samples_per_posterior == k, f"n_posteriors={lik.n_posteriors}, samples_per_posterior={lik.samples_per_posterior}, expected {cat.n}, {k}")
        meta = lik.meta_data
        ok = meta["n_events"] == cat.n and meta["samples_per_posterior"] == k and set(meta["data"]) == set(lik.data)
        ok = ok and all(np.array_equal(np.asarray(meta["data"][c]), np.asarray(lik.data[c])) for c in lik.data)
        ok = ok and np.array_equal(np.asarray(meta["sampling_prior"]), np.asarray(lik.sampling_prior))
        ok = ok and len(meta["model"]) == len(pop.functions) and all(isinstance(v, np.ndarray) for v in meta["data"].values())
        names = [getattr(f, "__name__", type(f).__name__) for f in pop.functions]
        mon.true("meta data", ok and list(meta["model"]) == names, f"meta data do not agree with the likelihood: {list(meta)}, {meta['model']}")

    def s_direct(self, rng, mon):
        """resample_posteriors on an existing likelihood"""
        choose_backend(self, rng)
        gw = self.gw
        cat, frames, kinds = self.frames(rng)
        pop = Population(gw, rng)
        lik = gw.hyperpe.HyperparameterLikelihood([f.copy() for f in frames], pop.hyper_prior(rng, "model"))
        cat2, frames2, kinds2 = self.frames(rng)
        k = min(cat2.lengths)
        kw = {}
        if rng.random() < 0.6:
            kw["max_samples"] = int(rng.integers(1, k + 5))
            k = min(k, kw["max_samples"])
        data = mon.call("resample_posteriors", lambda **q: lik.resample_posteriors(frames2, **q), **kw)
        keys = list(frames2[0].columns)
        mon.true("keys", set(data) == set(keys), f"{set(data)} instead of {set(keys)}")
        self.trace(mon, cat2, data, data.get("prior"), k, kinds2, keys)
        mon.true("reported samples per posterior", lik.samples_per_posterior == k, f"{lik.samples_per_posterior} instead of {k}")
