"""Shared by the checks."""
import numpy as np

from .. import ref, specs
from ..core import Check, KnownFinding, Violation  # noqa: F401
from ..specs import edgy, pick, to_backend  # noqa: F401


def use_backend(check, b):
    check.gw.set_backend(b)
    specs.ACTIVE["backend"] = b


def choose_backend(check, rng, p_jax=0.25):
    b = "jax" if rng.random() < p_jax else "numpy"
    use_backend(check, b)
    check.mon.note(f"backend {b}")
    return b


def decide_density(mon, label, case, data, p, got, slack=3.0, atol=1e-290):
    """One observed model evaluation against its reference density."""
    want, budget = case.ref(data, p)
    got = np.asarray(got, float)
    skip = np.isnan(want)
    if hasattr(case, "avoid"):
        skip |= case.avoid(data, p)
    # a grid that does not resolve the window at all decides nothing
    with np.errstate(all="ignore"):
        skip |= (want > 0) & (budget > 0.2 * want)
    if got.shape != want.shape:
        raise Violation(label, f"shape {got.shape}, expected {want.shape}", case.describe())
    finite = np.isfinite(got) & (got >= 0)
    if not np.all(finite | np.isnan(want)):
        k = np.argmin(finite | np.isnan(want))
        raise Violation(
            label + " finite non-negative",
            f"density {got.ravel()[k]} at {({c: float(v.ravel()[k]) for c, v in data.items()})}",
            dict(case=case.describe(), parameters=p),
        )
    mon.close(
        label, np.where(skip, 0, got), np.where(skip, 0, want),
        rtol=case.rtol(data, p) + specs.jax_tol(), atol=slack * np.where(skip, 0, budget) + atol,
        case=case.describe(), parameters=p,
    )
    mon.note("values at zero density", int(np.sum(want == 0)))
    mon.note("values at positive density", int(np.sum((want > 0) & ~skip)))
    return want


class ModelCheck(Check):
    """Checks that compare models with their reference densities."""

    p_jax = 0.25
    label = "density equals reference"

    def drive(self, rng, mon, case, n=160, evaluations=3, label=None):
        label = label or self.label
        choose_backend(self, rng, self.p_jax)
        model = case.build(self.gw)
        p = case.params(rng)
        data = case.data(rng, n, p)
        for k in range(evaluations):
            bdata = to_backend(self.gw, data)
            got = mon.call(case.name, lambda d, q: case.call(model, d, q), bdata, p)
            decide_density(mon, label, case, data, p, got)
            p = case.params(rng)
            if not case.uses_cache:
                data = case.data(rng, n, p)
        return model
