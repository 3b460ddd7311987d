"""
Scratch plug-in packages: real modules and real entry points (a dist-info directory on
sys.path), created in a temporary directory and removed again.
"""
import importlib
import os
import shutil
import sys
import tempfile

_count = [0]

OWN_XP = [
    "gwpopulation.hyperpe", "gwpopulation.models.interped", "gwpopulation.models.mass", "gwpopulation.models.redshift",
    "gwpopulation.models.spin", "gwpopulation.utils", "gwpopulation.vt", "gwpopulation.experimental.cosmo_models",
]
OWN_SCS = ["gwpopulation.models.mass", "gwpopulation.utils"]

ARRAY = {"numpy": "numpy", "jax": "jax.numpy"}
SPECIAL = {"numpy": "scipy.special", "jax": "jax.scipy.special"}

# requested object -> where it lives for each backend
OTHERS = {
    "scipy.linalg.toeplitz": ("scipy.linalg.toeplitz", "jax.scipy.linalg.toeplitz"),
    "scipy.linalg.cho_solve": ("scipy.linalg.cho_solve", "jax.scipy.linalg.cho_solve"),
    "scipy.special.logsumexp": ("scipy.special.logsumexp", "jax.scipy.special.logsumexp"),
    "scipy.special.erf": ("scipy.special.erf", "jax.scipy.special.erf"),
    "scipy.signal.convolve": ("scipy.signal.convolve", "jax.scipy.signal.convolve"),
    "scipy.stats.norm": ("scipy.stats.norm", "jax.scipy.stats.norm"),
    "scipy.fft.dct": ("scipy.fft.dct", "jax.scipy.fft.dct"),
    "numpy.interp": ("numpy.interp", "jax.numpy.interp"),
    "numpy.fft.rfft": ("numpy.fft.rfft", "jax.numpy.fft.rfft"),
    "numpy.linalg.inv": ("numpy.linalg.inv", "jax.numpy.linalg.inv"),
    "math.hypot": ("math.hypot", "math.hypot"),
}
# objects which scipy has and jax.scipy lacks: (attribute missing, module missing)
ONLY_SCIPY = ["scipy.signal.savgol_filter", "scipy.linalg.pinvh", "scipy.interpolate.CubicSpline", "scipy.ndimage.gaussian_filter"]


def resolve(path):
    module, _, name = path.rpartition(".")
    try:
        return getattr(importlib.import_module(module), name)
    except ModuleNotFoundError:
        outer, _, inner = module.rpartition(".")
        return getattr(getattr(importlib.import_module(outer), inner), name)


class Plugins:
    """A set of plug-in distributions; use as a context manager."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="gwv-plugins-")
        self.paths = []
        self.modules = []
        self.entries = dict(xp=[], scs=[], other=[])  # module names / (module, function)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for p in self.paths:
            while p in sys.path:
                sys.path.remove(p)
        for name in list(sys.modules):
            if name.split(".")[0] in self.modules:
                del sys.modules[name]
        shutil.rmtree(self.root, ignore_errors=True)
        importlib.invalidate_caches()

    def module(self, body="", package=None, path=None):
        """A new module; returns (import name, file, directory on the path)."""
        _count[0] += 1
        name = f"gwvplug{os.getpid()}x{_count[0]}"
        if path is None:
            path = os.path.join(self.root, f"d{_count[0]}")
            os.makedirs(path)
            self.paths.append(path)
        self.modules.append(name)
        if package:
            os.makedirs(os.path.join(path, name))
            open(os.path.join(path, name, "__init__.py"), "w").close()
            file = os.path.join(path, name, "sub.py")
            full = f"{name}.sub"
        else:
            file = os.path.join(path, f"{name}.py")
            full = name
        if body is not None:
            with open(file, "w") as f:
                f.write(body)
        return full, file, path

    def dist(self, path, groups, name):
        d = os.path.join(path, f"{name}-1.0.dist-info")
        os.makedirs(d)
        with open(os.path.join(d, "METADATA"), "w") as f:
            f.write(f"Metadata-Version: 2.1\nName: {name}\nVersion: 1.0\n")
        with open(os.path.join(d, "entry_points.txt"), "w") as f:
            for group, entries in groups.items():
                f.write(f"[gwpopulation.{group}]\n")
                for k, v in entries:
                    f.write(f"{k} = {v}\n")
                f.write("\n")

    def activate(self, where="end"):
        for p in self.paths:
            if p not in sys.path:
                if where == "end":
                    sys.path.append(p)
                else:
                    sys.path.insert(0, p)
        importlib.invalidate_caches()


def healthy(plugins, rng, n=None):
    """Random healthy plug-ins."""
    n = int(rng.integers(1, 4)) if n is None else n
    for k in range(n):
        body = "import numpy as xp\nfrom scipy import special as scs\n" if rng.random() < 0.5 else ""
        if rng.random() < 0.3:
            body += "def area(r):\n    return xp.pi * xp.asarray(r) ** 2\n"
        full, file, path = plugins.module(body, package=rng.random() < 0.4)
        groups = {}
        tag = f"{'azm'[int(rng.integers(3))]}{k}"
        if rng.random() < 0.8:
            groups["xp"] = [(f"{tag}_xp", full)]
            plugins.entries["xp"].append(full)
        if rng.random() < 0.6:
            groups["scs"] = [(f"{tag}_scs", full)]
            plugins.entries["scs"].append(full)
        if rng.random() < 0.7 or not groups:
            names = list(OTHERS)
            funcs = [names[int(i)] for i in rng.permutation(len(names))[: int(rng.integers(1, 5))]]
            groups["other"] = [(f"{tag}_o{j}", f"{full}:{f}") for j, f in enumerate(funcs)]
            plugins.entries["other"] += [(full, f) for f in funcs]
        plugins.dist(path, groups, f"{plugins.modules[-1]}")


def expected(plugins, backend):
    """[(module, attribute, object)] that a completed switch must have produced."""
    from importlib.metadata import entry_points

    xp_mod = importlib.import_module(ARRAY[backend])
    scs_mod = importlib.import_module(SPECIAL[backend])
    xps, scss = set(OWN_XP), set(OWN_SCS)
    # whatever else is installed in this environment
    xps |= {e.value for e in entry_points(group="gwpopulation.xp")}
    scss |= {e.value for e in entry_points(group="gwpopulation.scs")}
    out = []
    xps |= set(plugins.entries["xp"])
    scss |= set(plugins.entries["scs"])
    out += [(m, "xp", xp_mod) for m in sorted(xps)]
    out += [(m, "scs", scs_mod) for m in sorted(scss)]
    col = 0 if backend == "numpy" else 1
    out += [(m, f.split(".")[-1], resolve(OTHERS[f][col])) for m, f in plugins.entries["other"]]
    return out


def expected_own(plugins, backend):
    """As expected, for the modules that can be imported without the plug-ins, plus the attributes of all plug-ins."""
    xp_mod = importlib.import_module(ARRAY[backend])
    scs_mod = importlib.import_module(SPECIAL[backend])
    out = [(m, "xp", xp_mod) for m in OWN_XP] + [(m, "scs", scs_mod) for m in OWN_SCS]
    out += [(m, "xp", None) for m in plugins.entries["xp"]] + [(m, "scs", None) for m in plugins.entries["scs"]]
    out += [(m, f.split(".")[-1], None) for m, f in plugins.entries["other"]]
    return out
