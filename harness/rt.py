"""Runtime binding: builds coordinax objects from specification literals, runs public API calls,
and projects results onto the specification's abstract state (exact rationals)."""
import importlib.util
import os
import sys
import types
import warnings

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
if not os.path.exists(os.path.join(REPO, "src", "coordinax", "_version.py")):
    m = types.ModuleType("coordinax._version")
    m.version = m.__version__ = "0+verif"
    m.version_tuple = m.__version_tuple__ = (0,)
    sys.modules["coordinax._version"] = m
warnings.filterwarnings("ignore", category=DeprecationWarning)
warnings.filterwarnings("ignore", category=FutureWarning)

import jax  # noqa: E402

jax.config.update("jax_enable_x64", True)
jax.config.update("jax_platforms", "cpu")
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
import astropy.units as apu  # noqa: E402
import quaxed.numpy as qnp  # noqa: E402
import unxt as u  # noqa: E402
import coordinax as cx  # noqa: E402
import coordinax.vecs as cxv  # noqa: E402
from coordinax._src.vectors.exceptions import IrreversibleDimensionChange  # noqa: E402

from snap import snap, snap_angle  # noqa: E402

assert os.path.realpath(cx.__file__).startswith(os.path.realpath(REPO)), cx.__file__


def klass(name):
    if hasattr(cxv, name):
        return getattr(cxv, name)
    return getattr(cx, name)


# component order and kinds of each class (the specification's Kinds)
POS = {
    "CartesianPos1D": [("x", "len")], "RadialPos": [("r", "len")],
    "CartesianPos2D": [("x", "len"), ("y", "len")], "PolarPos": [("r", "len"), ("phi", "ang")],
    "TwoSpherePos": [("theta", "ang"), ("phi", "ang")],
    "CartesianPos3D": [("x", "len"), ("y", "len"), ("z", "len")],
    "CylindricalPos": [("rho", "len"), ("phi", "ang"), ("z", "len")],
    "SphericalPos": [("r", "len"), ("theta", "ang"), ("phi", "ang")],
    "LonLatSphericalPos": [("lon", "ang"), ("lat", "ang"), ("distance", "len")],
    "MathSphericalPos": [("r", "len"), ("theta", "ang"), ("phi", "ang")],
    "ProlateSpheroidalPos": [("mu", "len2"), ("nu", "len2"), ("phi", "ang")],
}
VEL, ACC = {}, {}
for _p, _c in POS.items():
    VEL[_p.replace("Pos", "Vel")] = [("d_" + n, k + "/t") for n, k in _c]
    ACC[_p.replace("Pos", "Acc")] = [("d2_" + n, k + "/t2") for n, k in _c]
VEL["LonCosLatSphericalVel"] = [("d_lon_coslat", "ang/t"), ("d_lat", "ang/t"), ("d_distance", "len/t")]
COMPS = {**POS, **VEL, **ACC}
NDCLS = {"CartesianPosND": "q", "CartesianVelND": "d_q", "CartesianAccND": "d2_q"}


class Base:
    """Base units of a scenario: one lattice unit of each dimension."""

    def __init__(self, spec, mag=0, prec=64):
        spec = spec or {}
        self.len = apu.Unit(spec.get("len", "km"))
        self.time = apu.Unit(spec.get("time", "s"))
        self.mag = mag
        self.lscale = 10.0 ** mag
        self.prec = prec
        if prec == 64:
            self.tol, self.atol, self.dmax = spec.get("tol", 2e-10), 2e-10, spec.get("dmax", 20000)
        else:
            self.tol, self.atol, self.dmax = spec.get("tol32", 3e-5), 2e-5, 130

    def powers(self, unit):
        d = unit.decompose(bases=[apu.m, apu.s, apu.rad, apu.kg, apu.mag, apu.K, apu.A, apu.cd, apu.mol])
        p = {b.to_string(): float(q) for b, q in zip(d.bases, d.powers)}
        return p

    def base_of(self, unit):
        p = self.powers(unit)
        b = apu.dimensionless_unscaled
        if p.get("m"):
            b = b * self.len ** p["m"]
        if p.get("s"):
            b = b * self.time ** p["s"]
        if p.get("rad"):
            b = b * apu.rad ** p["rad"]
        return b, self.lscale ** p.get("m", 0.0)

    def kind_unit(self, kind):
        b = apu.dimensionless_unscaled
        k, _, t = kind.partition("/")
        if k == "len":
            b = self.len
        elif k == "len2":
            b = self.len ** 2
        elif k == "ang":
            b = apu.rad
        elif k == "one":
            pass
        elif k in ("time", "time2"):
            b = self.time if k == "time" else self.time ** 2
        else:
            raise ValueError(kind)
        if t == "t":
            b = b / self.time
        elif t == "t2":
            b = b / self.time ** 2
        n = {"len": 1, "len2": 2}.get(k, 0)
        return b, self.lscale ** n


def q_value(q, base):
    """value of a quantity in base units (float64 ndarray) and whether it is an angle"""
    unit = u.unit_of(q)
    if unit is None:
        return np.asarray(q, dtype=np.float64), False
    unit = apu.Unit(unit)
    b, sc = base.base_of(unit)
    f = unit.to(b)
    ang = base.powers(unit) == {"rad": 1.0}
    return np.asarray(q.value, dtype=np.float64) * f / sc, ang


def lit_values(vals, kind, base, unit=None):
    """spec literal values (list of rationals / angles) -> (float64 array, unit)"""
    b, sc = base.kind_unit(kind)
    tgt = apu.Unit(unit) if unit else b
    f = b.to(tgt)
    out = []
    for v in vals:
        if isinstance(v[0], list):              # angle [[c],[s],k], or an angle per time
            per = b / apu.rad
            x = np.arctan2(v[1][0] / v[1][1], v[0][0] / v[0][1])
            if x < 0:
                x += 2 * np.pi
            deg = None
            if v[0][0] == 0 or v[1][0] == 0:    # axis: exact degrees
                deg = {(1, 0): 0.0, (0, 1): 90.0, (-1, 0): 180.0, (0, -1): 270.0}[(v[0][0], v[1][0])]
            if deg is not None:
                out.append((deg + 360.0 * v[2]) * (1.0 if tgt == apu.deg * per else (apu.deg * per).to(tgt)))
            else:
                out.append((x + 2 * np.pi * v[2]) * (apu.rad * per).to(tgt))
        else:
            out.append(v[0] / v[1] * sc * f)
    return np.array(out, dtype=np.float64), tgt


def mkq(vals, kind, base, unit=None, shape=None, how="Quantity", dt=None):
    arr, tgt = lit_values(vals, kind, base, unit)
    arr = arr.reshape(shape if shape is not None else ())
    if dt == "int":
        arr = np.asarray(np.rint(arr), dtype=np.int64 if base.prec == 64 else np.int32)
    elif base.prec == 32:
        arr = arr.astype(np.float32)
    a = jnp.asarray(arr)
    unit = tgt.to_string()
    if how == "Angle":
        return cx.angle.Angle(a, unit)
    if how == "Distance":
        return cx.distance.Distance(a, unit)
    if how in ("Parallax", "parallax", "DistanceModulus", "modulus"):     # the same length, written differently
        x = np.asarray(arr, dtype=np.float64)
        if how in ("Parallax", "parallax"):
            x, unit, c = np.arctan2(1.0, x * tgt.to(apu.AU)), "rad", cx.distance.Parallax
        else:
            x, unit, c = 5 * np.log10(x * tgt.to(apu.pc)) - 5, "mag", cx.distance.DistanceModulus
        return (c if how[0].isupper() else u.Quantity)(jnp.asarray(x), unit)
    return u.Quantity(a, unit)


KIND_DEFAULT_UNIT = {}


def pick_unit(units, kind, i):
    """units: {"len":[...], "ang":[...], "time": ...}: unit for the i-th component of that kind"""
    if not units:
        return None
    k, _, t = kind.partition("/")
    if kind in units:
        v = units[kind]
        return v if isinstance(v, str) else v[i % len(v)]

    def g(key):
        v = units.get(key)
        if v is None:
            return None
        return v if isinstance(v, str) else v[i % len(v)]

    if not t:
        if k == "len2":
            return None if g("len") is None else apu.Unit(g("len")) ** 2
        return g(k)
    if t == "t" and g("spd") and k == "len":
        return g("spd")
    if t == "t" and g("angspd") and k == "ang":
        return g("angspd")
    l = g("len" if k != "ang" else "ang")
    tm = g("time")
    if l is None or tm is None:
        return None
    l = apu.Unit(l) ** (2 if k == "len2" else 1)
    return l / apu.Unit(tm) if t == "t" else l / apu.Unit(tm) ** 2


def run_mode(mode, f, *args):
    """call f on vectors in one of the ways JAX can evaluate a function"""
    if mode in (None, "eager"):
        return f(*args)
    if mode == "jit":
        return jax.jit(f)(*args)
    if mode == "eqxjit":
        import equinox as eqx
        return eqx.filter_jit(f)(*args)
    if mode == "closure":        # the arguments are constants of the compiled function
        return jax.jit(lambda: f(*args))()
    if mode == "twice":          # compiled for one batch, called with another
        g = jax.jit(f)
        g(*jax.tree.map(lambda x: jnp.roll(x, 1, axis=0) if jnp.ndim(x) else x, args))
        return g(*args)
    if mode == "remat":
        return jax.checkpoint(f)(*args)
    if mode == "jvp":
        return jax.jvp(f, args, jax.tree.map(_no_tangent, args))[0]
    if mode == "vjp":
        return jax.vjp(f, *args)[0]
    if mode == "cond":
        return jax.jit(lambda p, *a: jax.lax.cond(p, f, lambda *b: jax.tree.map(jnp.zeros_like, f(*b)), *a))(True, *args)
    ax = -1 if mode == "vlast" else 0
    if mode in ("vmap", "jitvmap", "vlast"):
        g = jax.vmap(f, in_axes=jax.tree.map(lambda x: ax if jnp.ndim(x) else None, args), out_axes=ax)
        return (jax.jit(g) if mode == "jitvmap" else g)(*args)
    # over the elements of the batch, one at a time
    leaves, tree = jax.tree.flatten(args)
    over = [i for i, x in enumerate(leaves) if jnp.ndim(x)]

    def one(xs):
        ls = list(leaves)
        for i, x in zip(over, xs, strict=True):
            ls[i] = x
        return f(*jax.tree.unflatten(tree, ls))

    xs = [leaves[i] for i in over]
    if mode == "lmap":
        return jax.lax.map(one, xs)
    if mode == "scan":
        return jax.lax.scan(lambda c, x: (c, one(x)), 0, xs)[1]
    if mode == "each":
        return jax.tree.map(lambda *r: jnp.stack(r), *[one([x[k] for x in xs]) for k in range(len(xs[0]))])
    raise ValueError(mode)


def _no_tangent(x):
    x = jnp.asarray(x)
    return jnp.zeros_like(x) if jnp.issubdtype(x.dtype, jnp.floating) else np.zeros(x.shape, jax.dtypes.float0)


def flat(x):
    return np.asarray(x, dtype=np.float64).reshape(-1)


# ---------------------------------------------------------------- building
def lit_vec(st, base):
    cls = st["cls"]
    shape = tuple(st["shape"])
    rows = st["comps"]
    un = st.get("u")
    if cls in NDCLS:
        n = st["n"]
        kind = {"CartesianPosND": "len", "CartesianVelND": "len/t", "CartesianAccND": "len/t2"}[cls]
        vals = [v for r in rows for v in r]
        return klass(cls)(mkq(vals, kind, base, pick_unit(un, kind, 0), shape + (n,), dt=st.get("dt")))
    kw = lit_kw(st, base)
    c = klass(cls)
    ctor = st.get("ctor")
    if ctor == "from_map":
        f = lambda k: c.from_(k)  # noqa: E731
    elif ctor == "from_kw":
        f = lambda k: c.from_(**k)  # noqa: E731
    else:
        f = lambda k: c(**k)  # noqa: E731
    return run_mode(st.get("mode"), f, kw)


def lit_kw(st, base):
    """the components of a literal, by name"""
    cls, shape, rows, un = st["cls"], tuple(st["shape"]), st["comps"], st.get("u")
    kw = {}
    bs = st.get("bshape")
    for i, (name, kind) in enumerate(COMPS[cls]):
        sh = tuple(bs[i]) if bs else shape
        if bs:
            # spec supplies full rows; the component must be constant along broadcast axes
            idx = np.arange(int(np.prod(shape, dtype=int))).reshape(shape)
            pad = (1,) * (len(shape) - len(sh)) + sh
            sel = idx[tuple(slice(0, 1) if d == 1 else slice(None) for d in pad)].reshape(sh)
            vals = [rows[j][i] for j in sel.reshape(-1)]
        else:
            vals = [r[i] for r in rows]
        how = (st.get("how") or {}).get(name, "Quantity")
        kw[name] = mkq(vals, kind, base, pick_unit(un, kind, i), sh, how=how, dt=st.get("dt"))
    if cls == "ProlateSpheroidalPos":
        kw["Delta"] = mkq([st["delta"]], "len", base, (un or {}).get("delta"))
    return kw


# ---------------------------------------------------------------- observing
def denote(cls, cv, delta):
    """abstraction function: component arrays (base units) -> Cartesian coordinates, numpy only"""
    with np.errstate(all="ignore"):
        return _denote(cls, cv, delta)


def _denote(cls, cv, delta):
    if cls in ("CartesianPos1D", "RadialPos", "CartesianPos2D", "CartesianPos3D"):
        return cv
    if cls == "PolarPos":
        r, f = cv
        return [r * np.cos(f), r * np.sin(f)]
    if cls == "CylindricalPos":
        r, f, z = cv
        return [r * np.cos(f), r * np.sin(f), z]
    if cls == "SphericalPos":
        r, t, f = cv
    elif cls == "MathSphericalPos":
        r, f, t = cv
    elif cls == "LonLatSphericalPos":
        f, lat, r = cv
        return [r * np.cos(lat) * np.cos(f), r * np.cos(lat) * np.sin(f), r * np.sin(lat)]
    elif cls == "TwoSpherePos":
        t, f = cv
        r = np.ones_like(t)
    elif cls == "ProlateSpheroidalPos":
        mu, nu, f = cv
        d2 = delta ** 2
        R2 = (mu - d2) * (1 - np.abs(nu) / d2)
        R = np.sqrt(np.where(np.abs(R2) < 1e-12 * d2, 0.0, R2))
        z = np.sqrt(mu * np.abs(nu) / d2) * np.sign(nu)
        return [R * np.cos(f), R * np.sin(f), z]
    else:
        raise KeyError(cls)
    return [r * np.sin(t) * np.cos(f), r * np.sin(t) * np.sin(f), r * np.cos(t)]


def snaps(arr, base, scale=None):
    a = flat(arr)
    if scale is None:
        scale = np.maximum(1.0, np.abs(a))
    else:
        scale = np.maximum(1e-300, np.broadcast_to(scale, a.shape))
    return [snap(float(x), base.tol * float(np.max([1.0, s]) if np.isfinite(s) else 1.0), base.dmax)
            for x, s in zip(a, scale)]


def snaps_ang(arr, base):
    return [snap_angle(float(x), base.atol, base.dmax) for x in flat(arr)]


def as_length(q):
    """a radius kept as a parallax or a distance modulus"""
    if isinstance(q, cx.distance.Parallax):
        return u.Quantity(1.0 / np.tan(np.asarray(q.value) * apu.Unit(q.unit).to(apu.rad)), "AU")
    if isinstance(q, cx.distance.DistanceModulus):
        return u.Quantity(10 ** (np.asarray(q.value) / 5 + 1), "pc")
    return q


def obs_vec(v, base, cls=None):
    cls = cls or type(v).__name__
    out = {"ok": 1, "cls": cls}
    if cls in NDCLS:
        q, _ = q_value(getattr(v, NDCLS[cls]), base)
        out["k"] = {"P": "pos", "V": "vel", "A": "acc"}[cls[9]]
        out["shape"] = list(v.shape)
        n = q.shape[-1] if q.ndim else 0
        rows = q.reshape(-1, n)
        out["n"] = n
        out["comps"] = [snaps(r, base, np.max(np.abs(r), initial=1.0)) for r in rows]
        out["den"] = out["comps"]
        out["dt"] = str(np.dtype(getattr(v, NDCLS[cls]).dtype))
        return out
    spec = COMPS[cls]
    kind = "pos" if cls in POS else "vel" if cls in VEL else "acc"
    out["k"] = kind
    vals, angs, shapes = [], [], []
    dims_ok = 1
    for name, kd in spec:
        comp = as_length(getattr(v, name)) if kd == "len" else getattr(v, name)
        x, ang = q_value(comp, base)
        want = base.powers(base.kind_unit(kd)[0])
        have = base.powers(apu.Unit(u.unit_of(comp)))
        dims_ok &= int(want == have)
        vals.append(x)
        angs.append(ang and kind == "pos")
        shapes.append(list(np.shape(comp.value)))
    out["shape"] = list(v.shape)
    out["shapes"] = shapes
    out["dims"] = dims_ok
    out["dts"] = sorted({str(np.dtype(getattr(v, n).dtype)) for n, _ in spec})
    try:
        b = np.broadcast_arrays(*vals)
    except ValueError:
        out["comps"], out["den"] = [], []
        return out
    n = b[0].size
    cols = []
    for x, a in zip(b, angs):
        cols.append(snaps_ang(x, base) if a else snaps(x, base))
    out["comps"] = [[c[i] for c in cols] for i in range(n)]
    if kind == "pos":
        delta = 0.0
        if cls == "ProlateSpheroidalPos":
            delta, _ = q_value(v.Delta, base)
            out["delta"] = snaps(delta, base)
            delta = flat(np.broadcast_to(delta, b[0].shape))
        d = np.stack([flat(x) for x in denote(cls, [flat(x) for x in b], delta)], axis=-1)
        with np.errstate(all="ignore"):
            sc = np.sqrt(np.nansum(d * d, axis=-1))
        out["den"] = [snaps(d[i], base, sc[i]) for i in range(n)]
    return out


def obs_q(q, base):
    """plain quantity or array"""
    if isinstance(q, cxv.AbstractVector):      # never let numpy iterate over a vector
        return {"ok": 1, "k": "other", "cls": type(q).__name__}
    unit = u.unit_of(q)
    val = q.value if unit is not None else q
    a = np.asarray(val)
    out = {"ok": 1, "cls": type(q).__name__, "shape": list(a.shape)}
    if a.dtype == bool:
        out["k"] = "bool"
        out["val"] = [int(x) for x in a.reshape(-1)]
        return out
    out["k"] = "q"
    if unit is not None:
        p = base.powers(apu.Unit(unit))
        out["dim"] = [int(p.get("m", 0)), int(p.get("s", 0)), int(p.get("rad", 0))]
    else:
        out["dim"] = [0, 0, 0]
    x, ang = q_value(q, base)
    out["val"] = snaps(x, base)
    if ang:
        out["ang"] = snaps_ang(x, base)
    return out


def is_vec(x):
    return type(x).__name__ in COMPS or type(x).__name__ in NDCLS
