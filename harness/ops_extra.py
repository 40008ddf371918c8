"""Further operations of the executor (see execute.py)."""
import copy
import dataclasses
import operator
import pickle
import re
import sys

import dataclassish
import rt
from plum import convert
from quaxed import lax as qlax
from coordinax._src.vectors.base import ToUnitsOptions

ex = sys.modules["execute"]
from rt import (Base, apu, cx, cxv, jax, jnp, klass, lit_vec, lit_values, mkq, np, obs_q, obs_vec, qnp, run_mode,  # noqa: E402
                u, is_vec)

op = ex.op


def number(spec, how):
    """a scalar factor [n, d] as int / float / numpy / jax number"""
    n, d = spec
    if how == "int":
        assert d == 1
        return n
    x = n / d
    return {"float": float, "np": np.float64, "jnp": jnp.asarray}[how or "float"](x)


@op
def arith(ctx, st):
    f = st["f"]
    args = [ctx.reg[x] for x in st["a"]]
    fn = st.get("form") == "func"
    if f in ("add", "sub"):
        g = {"add": qnp.add if fn else operator.add, "sub": qnp.subtract if fn else operator.sub}[f]
    elif f == "neg":
        g = qnp.negative if fn else operator.neg
    elif f == "pos":
        g = operator.pos
    elif f in ("mul", "div") and "ss" in st:    # a factor for each element
        args.append(jnp.asarray([n / d for n, d in st["ss"]]).reshape(st["sshape"]))
        g = operator.truediv if f == "div" else operator.mul if st.get("side") == "R" else (lambda v, s: s * v)
    elif f in ("mul", "div"):
        s = number(st["s"], st.get("num"))
        if f == "div":
            g = (lambda v: qnp.divide(v, s)) if fn else (lambda v: v / s)
        elif st.get("side") == "R":
            g = (lambda v: qnp.multiply(v, s)) if fn else (lambda v: v * s)
        else:
            g = (lambda v: qnp.multiply(s, v)) if fn else (lambda v: s * v)
    elif f == "prod":
        g = qnp.multiply if fn else operator.mul
    elif f == "norm2":
        g = lambda v: v._norm2()  # noqa: E731
    elif f in ("norm", "abs"):
        h = abs if f == "abs" else lambda v: v.norm()
        # the norm of an event is complex
        g = (lambda v: (lambda r: (qnp.real(r), qnp.imag(r)))(h(v))) if isinstance(args[0], cx.FourVector) else h
    return run_mode(st.get("mode"), g, *args)


def py_index(items):
    out = []
    for it in items:
        t, v = it["t"], it.get("v")
        if t == "i":
            out.append(v)
        elif t == "s":
            out.append(slice(*[None if x == 99 else x for x in v]))
        elif t == "a":
            out.append(np.array(v, dtype=int).reshape(it["sh"]))
        elif t == "m":
            out.append(np.array(v, dtype=bool))
        elif t == "n":
            out.append(None)
        elif t == "e":
            out.append(Ellipsis)
    return out[0] if len(out) == 1 else tuple(out)


@op
def arr(ctx, st):
    f = st["f"]
    v = ctx.reg[st["a"][0]]
    how = st.get("how")
    if f == "index":
        i = py_index(st["idx"])
        if how == "tuple" and not isinstance(i, tuple):
            i = (i,)
        g = lambda x: x[i]  # noqa: E731
    elif f == "iter":
        g = lambda x: list(x)[st["n"]]  # noqa: E731
    elif f == "reshape":
        sh, kw = tuple(st["shape"]), ({"order": "F"} if st.get("order") == "F" else {})
        g = (lambda x: x.reshape(sh, **kw)) if how == "tuple" else (lambda x: x.reshape(*sh, **kw))
    elif f == "bc":
        k = len(v.represent_as(v._cartesian_cls).components)
        g = lambda x: qnp.broadcast_to(x, (*st["shape"], k))  # noqa: E731
    elif f in ("T", "mT"):
        g = lambda x: getattr(x, f)  # noqa: E731
    else:
        g = lambda x: getattr(x, f)()  # noqa: E731
    return run_mode(st.get("mode"), g, v)


@op
def meta(ctx, st):
    v = ctx.reg[st["a"][0]]
    return {"ok": 1, "k": "ints", "val": [int(v.ndim), int(v.size), len(v), *map(int, v.shape)]}


@op
def eq(ctx, st):
    x, y = (ctx.reg[a] for a in st["a"])
    ne = st["f"] == "ne"
    if st.get("form") == "func":
        g = (lambda a, b: qnp.not_equal(a, b)) if ne else (lambda a, b: qnp.equal(a, b))
    else:
        g = operator.ne if ne else operator.eq
    r = run_mode(st.get("mode"), g, x, y)
    a = np.asarray(r.value if hasattr(r, "value") else r)
    return {"ok": 1, "k": "bool" if a.dtype == bool else "other", "shape": list(a.shape), "val": [int(b) for b in a.reshape(-1)]}


def comp_names(v):
    n = type(v).__name__
    return [rt.NDCLS[n]] if n in rt.NDCLS else [c for c, _ in rt.COMPS[n]]


def comps_of(v):
    if isinstance(v, cx.FourVector):
        return [v.t, *comps_of(v.q)]
    if isinstance(v, cx.Space):
        return [c for k in SPK if k in v.keys() for c in comps_of(v[k])]
    return [getattr(v, n) for n in comp_names(v)]


@op
def uconv(ctx, st):
    v = ctx.reg[st["a"][0]]
    how = st["how"]
    if how == "usys":
        arg = u.unitsystem(st["sys"])
    elif how == "map":
        arg = dict(st["map"])
    elif how == "mapdim":
        arg = {u.dimension(k): u.unit(x) for k, x in st["map"].items()}
    else:
        arg = ToUnitsOptions.consistent
    g = (lambda x: u.uconvert(arg, x)) if st.get("form") == "func" else (lambda x: x.uconvert(arg))
    r = run_mode(st.get("mode"), g, v)
    o = ex.observe(ctx, r)
    have, was = ([apu.Unit(u.unit_of(c)) for c in comps_of(x)] for x in (r, v))
    want = [was[int(w[1:]) - 1] if w.startswith("=") else apu.Unit(w) for w in st["want"]]
    o["uok"] = [int(h == w) for h, w in zip(have, want, strict=True)]
    ctx.reg[st["d"]] = r
    return o


@op
def vtime(ctx, st):
    v, t = (ctx.reg[a] for a in st["a"])
    g = {"op": lambda a, b: a * b, "lax": lambda a, b: qlax.mul(a, b), "laxr": lambda a, b: qlax.mul(b, a)}[st.get("form", "op")]
    return run_mode(st.get("mode"), g, v, t)


@op
def ctor(ctx, st):
    cls, how = st["cls"], st["form"]
    c = klass(cls)
    if how == "into":
        v = lit_vec({**st, "ctor": None}, ctx.base)
        return run_mode(st.get("mode"), lambda x: klass(st["to"]).from_(x), v)
    if how in ("apmap", "apkw"):          # the components as astropy quantities
        kw = {k: x if k == "Delta" else apu.Quantity(np.asarray(x.value), apu.Unit(x.unit)) for k, x in rt.lit_kw(st, ctx.base).items()}
        return c.from_(kw) if how == "apmap" else c(**kw)
    if how in ("map", "proxy", "kw", "fromkw", "vec", "items"):
        v = lit_vec({**st, "ctor": None}, ctx.base) if how == "vec" else None
        kw = {} if how == "vec" else rt.lit_kw(st, ctx.base)
        order = list(kw)[::-1] if st.get("rev") else list(kw)
        kw = {k: kw[k] for k in order}
        if "spoil" in st:                # a component of another dimension, or without any
            k = list(c.components)[(st["spoil"] - 1) % len(c.components)]
            kw[k] = {"time": lambda x: x * u.Quantity(2.0, "s"), "mass": lambda x: u.Quantity(1.0, "kg") / x,
                     "plain": lambda x: x.value}[st["with"]](u.Quantity(kw[k].value, kw[k].unit))
        if how == "map":
            g = lambda k: c.from_(k)  # noqa: E731
        elif how == "proxy":
            import types
            g = lambda k: c.from_(types.MappingProxyType(k))  # noqa: E731
        elif how == "kw":
            g = lambda k: c(**k)  # noqa: E731
        elif how == "items":
            g = lambda k: c(*k.values())  # noqa: E731
        else:
            return run_mode(st.get("mode"), lambda x: c.from_(x), v)
        return run_mode(st.get("mode"), g, kw)
    kind = st["kind"]
    n = len(st["comps"][0])
    arr, tgt = lit_values([x for r in st["comps"] for x in r], kind, ctx.base, st.get("unit"))
    shape = (*st["shape"], n)
    arr = arr.reshape(shape)
    if ctx.base.prec == 32:
        arr = arr.astype(np.float32)
    unit = tgt.to_string() if st.get("unit_as") != "unit" else tgt
    if how == "q":
        return run_mode(st.get("mode"), lambda x: c.from_(x), u.Quantity(jnp.asarray(arr), unit))
    if how == "apq":
        return c.from_(apu.Quantity(arr, unit))
    if how == "list":
        return c.from_(arr.tolist(), unit)
    if how == "np":
        return c.from_(arr, unit)
    if how == "jnp":
        return run_mode(st.get("mode"), lambda x: c.from_(x, unit), jnp.asarray(arr))
    raise ValueError(how)


# ---------------------------------------------------------------- vectors and quantities
QCLS = {"Quantity": u.Quantity, "UncheckedQuantity": u.quantity.UncheckedQuantity,
        "AbstractQuantity": u.quantity.AbstractQuantity, "Distance": cx.distance.Distance}


@op
def toq(ctx, st):
    c = QCLS[st["to"]]
    q = run_mode(st.get("mode"), lambda x: convert(x, c), ctx.reg[st["a"][0]])
    o = obs_q(q, ctx.base)
    o["qc"] = type(q).__name__.split("[")[0]
    if "d" in st:
        ctx.reg[st["d"]] = q
    return o


@op
def qfrom(ctx, st):
    return run_mode(st.get("mode"), klass(st["cls"]).from_, ctx.reg[st["a"][0]])


@op
def unitdir(ctx, st):
    q = ctx.reg[st["a"][0]]
    if st.get("form") == "pos":          # three components of a generic vector
        def g(p):
            w = cxv.normalize_vector(p)
            assert type(w) is cxv.CartesianGeneric3D
            return qnp.stack([w.x, w.y, w.z], axis=-1)
        return run_mode(st.get("mode"), g, q)
    return run_mode(st.get("mode"), cxv.normalize_vector, q.value if st.get("form") == "array" else q)


@op
def gen3(ctx, st):
    def g(q):
        v = cxv.CartesianGeneric3D.from_(q)
        f = st["f"]
        v = -v if f == "neg" else v.ravel() if f == "ravel" else v[-1] if f == "last" else v
        return qnp.stack([v.x, v.y, v.z], axis=-1)
    return run_mode(st.get("mode"), g, ctx.reg[st["a"][0]])


# ---------------------------------------------------------------- derivatives
def _along(vec, vel, tunit):
    """the components of vel as a tangent of vec (same tree, values of d component / d t)"""
    tan = jax.tree.map(jnp.zeros_like, vec)
    names = [f.name for f in dataclasses.fields(vec)]
    leaves, tree = jax.tree.flatten(tan)
    assert len(leaves) == len(names)
    for i, n in enumerate(names):
        if n in vec.components:
            w = getattr(vel, "d_" + n)
            un = apu.Unit(str(u.unit_of(getattr(vec, n)))) / tunit
            leaves[i] = jnp.broadcast_to(jnp.asarray(u.uconvert(un, w).value, dtype=leaves[i].dtype), leaves[i].shape)
    return jax.tree.unflatten(tree, leaves)


def _pushed(f, how):
    """(x, t) -> F(x), DF(x) t"""
    if how == "jvp":
        return lambda x, t: jax.jvp(f, (x,), (t,))
    if how == "lin":
        return lambda x, t: (lambda yl: (yl[0], yl[1](t)))(jax.linearize(f, x))
    if how == "vjp":                 # twice transposed: reverse mode only
        def g(x, t):
            y, back = jax.vjp(f, x)
            _, fwd = jax.vjp(lambda c: back(c)[0], jax.tree.map(jnp.zeros_like, y))
            return y, fwd(t)[0]
        return g
    raise ValueError(how)


@op
def deriv(ctx, st):
    x, v, *r = (ctx.reg[k] for k in st["a"])
    tunit = ctx.base.time
    kw = ex.kwargs_of(st, ctx)
    fn = st["f"]
    if fn == "rep":
        f = lambda p: p.represent_as(klass(st["cls"]), **kw)  # noqa: E731
    elif fn == "neg":
        f = lambda p: -p  # noqa: E731
    elif fn == "scale":
        s = fnum(st["s"])
        f = lambda p: s * p  # noqa: E731
    elif fn in ("add", "sub"):
        f = operator.add if fn == "add" else operator.sub
    elif fn == "apply":
        f = lambda p: r[0](p)  # noqa: E731
    elif fn == "dtime":              # along the time, the position stays
        x0, x, v = x, v, None
        f = lambda t, p: r[0](p, t)[0]  # noqa: E731
    elif fn == "norm":
        f = lambda p: p.norm()  # noqa: E731
    elif fn == "toq":
        f = lambda p: convert(p, u.Quantity)  # noqa: E731
    b = r if fn in ("add", "sub") else [x0] if fn == "dtime" else []
    g = lambda p, dp, *o: _pushed(lambda q: f(q, *o), st["how"])(p, dp)  # noqa: E731
    t = jax.tree.map(lambda z: jnp.full_like(z, (1 * tunit).to_value(str(u.unit_of(x)))), x) if fn == "dtime" else _along(x, v, tunit)
    if st.get("mode") == "jit":
        g = jax.jit(g)
    elif st.get("mode") == "vmap":
        ax = lambda q: jax.tree.map(lambda a: 0 if jnp.ndim(a) else None, q)  # noqa: E731
        g = jax.vmap(g, in_axes=(ax(x), ax(x), *map(ax, b)))
    y, dy = g(x, t, *b)
    if not is_vec(y):
        return u.Quantity(dy.value, apu.Unit(str(u.unit_of(y))) / tunit)
    V = klass(type(y).__name__.replace("Pos", "Vel"))
    return V(**{"d_" + n: u.Quantity(getattr(dy, n).value, apu.Unit(str(u.unit_of(getattr(y, n)))) / tunit) for n in y.components})


@op
def desc(ctx, st):
    v = ctx.reg[st["a"][0]]
    d = v.asdict()
    # the printed form: class, names with units, numbers to three digits
    txt = str(v)
    head, _, body = txt.partition("\n")
    m = re.match(r"^<(\w+) \((.*)\)$", head)
    pairs = re.findall(r"(\w+)\[([^\]]*)\](?:, |$)", m[2]) if m else []
    nums = np.array([float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?", body)])
    want = np.stack(np.broadcast_arrays(*[np.asarray(getattr(v, k).value) for k in v.components]), axis=-1).ravel()
    big = max(1.0, float(np.abs(want).max(initial=0)))
    printed = int(nums.shape == want.shape and bool(np.all(np.abs(nums - want) <= np.maximum(6e-4, 1e-3 * np.abs(want)))) or bool(np.any(np.abs(want) > 1e8)) or big > 1e8)
    return {"ok": 1, "k": "desc", "pcls": m[1] if m else "", "pnames": [a for a, _ in pairs], "printed": printed,
            "punits": int(all(b == str(u.unit_of(getattr(v, a))) for a, b in pairs)), "names": list(v.components), "akeys": list(d), "ukeys": list(v.units), "skeys": list(v.shapes),
            "zkeys": list(v.sizes), "dkeys": list(v.dtypes), "shapes": [list(x) for x in v.shapes.values()], "sizes": [int(x) for x in v.sizes.values()],
            "same": int(all(d[k] is getattr(v, k) for k in d) and all(v.units[k] == u.unit_of(getattr(v, k)) and v.dtypes[k] == getattr(v, k).dtype
                        and tuple(v.shapes[k]) == getattr(v, k).shape for k in v.components) and len(set(map(str, v.devices.values()))) == 1)}


# ---------------------------------------------------------------- operators
import coordinax.ops as cxo  # noqa: E402
from jax.scipy.spatial.transform import Rotation as JRot  # noqa: E402


def unpack(vs):
    out = []
    for v in vs:
        out.extend(v) if isinstance(v, tuple) else out.append(v)
    return out


def fnum(r):
    return r[0] / r[1]


AX = {"x": 0, "y": 1, "z": 2}


def mk_rot(ctx, st):
    form = st["form"]
    C = cxo.GalileanRotation
    dt = np.float64 if ctx.base.prec == 64 else np.float32
    if form == "euler":
        seq = "".join(st["axes"])
        seq = seq.upper() if st.get("intrinsic") else seq
        vals, unit = lit_values(st["angs"], "ang", ctx.base, st.get("u") or "rad")
        vals = vals.astype(dt)
        vals = vals[0] if len(seq) == 1 else vals
        q = cx.angle.Angle(jnp.asarray(vals), unit.to_string()) if st.get("angle") else u.Quantity(jnp.asarray(vals), unit.to_string())
        return C.from_euler(seq, q)
    M = np.array([[fnum(x) for x in r] for r in st["M"]], dtype=dt)
    if form == "np":
        return C(M)
    if form == "q":
        return C(u.Quantity(jnp.asarray(M), ""))
    if form == "scipy":
        return C.from_(JRot.from_matrix(jnp.asarray(M)))
    if form == "copy":
        return C.from_(C(jnp.asarray(M)))
    if form == "map":
        return C.from_({"rotation": jnp.asarray(M)})
    return C(jnp.asarray(M))


def mk_shift(ctx, st):
    """translations and boosts"""
    C = {"st": cxo.GalileanSpatialTranslation, "gt": cxo.GalileanTranslation, "boost": cxo.GalileanBoost,
         "vb": cxo.VelocityBoost}[st["t"]]
    field = {"st": "translation", "gt": "translation", "boost": "velocity", "vb": "velocity"}[st["t"]]
    form = st["form"]
    if form in ("reg", "regfrom", "regmap"):
        x = ctx.reg[st["a"][0]]
        return C(x) if form == "reg" else C.from_(x) if form == "regfrom" else C.from_({field: x})
    kind = "len" if st["t"] in ("st", "gt") else "len/t"
    q = mkq(st["vals"], kind, ctx.base, st.get("u"), (len(st["vals"]),))
    if form == "q":
        return C(q)
    if form == "qfrom":
        return C.from_(q)
    if form == "arr":
        return C.from_(q.value, str(q.unit))
    if form == "list":
        return C.from_(np.asarray(q.value).tolist(), str(q.unit))
    raise ValueError(form)


@op
def mkop(ctx, st):
    t = st["t"]
    a = [ctx.reg[x] for x in st.get("a", ())]
    if t == "rot":
        return mk_rot(ctx, st)
    if t in ("st", "gt", "boost", "vb"):
        return mk_shift(ctx, st)
    if t == "id":
        return cxo.Identity()
    if t == "gal":
        kw = dict(zip(st["parts"], a, strict=True))
        if st.get("form") == "raw":      # the parts' own parameters
            kw = {k: getattr(v, k) for k, v in kw.items()}
        return cxo.GalileanOperator.from_(kw) if st.get("form") == "map" else cxo.GalileanOperator(**kw)
    if t == "pipe":
        return cxo.Pipe(list(a) if st.get("form") == "list" else a[0] if st.get("form") == "one" else tuple(a))
    if t == "or":
        return a[0] | a[1]
    if t == "item":
        return list(a[0])[st["i"]] if st.get("form") == "iter" else a[0][st["i"]]
    if t == "slice":
        return a[0][slice(*[None if x == 99 else x for x in st["i"]])]
    if t == "inv":
        return a[0].inverse
    if t == "neg":
        return -a[0]
    if t == "matmul":
        return a[0] @ a[1]
    if t == "simp":
        kw = {"atol": fnum(st["atol"]), "rtol": 0.0} if "atol" in st else {}
        return cxo.simplify_op(a[0], **kw) if kw or st.get("form") == "func" else a[0].simplify()
    if t == "frame":
        return cxf.frame_transform_op(*a) if st.get("form") == "func" else a[0].transform_op(a[1])
    if t == "simp2":
        return cxo.simplify_op(a[0], a[1])
    raise ValueError(t)


@op
def apply(ctx, st):
    o, *args = (ctx.reg[x] for x in st["a"])
    args = unpack(args)
    if st.get("mode") == "eqxjit":
        return run_mode("eqxjit", lambda f, *x: f(*x), o, *args)
    return run_mode(st.get("mode"), lambda *x: o(*x), *args)


@op
def litfv(ctx, st):
    t, q = (ctx.reg[x] for x in st["a"])
    kw = {"c": mkq([st["c"]], "len/t", ctx.base, st.get("cu") or None)} if "c" in st else {}
    form = st.get("form")
    if form == "map":
        return cx.FourVector.from_({"t": t, "q": q, **kw})
    return cx.FourVector(t=t, q=q, **kw)


@op
def fvget(ctx, st):
    x, f = ctx.reg[st["a"][0]], st["f"]
    if f == "q4":
        g = lambda v: convert(v, u.Quantity)  # noqa: E731
    elif f == "t":
        g = lambda v: qnp.broadcast_to(v.t, v.shape)  # noqa: E731
    elif f == "comp":
        g = lambda v: qnp.broadcast_to(getattr(v, st["name"]), v.shape)  # noqa: E731
    elif f == "q":
        g = lambda v: v.q  # noqa: E731
    else:
        g = {"from": cx.FourVector.from_, "map": lambda v: cx.FourVector.from_({"t": v.t, "q": v.q, "c": v.c}),
             "tree": lambda v: jax.tree.map(lambda z: z, v), "replace": lambda v: dataclassish.replace(v)}[st["form"]]
    return run_mode(st.get("mode"), g, x)


@op
def fvfrom(ctx, st):
    q = ctx.reg[st["a"][0]]
    form = st.get("form")
    if form == "list":
        return cx.FourVector.from_(np.asarray(q.value).tolist(), str(q.unit))
    if form == "arr":
        return cx.FourVector.from_(q.value, str(q.unit))
    if form == "apq":
        return cx.FourVector.from_(apu.Quantity(np.asarray(q.value), str(q.unit)))
    return run_mode(st.get("mode"), cx.FourVector.from_, q)


CSTD = 299792.458


def obs_fv(ctx, v):
    b = ctx.base
    with np.errstate(all="ignore"):
        c = np.asarray(u.ustrip("km / s", v.c), dtype=np.float64).reshape(-1)
    return {"ok": 1, "k": "fv", "shape": list(v.shape), "t": obs_q(v.t, b), "q": ex.observe(ctx, v.q),
            "c": rt.snaps(rt.q_value(v.c, b)[0], b)[0], "cstd": int(bool(np.all(np.abs(c / CSTD - 1) < 1e-6)))}


# ------------------------------------------------------------------- frames
import coordinax.frames as cxf  # noqa: E402

ROLL0 = 58.5986320306       # degrees; the frame's documented reference roll


def deg_of(a):
    return float(np.degrees(np.arctan2(a[1][0] / a[1][1], a[0][0] / a[0][1])))


def ang_q(deg, unit):
    return u.Quantity(jnp.asarray((deg * apu.deg).to_value(unit)), unit)


@op
def mkframe(ctx, st):
    t, form, un = st["t"], st.get("form", "ctor"), st.get("u") or {}
    if t == "none":
        return cxf.NoFrame()
    if t == "icrs":
        import astropy.coordinates as apyc
        return {"ctor": cxf.ICRS, "map": lambda: cxf.ICRS.from_({}), "copy": lambda: cxf.ICRS.from_(cxf.ICRS()),
                "astropy": lambda: cxf.ICRS.from_(apyc.ICRS())}[form]()
    b = ctx.base
    if t == "opaque":
        if form == "astropy":
            import astropy.coordinates as apyc
            with apyc.galactocentric_frame_defaults.set("v4.0"):
                return cxf.Galactocentric.from_(apyc.Galactocentric())
        kw = {}
        for k, v in (st.get("over") or {}).items():
            kw[k] = mkq([v], "len", b, un.get(k)) if k == "z_sun" else u.Quantity(v[0] / v[1], "deg")
        if st.get("respell"):     # the defaults, written in other units
            kw = {"galcen": cxv.LonLatSphericalPos(lon=u.Quantity(np.radians(266.4051), "rad"), lat=u.Quantity(-28.936175 * 60, "arcmin"),
                                                   distance=u.Quantity(8122.0, "pc")), "z_sun": u.Quantity(0.0208, "kpc"), **kw}
        return cxf.Galactocentric.from_(kw) if form == "map" else cxf.Galactocentric(**kw)
    d = mkq([st["dist"]], "len", b, un.get("d"))
    au = un.get("ang", "deg")
    lon, lat, roll = (deg_of(st[k]) for k in ("lon", "lat", "roll"))
    zr = st["h"][1]
    z = mkq([[st["dist"][0] * zr[0], st["dist"][1] * zr[1]]], "len", b, un.get("z"))
    gc = cxv.LonLatSphericalPos(lon=ang_q(lon % 360, au), lat=ang_q(lat, au), distance=d)
    how = st.get("gc", "lonlat")
    if how == "angle":
        gc = cxv.LonLatSphericalPos(lon=cx.angle.Angle(lon % 360, "deg"), lat=cx.angle.Angle(lat, "deg"), distance=cx.distance.Distance(d.value, d.unit))
    elif how == "cart":
        gc = gc.represent_as(cxv.CartesianPos3D)
    elif how == "sph":
        gc = gc.represent_as(cxv.SphericalPos)
    elif how == "map":
        gc = {"lon": gc.lon, "lat": gc.lat, "distance": gc.distance}
    v = mkq(st["v"], "len/t", b, un.get("v"), (3,))
    if st.get("vhow") == "vec":
        v = cxv.CartesianVel3D.from_(v)
    roll = ang_q(roll + ROLL0, au)
    if form == "astropy":
        import astropy.coordinates as apyc
        f = apyc.Galactocentric(
            galcen_coord=apyc.ICRS(ra=(lon % 360) * apu.deg, dec=lat * apu.deg), galcen_distance=float(d.value) * apu.Unit(d.unit),
            z_sun=float(z.value) * apu.Unit(z.unit), roll=float(roll.value) * apu.Unit(roll.unit),
            galcen_v_sun=apyc.CartesianDifferential(*(np.asarray(mkq(st["v"], "len/t", b, "km/s", (3,)).value) * apu.Unit("km/s"))))
        return cxf.Galactocentric.from_(f)
    kw = {"galcen": gc, "roll": roll, "z_sun": z, "galcen_v_sun": v}
    if form == "map":
        return cxf.Galactocentric.from_(kw)
    f = cxf.Galactocentric(**kw)
    return cxf.Galactocentric.from_(f) if form == "copy" else f


@op
def frget(ctx, st):
    f = ctx.reg[st["a"][0]]
    if st["f"] == "fields":
        def n(q, unit, k):
            return int(np.rint(float(u.ustrip(unit, q)) * k))
        g, v = f.galcen, f.galcen_v_sun
        return {"ok": 1, "k": "ints", "val": [
            n(g.lon, "deg", 1e6), n(g.lat, "deg", 1e6), n(f.roll0, "deg", 1e6), n(g.distance, "pc", 1), n(f.z_sun, "pc", 10),
            n(v.d_x, "km/s", 100), n(v.d_y, "km/s", 100), n(v.d_z, "km/s", 100), n(f.roll, "deg", 1e6)]}
    return {"galcen": lambda: f.galcen, "v": lambda: f.galcen_v_sun, "z": lambda: f.z_sun}[st["f"]]()


# ------------------------------------------------------------------- spaces
SPK = ("length", "speed", "acceleration")


@op
def litsp(ctx, st):
    ks, a = st["keys"], [ctx.reg[x] for x in st["a"]]
    form = st.get("form")
    dims = [u.dimension(k) for k in ks]
    if form == "map":
        return cx.Space(dict(zip(ks, a, strict=True)))
    if form == "dimmap":
        return cx.Space(dict(zip(dims, a, strict=True)))
    if form == "pairs":
        return cx.Space(list(zip(ks, a, strict=True)))
    if form == "dimpairs":
        return cx.Space(tuple(zip(dims, a, strict=True)))
    if form == "mixed":
        return cx.Space({dims[0]: a[0]}, **dict(zip(ks[1:], a[1:], strict=True)))
    return cx.Space(**dict(zip(ks, a, strict=True)))


@op
def spget(ctx, st):
    x, f, form = ctx.reg[st["a"][0]], st["f"], st.get("form")
    if f == "member":
        k = st["key"]
        g = {"dim": lambda s: s[u.dimension(k)], "get": lambda s: dict(s.items())[k],
             "values": lambda s: dict(zip(s.keys(), s.values(), strict=True))[k]}.get(form, lambda s: s[k])
    elif f == "keys":
        ks = {"list": list, "keys": lambda s: s.keys(), "items": lambda s: [k for k, _ in s.items()],
              "fields": dataclassish.field_keys, "asdict": lambda s: s.asdict(),
              "in": lambda s: [k for k in SPK if k in s]}[form](x)
        return {"ok": 1, "k": "ints", "val": sorted(SPK.index(k) + 1 for k in ks)}
    elif f == "frompos":
        g = cx.Space.from_
    elif f == "with":
        k, y = st["key"], ctx.reg[st["a"][1]]
        h = {"replace": lambda s, z: dataclassish.replace(s, **{k: z}), "ctor": lambda s, z: cx.Space(s, **{k: z})}[form]
        return run_mode(st.get("mode"), h, x, y)
    elif f == "pp":
        def g(s):
            p = cx.represent_as(s, cxv.PoincarePolarVector) if form == "func" else s.represent_as(cxv.PoincarePolarVector)
            return (p.rho, p.pp_phi * qnp.abs(p.pp_phi), p.z, p.d_rho, p.d_pp_phi * qnp.abs(p.d_pp_phi), p.d_z)
    elif f == "ppback":
        g = lambda s: s.represent_as(cxv.PoincarePolarVector).represent_as(cx.Space)  # noqa: E731
    else:
        g = {"from": cx.Space.from_, "ctor": cx.Space, "items": lambda s: cx.Space(list(s.items())[::-1]),
             "tree": lambda s: jax.tree.map(lambda z: z, s), "replace": lambda s: dataclassish.replace(s),
             "rep": lambda s: s.represent_as(cx.Space), "repf": lambda s: cx.represent_as(s, cx.Space), "id": lambda s: s}[form]
    return run_mode(st.get("mode"), g, x)


# ------------------------------------------------------------ distances and angles
DCLS = {"Distance": cx.distance.Distance, "Parallax": cx.distance.Parallax, "DistanceModulus": cx.distance.DistanceModulus,
        "Angle": cx.angle.Angle, "Quantity": u.Quantity}


def num_d(kd, v, tgt, base):
    """an exact coordinate as a number of units `tgt`"""
    if kd == "arc":
        return apu.arcsec.to(tgt) * v[0] / v[1]
    if kd == "mag":
        return v[0] / v[1]
    return float(lit_values([v], kd, base, tgt)[0][0])


@op
def litd(ctx, st):
    kd, form = st["kd"], st.get("form", "ctor")
    unit = apu.Unit(st["u"])
    vals = [v[0] / v[1] if st.get("bad") == "dim" else num_d(kd, v, unit, ctx.base) for v in st["vals"]]
    a = np.array(vals, dtype=np.float32 if ctx.base.prec == 32 else np.float64).reshape(tuple(st["shape"]))
    c = DCLS[st["cls"]]
    kw = {"check_negative": False} if st.get("nocheck") else {}
    un = unit if st.get("unit_as") == "unit" else unit.to_string()
    if form == "ctor":
        return run_mode(st.get("mode"), lambda x: c(x, un, **kw), jnp.asarray(a))
    if form == "npctor":
        return c(a, un, **kw)
    if form == "from2":
        return c.from_(jnp.asarray(a), un)
    if form == "list":
        return c.from_(a.tolist(), un)
    if form in ("apconv", "apfrom"):
        q = apu.Quantity(a, unit)
        return convert(q, c) if form == "apconv" else c.from_(q)
    if form in ("apobj", "apobjconv"):       # astropy's own classes of lengths and angles
        q = AP[st.get("obj", "Angle")](a, unit, **({"wrap_angle": 180 * apu.deg} if st.get("obj") == "Longitude" else {}))
        return convert(q, c) if form == "apobjconv" else c.from_(q)
    q = u.Quantity(jnp.asarray(a), un)
    if form == "fromq":
        return run_mode(st.get("mode"), c.from_, q)
    if form == "conv":
        return run_mode(st.get("mode"), lambda x: convert(x, c), q)
    raise ValueError(form)


@op
def dconv(ctx, st):
    v, c, form = ctx.reg[st["a"][0]], DCLS[st["to"]], st["form"]
    if form == "prop":
        name = {"Distance": "distance", "Parallax": "parallax", "DistanceModulus": "distance_modulus"}[st["to"]]
        g = lambda x: getattr(x, name)  # noqa: E731
    elif form == "from":
        g = lambda x: c.from_(x)  # noqa: E731
    elif form == "fromq":
        g = lambda x: c.from_(convert(x, u.Quantity))  # noqa: E731
    elif form == "conv":
        g = lambda x: convert(x, c)  # noqa: E731
    elif form in ("ap", "apsub"):
        q = convert(v, apu.Quantity if form == "ap" else AP["Angle" if st.get("obj") == "Angle" else "Distance"])
        assert isinstance(q, apu.Quantity), type(q)
        return u.Quantity(jnp.asarray(q.value), q.unit)
    elif form == "uconv":
        g = lambda x: x.uconvert(st["u"])  # noqa: E731
    elif form == "replace":
        g = lambda x: dataclassish.replace(x, value=x.value)  # noqa: E731
    r = run_mode(st.get("mode"), g, v)
    if form == "uconv":
        ctx.reg[st["d"]] = r
        o = ex.observe(ctx, r)
        if apu.Unit(r.unit) != apu.Unit(st["u"]):
            o["k"] = "unit not as asked"
        return o
    return r


@op
def darith(ctx, st):
    f = st["f"]
    args = [ctx.reg[x] for x in st["a"]]
    fn = st.get("form") == "func"
    if f in ("mul", "div"):
        s = number(st["s"], st.get("num"))
        g = (lambda x: x / s) if f == "div" else (lambda x: s * x) if st.get("side") == "L" else (lambda x: x * s)
    elif f == "pow":
        g = lambda x: x ** st["n"]  # noqa: E731
    elif f == "stack":
        g = lambda x, y: qnp.stack([x, y])  # noqa: E731
    else:
        g = {"add": (operator.add, qnp.add), "sub": (operator.sub, qnp.subtract), "neg": (operator.neg, qnp.negative),
             "abs": (abs, qnp.abs), "lt": (operator.lt, qnp.less), "le": (operator.le, qnp.less_equal),
             "gt": (operator.gt, qnp.greater), "ge": (operator.ge, qnp.greater_equal), "eq": (operator.eq, qnp.equal),
             "ne": (operator.ne, qnp.not_equal), "sum": (qnp.sum, qnp.sum), "mean": (qnp.mean, qnp.mean), "max": (qnp.max, qnp.max),
             "min": (qnp.min, qnp.min), "sqrt": (lambda x: x ** 0.5, qnp.sqrt), "cbrt": (qnp.cbrt, qnp.cbrt),
             "dot": (operator.matmul, qnp.dot), "sin": (qnp.sin, qlax.sin), "cos": (qnp.cos, qlax.cos), "tan": (qnp.tan, qlax.tan),
             "mulq": (operator.mul, qnp.multiply), "divq": (operator.truediv, qnp.divide)}[f][fn]
    return run_mode(st.get("mode"), g, *args)


AU, PC = apu.AU, apu.pc


def obs_dist(ctx, q):
    """a quantity as the specification's elements: every way of reading it"""
    base = ctx.base
    p = {k: round(6 * v) for k, v in base.powers(apu.Unit(u.unit_of(q))).items() if v}
    kd = {(("m", 6),): "len", (("rad", 6),): "ang", (("mag", 6),): "mag"}.get(tuple(p.items()))
    if set(p) - {"m", "s", "rad"} and kd is None:
        return {"ok": 1, "k": "other", "cls": type(q).__name__, "shape": list(np.shape(q.value))}
    raw = np.asarray(q.value, dtype=np.float64).reshape(-1)
    out = {"ok": 1, "cls": "Quantity" if isinstance(q, u.Quantity) else type(q).__name__, "shape": list(np.shape(q.value)), "dim6": [p.get("m", 0), p.get("s", 0), p.get("rad", 0)]}
    if kd != "mag":
        x = np.asarray(rt.q_value(q, base)[0]).reshape(-1) / (np.pi / 2) ** (p.get("rad", 0) / 6)
        out["val"] = rt.snaps(x, base)
    if kd is None:
        return {**out, "k": "q"}
    unit = apu.Unit(u.unit_of(q))
    with np.errstate(all="ignore"):
        if kd == "len":
            ln = raw * unit.to(base.len)
        elif kd == "ang":
            ln = AU.to(base.len) / np.tan(raw * unit.to(apu.rad))
        else:
            ln = PC.to(base.len) * 10 ** (raw / 5 + 1)
        l5 = ln ** 5
    bad = lambda n: [[0, 0]] * n  # noqa: E731
    n = raw.size
    ls, l5s = rt.snaps(ln, base), [rt.snap(float(x), 5 * base.tol * max(1.0, abs(x)) if np.isfinite(x) else 1.0, base.dmax) for x in l5]
    ms = rt.snaps(raw, base) if kd == "mag" else bad(n)
    ss = rt.snaps(raw * unit.to(apu.arcsec), base) if kd == "ang" else bad(n)
    as_ = rt.snaps_ang(raw * unit.to(apu.rad), base) if kd == "ang" else [[[0, 0], [0, 0], 0, 0, 0]] * n
    out.update(k="dist", kd=kd, el=[{"l": ls[i], "l5": l5s[i], "m": ms[i], "s": ss[i], "a": as_[i]} for i in range(n)])
    return out


# ------------------------------------------------------------ astropy
import astropy.coordinates as apyc  # noqa: E402

AP = {"Angle": apyc.Angle, "Latitude": apyc.Latitude, "Longitude": apyc.Longitude, "Distance": apyc.Distance}
AP_OF = {"CartesianPos3D": "CartesianRepresentation", "CylindricalPos": "CylindricalRepresentation",
         "SphericalPos": "PhysicsSphericalRepresentation", "LonLatSphericalPos": "SphericalRepresentation",
         "CartesianVel3D": "CartesianDifferential", "CylindricalVel": "CylindricalDifferential",
         "SphericalVel": "PhysicsSphericalDifferential", "LonLatSphericalVel": "SphericalDifferential",
         "LonCosLatSphericalVel": "SphericalCosLatDifferential"}
OF_AP = {v: k for k, v in AP_OF.items()}


class Bag:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def obs_ap(ctx, v):
    name = type(v).__name__
    if name not in OF_AP:
        return {"ok": 1, "k": "ap", "acls": name}
    c = OF_AP[name]
    comps = {n: getattr(v, n) for n, _ in rt.COMPS[c]}
    bag = Bag(shape=v.shape, **{n: u.Quantity(np.asarray(q.value, dtype=np.float64), q.unit) for n, q in comps.items()})
    return {"ok": 1, "k": "ap", "acls": name, "of": obs_vec(bag, ctx.base, c)}


@op
def litap(ctx, st):
    bad = st.get("bad")
    if bad == "unit":
        return apyc.UnitSphericalRepresentation([10, 20] * apu.deg, [30, 40] * apu.deg)
    if bad == "radial":
        return apyc.RadialRepresentation([1, 2] * apu.km)
    if bad == "dim":
        return apyc.CartesianRepresentation([1.0, 2, 3] * (apu.km / apu.s))
    if bad == "difdim":
        return apyc.CartesianDifferential([1.0, 2, 3] * apu.km)
    kw = {k: apu.Quantity(np.asarray(x.value), apu.Unit(x.unit)) for k, x in rt.lit_kw(st, ctx.base).items()}
    if "distance" in kw:
        kw["distance"] = apyc.Distance(kw["distance"], allow_negative=True)
    if st.get("wrap"):
        kw["lon"] = apyc.Longitude(kw["lon"], wrap_angle=st["wrap"] * apu.deg)
    v = getattr(apyc, AP_OF[st["cls"]])(**kw)
    if st.get("with"):      # carrying a velocity of its own
        return v.with_differentials(apyc.CartesianDifferential([1.0, 2, 3] * (apu.km / apu.s)) if np.shape(v) == () else
                                    apyc.CartesianDifferential(np.ones((3, *v.shape)) * (apu.km / apu.s)))
    return v


@op
def aprep(ctx, st):
    x = ctx.reg[st["a"][0]]
    t = getattr(apyc, AP_OF[st["cls"]])
    return x.represent_as(t, *[ctx.reg[r] for r in st["a"][1:]])


@op
def toap(ctx, st):
    v, to = ctx.reg[st["a"][0]], st["to"]
    if to == "Quantity":
        q = convert(v, apu.Quantity)
        assert type(q) is apu.Quantity, type(q)
        return u.Quantity(np.asarray(q.value), q.unit)
    if to == "Base":
        return convert(v, apyc.BaseRepresentation if type(v).__name__ in rt.POS else apyc.BaseDifferential)
    return convert(v, getattr(apyc, AP_OF[to]))


@op
def fromap(ctx, st):
    x, c = ctx.reg[st["a"][0]], klass(st["cls"])
    if isinstance(x, apyc.BaseRepresentation) and st.get("form") == "conv" and st["cls"] in AP_OF and OF_AP.get(type(x).__name__) != st["cls"]:
        return c.from_(x)
    return convert(x, c) if st.get("form") == "conv" else c.from_(x)


@op
def apframe(ctx, st):
    """a frame holding data is not a frame definition"""
    a = getattr(apyc, st["cls"])
    data = apyc.CartesianRepresentation([1.0, 2, 3] * apu.kpc) if st.get("data") else None
    f = a(data) if data is not None else a()
    return getattr(cxf, st["cls"]).from_(f)


# ------------------------------------------------------------------- sessions
import dataclasses  # noqa: E402
import gc  # noqa: E402
import hashlib  # noqa: E402

import equinox as eqx  # noqa: E402


def look(x, h):
    """feed everything observable about an object into a hash"""
    if isinstance(x, dict):
        h.update(b"{")
        for k, v in sorted(x.items(), key=lambda kv: str(kv[0])):   # the order of the members means nothing
            h.update(str(k).encode())
            look(v, h)
        return
    if isinstance(x, tuple | list):
        h.update(type(x).__name__.encode() + b"[")
        for v in x:
            look(v, h)
        h.update(b"]")
        return
    if x is None or isinstance(x, str | bool | int | float | complex):
        h.update(repr(x).encode())
        return
    if type(x).__module__.startswith("astropy."):
        h.update(type(x).__name__.encode())
        if not hasattr(x, "shape"):
            h.update(str(x).encode())
        elif hasattr(x, "components"):
            for c in x.components:
                look(getattr(x, c), h)
        else:
            h.update(str(x.unit).encode())
            look(np.asarray(x.value), h)
        return
    if isinstance(x, np.ndarray | np.generic | jax.Array):
        a = np.asarray(x)
        h.update(f"{a.dtype}{a.shape}".encode() + a.tobytes())
        return
    h.update(type(x).__name__.encode() + b"(")
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            h.update(f.name.encode())
            look(getattr(x, f.name), h)
    else:
        h.update(str(x).encode())
    h.update(b")")


def mark(x):
    h = hashlib.sha1()
    try:
        look(x, h)
    except Exception as e:  # noqa: BLE001   an object that cannot even be looked at any more
        return "broken " + type(e).__name__
    return h.hexdigest()[:14]


# functions compiled once and used on every object that comes along
SHARED = {
    "rep": eqx.filter_jit(lambda T, v: v.represent_as(T)),
    "repd": eqx.filter_jit(lambda T, v, *r: v.represent_as(T, *r)),
    "apply": eqx.filter_jit(lambda T, o, *x: o(*x)),
    "add": eqx.filter_jit(lambda T, a, b: a + b),
    "neg": eqx.filter_jit(lambda T, a: -a),
    "norm": eqx.filter_jit(lambda T, a: a.norm()),
}


@op
def sj(ctx, st):
    T = klass(st["cls"]) if st["cls"] else None
    return SHARED[st["f"]](T, *(ctx.reg[a] for a in st["a"]))


@op
def uc(ctx, st):
    return ctx.reg[st["a"][0]].uconvert(u.unitsystem(st["sys"]))


def refuses(f):
    try:
        f()
    except Exception:  # noqa: BLE001
        return True
    return False


def attempt(x, f):
    """an attempt at changing x; "refused" unless it went through where it must not"""
    if not isinstance(x, eqx.Module):      # a tuple, an array, an astropy object: not coordinax's to protect
        return "refused"
    names = [n.name for n in dataclasses.fields(x)] if dataclasses.is_dataclass(x) else []
    leaves = [v for v in jax.tree.leaves(x) if isinstance(v, jax.Array)]
    before = mark(x)
    ok = True
    if f == "fields":
        ok = all(refuses(lambda n=n: setattr(x, n, getattr(x, n))) for n in names)
    elif f == "new":
        ok = refuses(lambda: setattr(x, "another", 1)) or not names
    elif f == "delete":
        ok = all(refuses(lambda n=n: delattr(x, n)) for n in names)
    elif f == "setitem":
        ok = refuses(lambda: operator.setitem(x, 0, x)) and refuses(lambda: operator.setitem(x, "length", x))
    elif f == "delitem":
        ok = refuses(lambda: operator.delitem(x, 0)) and refuses(lambda: operator.delitem(x, "length"))
    elif f == "leaf":
        ok = all(refuses(lambda v=v: operator.setitem(v, ..., 0)) for v in leaves)
    elif f == "npleaf":
        ok = all(refuses(lambda v=v: operator.setitem(np.asarray(v), ..., 0)) for v in leaves)
    elif f == "read":         # looking changes nothing
        for g in (repr, str, len, hash, list, bool, lambda v: v.shape, lambda v: v.T, lambda v: v.inverse, lambda v: dict(v), lambda v: v.components,
                  lambda v: v.is_inertial, lambda v: v.norm(), lambda v: v.simplify(), dataclassish.asdict, dataclassish.replace):
            refuses(lambda g=g: g(x))
    elif f == "source":       # what an object was made from can change without it
        if isinstance(x, cx.Space):
            d = dict(x)
            y = cx.Space(d)
        elif isinstance(x, cxo.AbstractOperator):
            d = [x, x]
            y = cxo.Pipe(d)
        elif is_vec(x) and names:
            d = {n: getattr(x, n) for n in names}
            y = type(x).from_(d) if type(x).__name__ not in rt.NDCLS else x
        else:
            return "refused"
        was = mark(y)
        d.clear()
        ok = mark(y) == was
    elif f == "answer":       # so can what it answered
        for g in (dataclassish.asdict, dict, list, lambda v: v.components, lambda v: v.shapes, lambda v: v.units, lambda v: v.operators,
                  lambda v: v.asdict(), lambda v: v.asdict(dict_factory=dict), lambda v: v.sizes, lambda v: v.dtypes, lambda v: v.devices,
                  lambda v: v.keys(), lambda v: v.values(), lambda v: v.items(), dataclassish.field_items, lambda v: jax.tree.flatten(v)[0]):
            try:
                r = g(x)
            except Exception:  # noqa: BLE001
                continue
            refuses(lambda r=r: r.clear())
            refuses(lambda r=r: r.pop())
            refuses(lambda r=r: r.popitem())
            refuses(lambda r=r: operator.setitem(r, 0, None))
    elif f == "inplace":
        for g in (operator.iadd, operator.isub, operator.imul, operator.itruediv, operator.imatmul, operator.ior):
            for z in (x, 2.0):
                refuses(lambda g=g, z=z: g(x, z))
    return "refused" if ok and mark(x) == before else "accepted"


def duplicate(x, f):
    """a copy of x, to take its place"""
    if f == "copy":
        return copy.copy(x)
    if f == "deepcopy":
        return copy.deepcopy(x)
    if f == "pickle":
        return pickle.loads(pickle.dumps(x))
    if f == "tree":
        return jax.tree.unflatten(*jax.tree.flatten(x)[::-1])
    if f == "replace":
        return dataclassish.replace(x)
    if f == "parts":
        return eqx.combine(*eqx.partition(x, eqx.is_array))
    return jax.device_put(x)


_POOL: dict = {}


def run_session(sc):
    if not _POOL:
        import json
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), "pool.json")) as f:
            _POOL.update(json.loads(f.readline()))
    if not jax.config.jax_enable_x64:
        jax.config.update("jax_enable_x64", True)
    ctx = ex.Ctx(sc)
    out, now = [], {}
    import warnings
    warnings.simplefilter("ignore")
    for e in sc["steps"]:
        o = {"ok": 1}
        if e["e"] == "mut":
            try:
                o["out"] = attempt(ctx.reg[e["r"]], e["f"]) if e["r"] in ctx.reg else "skip"
            except Exception as x:  # noqa: BLE001   an object that has been broken before
                o.update(out="raised " + type(x).__name__, exc=type(x).__name__, msg=str(x)[:160])
        elif e["e"] == "copy":
            o["out"] = "skip"
            if isinstance(ctx.reg.get(e["r"]), eqx.Module):
                try:
                    ctx.reg[e["r"]] = duplicate(ctx.reg[e["r"]], e["f"])
                    o["out"] = "copied"
                except Exception as x:  # noqa: BLE001
                    # an object out of a JAX transformation carries equinox's copy of its class's annotations, which do not pickle
                    if "jaxtyping" not in str(x):
                        o.update(ok=0, out="raised " + type(x).__name__, exc=type(x).__name__, msg=str(x)[:160])
        elif e["e"] == "call" and any(a not in ctx.reg for a in e["a"]):
            o["out"] = "skip"
        else:
            d = e["d"]
            try:
                st = _POOL["pool"][d][e["v"] - 1] if e["e"] == "make" else _POOL["calls"][e["c"] - 1]
                v = ex.OPS[st["op"]](ctx, dict(st, d=d))
                ctx.reg[d] = v
                o["out"] = mark(v)
            except Exception as x:  # noqa: BLE001
                if isinstance(x, ImportError | SyntaxError):
                    raise
                o.update(ok=0, out="raised " + type(x).__name__, exc=type(x).__name__, msg=str(x)[:160])
                ctx.reg.pop(d, None)
            if len(out) % 20 == 0:
                gc.collect()
        o["now"] = {r: mark(v) for r, v in ctx.reg.items()}
        out.append(o)
    return out
