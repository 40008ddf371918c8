"""Replays specification-generated scenarios on the real library; writes one trace line per scenario.

usage: execute.py SCENARIOS.ndjson TRACE.ndjson
"""
import json
import signal
import sys
import traceback
import warnings

import rt
from rt import (IrreversibleDimensionChange, Base, cx, jax, jnp, klass, lit_vec, mkq, run_mode, np, obs_q,
                obs_vec, u, is_vec)

OPS = {}


def op(f):
    OPS[f.__name__.rstrip("_")] = f
    return f


def kwargs_of(st, ctx):
    out = {}
    for k, spec in (st.get("kw") or {}).items():
        kind, vals, shape, unit = spec
        out[k] = mkq(vals, kind, ctx.base, unit or None, tuple(shape))
    return out


class Ctx:
    def __init__(self, sc):
        self.base = Base(sc.get("base"), sc.get("mag", 0), sc.get("prec", 64))
        self.reg = {}
        self.dist = bool(sc.get("dist"))


@op
def lit(ctx, st):
    return lit_vec(st, ctx.base)


@op
def litq(ctx, st):
    return mkq(st["vals"], st["kind"], ctx.base, st.get("u") or None, tuple(st["shape"]), how=st.get("how", "Quantity"))


@op
def rep(ctx, st):
    kw = kwargs_of(st, ctx)
    T = klass(st["cls"])
    if st.get("form") == "func":
        f = lambda v: cx.represent_as(v, T, **kw)  # noqa: E731
    else:
        f = lambda v: v.represent_as(T, **kw)  # noqa: E731
    return run_mode(st.get("mode"), f, ctx.reg[st["a"][0]])


@op
def repd(ctx, st):
    """velocity at a position / acceleration at (velocity, position)"""
    kw = kwargs_of(st, ctx)
    T = klass(st["cls"])
    args = [ctx.reg[x] for x in st["a"]]
    return run_mode(st.get("mode"), lambda v, *r: v.represent_as(T, *r, **kw), *args)


@op
def normv(ctx, st):
    args = [ctx.reg[x] for x in st["a"]]
    return run_mode(st.get("mode"), lambda v, *r: v.norm(*r), *args)


def observe(ctx, v):
    if is_vec(v):
        return obs_vec(v, ctx.base)
    if isinstance(v, tuple):
        return {"ok": 1, "k": "tup", "items": [observe(ctx, x) for x in v]}
    if isinstance(v, cx.FourVector):
        return sys.modules["ops_extra"].obs_fv(ctx, v)
    if isinstance(v, cx.Space):
        return {"ok": 1, "k": "space", "shape": list(v.shape), "m": {k: observe(ctx, x) for k, x in v.items()}}
    if isinstance(v, cx.frames.AbstractReferenceFrame):
        return {"ok": 1, "k": "frame", "cls": type(v).__name__}
    if isinstance(v, cx.ops.AbstractOperator):
        return {"ok": 1, "k": "op", "cls": type(v).__name__}
    if type(v).__module__.startswith("astropy.coordinates."):
        return sys.modules["ops_extra"].obs_ap(ctx, v)
    if ctx.dist and u.unit_of(v) is not None:
        return sys.modules["ops_extra"].obs_dist(ctx, v)
    return obs_q(v, ctx.base)


class Skip(Exception):
    pass


class StepTimeout(BaseException):
    pass


STEP_LIMIT = 90


def _alarm(*_):
    raise StepTimeout


signal.signal(signal.SIGALRM, _alarm)


def run_scenario(sc):
    prec = sc.get("prec", 64)
    if bool(jax.config.jax_enable_x64) != (prec == 64):
        jax.config.update("jax_enable_x64", prec == 64)
    ctx = Ctx(sc)
    out = []
    for st in sc["steps"]:
        o = {}
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            try:
                if any(a not in ctx.reg for a in st.get("a", ())):
                    raise Skip
                signal.alarm(STEP_LIMIT)
                v = OPS[st["op"]](ctx, st)
                if isinstance(v, dict) and "ok" in v:
                    o = v
                else:
                    o = observe(ctx, v)
                    if "d" in st:
                        ctx.reg[st["d"]] = v
            except Skip:
                o = {"ok": 0, "exc": "Skip"}
            except Exception as e:  # noqa: BLE001
                if isinstance(e, (ImportError, SyntaxError)):
                    raise
                o = {"ok": 0, "exc": type(e).__name__, "msg": str(e)[:160]}
                if "-v" in sys.argv:
                    traceback.print_exc()
            except StepTimeout:
                o = {"ok": 0, "exc": "StepTimeout", "msg": f"no answer in {STEP_LIMIT} s"}
            finally:
                signal.alarm(0)
        if not o.get("ok") and "d" in st:
            ctx.reg.pop(st["d"], None)      # later steps must not see a stale value
        o["warn"] = sum(issubclass(w.category, IrreversibleDimensionChange) for w in wl)
        out.append(o)
    return out


def main():
    src, dst = sys.argv[1:3]
    import ops_extra  # noqa: F401  (registers further operations)
    with open(src) as f, open(dst, "w") as g:
        for line in f:
            sc = json.loads(line)
            obs = ops_extra.run_session(sc) if sc.get("sess") else run_scenario(sc)
            g.write(json.dumps({"id": sc["id"], "steps": sc["steps"], "obs": obs,
                                **{k: v for k, v in sc.items() if k not in ("id", "steps")}}) + "\n")


if __name__ == "__main__":
    sys.modules["execute"] = sys.modules["__main__"]
    main()
