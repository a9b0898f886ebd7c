"""Numerical value of the expressions the specification emits (see spec/Expr.tla)."""
import numpy as np

LD = np.longdouble
REL = {"le": np.less_equal, "lt": np.less, "eq": np.equal, "nan": lambda a, b: np.isnan(a)}
PI = LD("3.14159265358979323846264338327950288")


def ev(e, env, w=None):
    """env: variable -> number or array over the grid; w: quadrature (callable) for "int"."""
    op = e[0]
    if op == "num":
        return LD(e[1]) / LD(e[2])
    if op == "pi":
        return PI
    if op == "var":
        return env[e[1]]
    if op == "add":
        return ev(e[1], env, w) + ev(e[2], env, w)
    if op == "mul":
        return ev(e[1], env, w) * ev(e[2], env, w)
    if op == "pow":
        x, n, d = ev(e[1], env, w), e[2], e[3]
        if d == 1:
            with np.errstate(all="ignore"):
                return np.power(np.asarray(x, dtype=LD), LD(n)) if n < 0 else x ** n
        with np.errstate(all="ignore"):
            return np.power(np.asarray(x, dtype=LD), LD(n) / LD(d))
    if op == "cos":
        return np.cos(ev(e[1], env, w))
    if op == "exp":
        return np.exp(ev(e[1], env, w))
    if op == "log":
        with np.errstate(all="ignore"):
            return np.log(ev(e[1], env, w))
    if op == "abs":
        return np.abs(ev(e[1], env, w))
    if op == "vpow":
        with np.errstate(all="ignore"):
            return np.power(np.asarray(ev(e[1], env, w), dtype=LD), ev(e[2], env, w))
    if op == "ite":
        a, b = ev(e[2], env, w), ev(e[3], env, w)
        c = REL[e[1]](a, b)
        with np.errstate(all="ignore"):
            return np.where(c, ev(e[4], env, w), ev(e[5], env, w))
    if op == "anyneg":
        return ev(e[2] if np.any(ev(e[1], env, w) < 0) else e[3], env, w)
    if op == "int":
        return w(ev(e[1], env, w))
    if op == "max":
        return np.max(ev(e[1], env, w))
    if op == "undef":
        return LD("nan")
    raise ValueError(op)


def ld(x):
    return np.asarray(x, dtype=LD)


def close(got, want, rtol=1e-9, scale=None, atol=0.0):
    """Element-wise agreement; `scale` bounds the size of the terms that were summed."""
    got, want = ld(got), ld(want)
    if got.shape != want.shape:
        return False
    if not np.all(np.isfinite(got) == np.isfinite(want)):
        return False
    fin = np.isfinite(want)
    if not np.array_equal(np.isnan(got), np.isnan(want)):
        return False
    if np.any(~fin & ~np.isnan(want)) and not np.array_equal(got[~fin & ~np.isnan(want)], want[~fin & ~np.isnan(want)]):
        return False
    s = np.abs(want) if scale is None else np.maximum(np.abs(want), np.broadcast_to(ld(scale), want.shape))
    tol = rtol * s + atol + 1e-290
    return bool(np.all(np.abs(got - want)[fin] <= tol[fin]))


def mag(e, env, w=None):
    """Size of the terms summed in e: the scale rounding errors are relative to."""
    op = e[0]
    if op == "add":
        return mag(e[1], env, w) + mag(e[2], env, w)
    if op == "mul":
        return mag(e[1], env, w) * mag(e[2], env, w)
    if op == "int":
        return w(mag(e[1], env, w))
    if op == "max":
        return np.max(mag(e[1], env, w))
    if op == "ite":
        a, b = ev(e[2], env, w), ev(e[3], env, w)
        c = REL[e[1]](a, b)
        return np.where(c, mag(e[4], env, w), mag(e[5], env, w))
    if op == "abs":
        return mag(e[1], env, w)
    if op == "anyneg":
        return mag(e[2] if np.any(ev(e[1], env, w) < 0) else e[3], env, w)
    return np.abs(ev(e, env, w))


def env_params(c, a):
    env = {}
    for i, (x, y) in enumerate(zip(c, a), 1):
        env[f"c{i}"], env[f"a{i}"] = LD(x), LD(y)
    return env
