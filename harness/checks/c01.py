import numpy as np
from vlib import run_check, guarded, tlc, MachineryError
from expr import LD, ev, close, ld
from bfit.grid import UniformRadialGrid, ClenshawRadialGrid


def points(rec, pos, env):
    far = None if pos is None else np.concatenate([np.atleast_1d(x) for x in pos(env)])
    if "pts" not in rec:
        return far
    near = np.array([ev(e, env) for e in rec["pts"]], dtype=LD)
    if far is not None and (near.shape != far.shape or not np.all(np.abs(near - far) <= 1e-17 * (1 + np.abs(near).max(initial=0)))):
        raise MachineryError(f"the two forms of the points of {rec['c']} in the specification disagree")
    return near


def body(ck):
    rng = np.random.default_rng(ck.seed + 1)
    extra = [{"kind": "uniform", "n": int(rng.integers(50, 400)), "m": 0, "o": True} for _ in range(6)]
    extra += [{"kind": "clenshaw", "n": int(rng.integers(0, 120)), "m": int(rng.integers(0, 120)), "o": bool(rng.random() < .5)} for _ in range(ck.n(30, 120))]
    r = ck.model(tlc("RadialCases", invariants=["CountOK", "OriginIffRequested", "Emit"],
                     constants=dict(MaxN=ck.n(30, 60), MaxC=ck.n(8, 14), Extra="TRUE"), inputs={"extra.json": extra}))
    ck.rule = ("every number of points within bounds and random larger ones, random intervals, atomic numbers, extra points, dtypes; "
               "distinct = (kind, counts, origin, extras, dtype)")
    forms = r.records[0]["forms"]

    def by_position(c):
        """the specified points of a long grid; agreement with the enumerated ones is checked below"""
        n, m = c["n"], c["m"]
        if c["kind"] == "uniform":
            return lambda env: [ev(forms["uniform"], dict(env, i=np.arange(n).astype(LD), n=LD(n)))]
        core = np.arange(0 if c["o"] else 1, m if c["o"] else m + 1).astype(LD)
        return lambda env: [ev(forms["core"], dict(env, i=core, m=LD(m))) if m else LD(0) * core[:0],
                            ev(forms["diffuse"], dict(env, i=np.arange(1, n + 1).astype(LD), n=LD(n))) if n else LD(0) * core[:0]]
    recs = r.records[1:]
    for n in ck.n([997, 1024, 4099, 20001], [997, 1000, 1024, 1025, 4096, 4099, 10000, 20001, 65537, 100001]):
        recs.append({"c": {"kind": "uniform", "n": n, "m": 0, "o": True}})
        recs += [{"c": {"kind": "clenshaw", "n": int(rng.integers(0, 3 * n // 2)), "m": n, "o": o}} for o in (True, False)]
        recs.append({"c": {"kind": "clenshaw", "n": n, "m": int(rng.integers(0, 20)), "o": bool(rng.integers(2))}})
    for rec in recs:
        c = rec["c"]
        pos = by_position(c) if c["kind"] == "clenshaw" or c["n"] > 1 else None
        for dt in (np.longdouble, np.float64, None):
            kw = {} if dt is None else {"dtype": dt}
            eps = 1e-15 if dt is not np.float64 else 1e-13
            if c["kind"] == "uniform":
                lo = [0., 0, float(rng.uniform(0, 3)), 1e-3][int(rng.integers(4))]
                hi = [lo + float(rng.uniform(.1, 60.)), int(lo) + int(rng.integers(1, 90))][int(rng.integers(2))]
                if hi <= lo:
                    hi = lo + 1
                if rng.random() < .12:      # end points on the other side of the origin, and the origin itself as the upper one
                    lo, hi = [(-1., 0.), (-2, 0), (-1., 0), (-.5, float(rng.uniform(.1, 3.))), (-3., -.25), (-5, -1)][int(rng.integers(6))]
                replay = dict(c, lo=lo, hi=hi, dtype=str(dt))
                what = f"UniformRadialGrid({c['n']}, {lo}, {hi}, {dt})"
                args = [(), (lo, hi), (lo, hi), (lo, hi), (lo,)][int(rng.integers(5))] if rng.random() < .3 else (lo, hi)
                if len(args) == 0:          # the documented defaults
                    lo, hi = 0., 100.
                elif len(args) == 1:
                    hi = 100.
                what = f"UniformRadialGrid({c['n']}, {args}, {dt})"
                ok, g = guarded(ck, what, dict(replay, args=args), UniformRadialGrid, c["n"], *args, **kw)
                want = points(rec, pos, {"lo": LD(lo), "hi": LD(hi)})
                sc = abs(lo) + abs(hi)
            else:
                z = int(rng.integers(1, 100) if rng.random() < .8 else rng.integers(100, 2000))
                ex = None if rng.random() < .5 else [float(x) for x in rng.uniform(0, 70., int(rng.integers(0, 5)))]
                if ex and rng.random() < .3:
                    ex = np.sort(ex)[::-1].tolist()
                if ex and rng.random() < .3:        # the origin, and points on the other side of it
                    ex += [[0.], [-.5], [0., -1e-3], [-0.0]][int(rng.integers(4))]
                if ex and rng.random() < .6:        # repeated values, and values that are points already
                    ex += [ex[0], 25., 12.5][:int(rng.integers(1, 4))]
                    try:
                        g0 = ClenshawRadialGrid(z, c["m"], c["n"], None, c["o"], **kw)
                        ex.append(float(g0.points[-1]) if len(g0) else 1.)
                    except Exception:  # pylint: disable=broad-except
                        pass            # reported below
                    ex = [ex[i] for i in rng.permutation(len(ex))]
                replay = dict(c, z=z, extra=ex, dtype=str(dt))
                what = f"ClenshawRadialGrid({z}, {c['m']}, {c['n']}, {ex}, {c['o']}, {dt})"
                ex0 = None if ex is None else list(ex)
                if ex and rng.random() < .2:
                    ex = ex0 = [int(x) if rng.random() < .8 else x for x in ex]
                if ex and rng.random() < .2:
                    ex = ex0 = tuple(ex)
                if c["o"] and rng.random() < .3:        # the documented defaults
                    ok, g = guarded(ck, what, replay, ClenshawRadialGrid, z, c["m"], c["n"], *([] if ex is None else [ex]), **kw)
                else:
                    ok, g = guarded(ck, what, replay, ClenshawRadialGrid, z, c["m"], c["n"], ex, c["o"], **kw)
                if ex != ex0:
                    ck.fail(what + ": the given extra points were modified", replay)
                want = np.concatenate((points(rec, pos, {"z": LD(z)}), np.array(ex or [], dtype=LD)))
                order = np.argsort(want, kind="stable")
                # core points are as fine as the nucleus is heavy, extra points are kept as given
                sc = np.concatenate((np.full(c["m"], 1. / z), np.full(len(want) - c["m"] - len(ex or []), 50.), np.abs(ex or [])))[order]
                want = want[order]
            if not ok:
                continue
            ck.case((c["kind"], c["n"], c["m"], c["o"], str(dt)), sample=replay)
            p = np.asarray(g.points)
            if p.shape != want.shape or len(g) != len(want):
                ck.fail(what + f": {p.shape} points, length {len(g)}, specified {want.shape}", replay)
            elif not np.all(np.abs(ld(p) - want) <= eps * sc * 4 + 1e-19):
                ck.fail(what + ": points differ", replay)
            elif np.any(np.diff(p) < 0) or (c["kind"] == "uniform" and np.any(np.diff(p) <= 0)):
                ck.fail(what + ": points not in ascending order", replay)
            elif c["kind"] == "uniform" and c["n"] > 1 and not (p[0] == lo and abs(p[-1] - hi) <= 1e-15 * max(abs(hi), 1)):
                ck.fail(what + ": end points not exact", replay)
            elif c["kind"] == "clenshaw" and c["m"] > 0 and c["o"] and min(ex or [0.]) >= 0 and p[0] != 0:
                ck.fail(what + ": origin is not exact", replay)
            elif c["kind"] == "clenshaw" and g.atomic_number != z:
                ck.fail(what + ": atomic number", replay)
            elif p.dtype != (dt or np.longdouble):
                ck.fail(what + f": dtype {p.dtype}", replay)


if __name__ == "__main__":
    run_check("C01", "model_checking", body)
