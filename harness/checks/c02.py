import numpy as np
from vlib import run_check, guarded, tlc
from expr import LD, ld
from bfit.grid import UniformRadialGrid, ClenshawRadialGrid, _BaseRadialGrid


def body(ck):
    rng = np.random.default_rng(ck.seed + 2)
    extra = []
    for _ in range(ck.n(1200, 6000)):
        n = int(rng.integers(1, 30))
        x = np.cumsum(rng.integers(0 if rng.random() < .2 else 1, 9, n)).tolist()
        t = rng.random()                # any order of the points: descending, mixed
        x = x[::-1] if t < .15 else [x[i] for i in rng.permutation(n)] if t < .35 else x
        extra.append({"x": [int(v) for v in x], "y": [int(v) for v in rng.integers(-50, 50, n)]})
    r = ck.model(tlc("TrapzCases", invariants=["Linear", "ExactLinear", "Additive", "Emit"],
                     constants=dict(MaxLen=ck.n(3, 4), Vals="{0, 1, 3}"), inputs={"extra.json": extra}))
    ck.rule = ("exhaustive small integer grids (TLC proves linearity, exactness on linear functions and additivity) and random uneven "
               "integer grids, compared exactly; real-valued grids of the three radial classes against the same sum; wrong shapes rejected")
    for k, rec in enumerate(r.records):
        x, y = np.array(rec["x"], float), np.array(rec["y"], float)
        if k % 3 == 1:
            x, y = x.astype(LD), y.astype(LD)
        if k % 7 == 2:
            y = np.array(rec["y"])          # integer values
        replay = {"x": rec["x"], "y": rec["y"]}
        ok, g = guarded(ck, "grid", replay, _BaseRadialGrid, x)
        if not ok:
            continue
        ck.case((tuple(rec["x"]), tuple(rec["y"])), sample=replay)
        for rep in range(2):
            ok, v = guarded(ck, "integrate", replay, g.integrate, y)
            if ok and not (np.ndim(v) == 0 and abs(LD(v) * 2 - rec["two"]) <= 1e-12 * (1 + abs(rec["two"]))):
                ck.fail(f"integral of {rec['y']} on {rec['x']} is {v}, specified {rec['two']}/2 (call {rep + 1})", replay)
    for it in range(ck.n(200, 1000)):       # points of another kind of number than the values
        n = int(rng.integers(2, 40))
        x = np.cumsum(rng.integers(1, 9, n)).astype([np.int64, np.int32, np.float32, np.float64][it % 4])
        y = (rng.normal(size=n) * 10. ** rng.uniform(-3, 3)).astype([np.float64, LD, np.float64, LD][(it // 4) % 4])
        replay = {"x": x.tolist(), "x dtype": str(x.dtype), "y": y.astype(float).tolist(), "y dtype": str(y.dtype)}
        ok, g = guarded(ck, "grid", replay, _BaseRadialGrid, x)
        if not ok:
            continue
        ok, v = guarded(ck, "integrate", replay, g.integrate, y)
        terms = (ld(x)[1:] - ld(x)[:-1]) * (ld(y)[1:] + ld(y)[:-1]) / 2
        ck.case(("mixed", str(x.dtype), str(y.dtype), n))
        if ok and not abs(LD(v) - terms.sum()) <= (1e-17 if y.dtype == LD else 1e-13) * np.sum(np.abs(terms)):
            ck.fail(f"{y.dtype} values on {x.dtype} points: integral {v}, specified {terms.sum()}", replay)
    for it in range(ck.n(600, 4000)):
        kind = it % 3
        if it % 25 == 24:           # long grids
            kind, n = 2, int(rng.choice([1000, 1025, 4096, 5003, 20001, 65537, 100000]))
            g = _BaseRadialGrid(np.cumsum(rng.uniform(0., .01, n)) if rng.random() < .5 else np.linspace(0., 20., n))
        elif kind == 0:
            g = UniformRadialGrid(int(rng.integers(2, 300)), 0., float(rng.uniform(1, 40)))
        elif kind == 1:
            g = ClenshawRadialGrid(int(rng.integers(1, 50)), int(rng.integers(1, 80)), int(rng.integers(1, 80)), [60.], bool(rng.random() < .5))
        else:
            x = np.sort(rng.uniform(0, 9, int(rng.integers(2, 60))))
            t = rng.random()
            if t < .25:             # very small and very large spacings, in one grid or throughout
                x = np.cumsum(10. ** rng.uniform(-17, 3, len(x)) if t < .12 else rng.uniform(0, 1, len(x)) * 10. ** rng.integers(-16, 5))
            if rng.random() < .3:
                x = x[::-1] if rng.random() < .5 else rng.permutation(x)
            g = _BaseRadialGrid(x)
        y = rng.normal(size=len(g)) * 10. ** rng.uniform(-6, 6, len(g))
        x = ld(g.points)
        terms = (x[1:] - x[:-1]) * (ld(y)[1:] + ld(y)[:-1]) / 2
        replay = {"kind": kind, "n": len(g), "y": y.tolist()[:20]}
        y0 = y.copy()
        ok, v = guarded(ck, "integrate", replay, g.integrate, y)
        ck.case(("real", kind, len(g)))
        if ok and abs(LD(v) - terms.sum()) > 1e-12 * np.sum(np.abs(terms)):
            ck.fail(f"trapezoidal sum on real grid differs: {v}, specified {terms.sum()}", replay)
        if not np.array_equal(y, y0):
            ck.fail("integrate modified its argument", replay)
        y[:] = rng.normal(size=len(g))           # the same array object with new values
        ok, v = guarded(ck, "integrate", replay, g.integrate, y)
        terms = (x[1:] - x[:-1]) * (ld(y)[1:] + ld(y)[:-1]) / 2
        if ok and abs(LD(v) - terms.sum()) > 1e-12 * np.sum(np.abs(terms)):
            ck.fail(f"integral of an array changed in place: {v}, specified {terms.sum()}", replay)
        n = len(g)
        if n > 1:                                # undefined and infinite values are not lost
            for vals in ([np.nan], [np.inf], [-np.inf], [np.inf, -np.inf]):
                z = y.copy()
                at = [int(rng.integers(n)) for _ in vals]
                if len(set(at)) < len(at):
                    continue
                z[at] = vals
                if vals != [np.nan] and not all((k > 0 and x[k] > x[k - 1]) or (k < n - 1 and x[k + 1] > x[k]) for k in at):
                    continue                     # an infinite value on an interval of no width
                dup = np.any(np.diff(x) == 0)
                terms = (x[1:] - x[:-1]) * (ld(z)[1:] + ld(z)[:-1]) / 2
                want = terms.sum()
                ok, v = guarded(ck, "integrate", replay, g.integrate, z)
                if ok and not dup and not (np.isnan(v) if np.isnan(want) else v == want):
                    ck.fail(f"integral of values with {vals} at {at}: {v}, specified {want}", replay)
        for bad in (np.ones(n + 1), np.ones(max(n - 1, 0)), np.ones((n, 1)), np.ones((1, n)), np.ones((n, 2)), np.ones(())):
            try:
                g.integrate(bad)
                ck.fail(f"values of shape {bad.shape} accepted on a grid of {n} points", {"n": n, "shape": bad.shape})
            except ValueError:
                pass
            except Exception as e:
                ck.fail(f"values of shape {bad.shape}: {type(e).__name__} instead of ValueError", {"n": n})


if __name__ == "__main__":
    run_check("C02", "model_checking", body)
