"""Conformance of the measures with spec/Measures.tla."""
import numpy as np
from bfit.measure import SquaredDifference, KLDivergence, TsallisDivergence
from expr import LD, ev, mag, close, ld
from vlib import tlc, guarded

MASKS = [1e-12, 1e-3, 0.25, 1e-18, 1.]
ALPHAS = [0.3, 0.5, 0.999, 1.001, 1.7, 2.0, 3.5, 0.1, 0.01, 6.0, 1 + 1e-8, 1 - 1e-9, 1 + 1e-6, 1e-4, 1e-8]


def rtol(m, al):
    """alpha near one: the terms are large and cancel"""
    return 2e-14 if m == "tsallis" and abs(al - 1) < 1e-4 else 1e-9


DTOL = {"square": 1e-14, "kl": 1e-13, "tsallis": 1e-12}

PENS = [100000.0, 17.5, np.inf, 1.0]


def extra_cases(rng, k):
    out = []
    for _ in range(k):
        zm = bool(rng.random() < 0.3)
        gc = ["zero", "above", "above", "above"] + ([] if zm else ["below", "at"])
        if rng.random() < 0.3:
            gc = gc + ["nan"]
        n = int(rng.integers(8, 40))
        pts = [{"f": "zero" if rng.random() < 0.2 else "pos", "g": gc[int(rng.integers(len(gc)))]} for _ in range(n)]
        if rng.random() < 0.3:
            pts[int(rng.integers(n))]["g"] = "neg"
        if zm and rng.random() < .4:
            for p in pts:
                if p["f"] == "pos" and rng.random() < .3:
                    p["g"] = "negl"
        out.append({"pts": pts, "zeromask": zm})
    return out


def records(ck, rng):
    r = ck.model(tlc("MeasureCases", invariants=["PenaltyIsGlobal", "UndefStays", "ZeroDensityNeverCounts", "Emit"],
                     constants=dict(MaxLen=ck.n(2, 3), Extra="TRUE"), inputs={"extra.json": extra_cases(rng, ck.n(120, 500))}))
    grid = r.records[0]
    return grid, r.records[1:]


def realise(rng, rec, mask):
    f, g = [], []
    for p in rec["pts"]:
        f.append(0. if p["f"] == "zero" else float(np.exp(rng.uniform(-8, 5))) if rng.random() < .8 else float(rng.integers(1, 4)))
        c = p["g"]
        if c == "neg":
            g.append(-float(np.exp(rng.uniform(-30, 3))) if rng.random() < .6 else
                     float(rng.choice([-5e-324, -1e-310, -1e-305, -1e-200, -1e-20, -1e150])))
        elif c == "zero":
            g.append(-0. if rng.random() < .3 else 0.)
        elif c == "below":
            g.append(mask * float(rng.uniform(0.01, 0.99)))
        elif c == "at":
            g.append(mask)
        elif c == "nan":
            g.append(np.nan)
        elif c == "negl":
            g.append(LD(f[-1]) * LD(10.) ** -float(rng.uniform(310., 4900.)))
        else:
            t = rng.random()
            if t < 0.15 and mask > 0:
                g.append(float(np.nextafter(mask, np.inf)))
            elif t < 0.3 and f[-1] > mask:
                g.append(f[-1])                     # perfect fit at this point
            elif t < 0.4 and f[-1] > mask:
                g.append(f[-1] * (1 + 10. ** -int(rng.integers(3, 15))))   # nearly perfect
            else:
                g.append(mask + float(np.exp(rng.uniform(-8, 5))))
    return np.array(f), np.array(g)


def integers(rng, rec, mask):
    """integer arrays of the same classes, where the classes have integers"""
    if any(p["g"] in ("nan", "at", "below", "negl") for p in rec["pts"]):
        return None
    v = {"neg": lambda: -int(rng.integers(1, 5)), "zero": lambda: 0, "above": lambda: int(mask) + int(rng.integers(1, 6))}
    f = np.array([0 if p["f"] == "zero" else int(rng.integers(1, 6)) for p in rec["pts"]])
    g = np.array([v[p["g"]]() for p in rec["pts"]])
    t = rng.random()
    return (f, g) if t < .5 else (f.astype(float), g)


def long_grids(ck, rng, grid, deriv):
    """Grids of realistic length, through the grid forms GridValue / GridDeriv."""
    kinds = {"square": ["pos", "zero", "neg", "nan"], "kl": ["pos", "below", "nan", "neg", "neg"], "tsallis": ["pos", "zero", "below", "nan", "neg"]}
    for k in range(ck.n(40, 160)):
        for m in ("square", "kl", "tsallis"):
            n = [1000, 1024, 4097, 20001, 65537, 257][k % 6]
            mask = MASKS[int(rng.integers(len(MASKS)))] if k % 5 else 0.
            al, pen = ALPHAS[int(rng.integers(10))], PENS[int(rng.integers(len(PENS)))]
            f = np.exp(rng.uniform(-8, 5, n))
            g = mask * (1 + 1e-6) + np.exp(rng.uniform(-8, 5, n))
            f[rng.random(n) < [0., .01, .5][k % 3]] = 0.
            some = kinds[m][int(rng.integers(len(kinds[m])))]
            at = rng.integers(n, size=int(rng.integers(1, 4))) if k % 4 else np.array([[0, n - 1, n - 2, n // 2, n - n // 8][k // 4 % 5]])
            if some == "zero":
                g[at] = 0.
            elif some == "below":
                g[at] = mask * .5
            elif some == "nan":
                g[at] = np.nan
            elif some == "neg" or (m == "kl" and k % 7 == 0):
                g[at] = -np.exp(rng.uniform(-9, 3, len(at)))
            obj = {"square": lambda: SquaredDifference(), "kl": lambda: KLDivergence(mask_value=mask, negative_val=pen),
                   "tsallis": lambda: TsallisDivergence(alpha=al, mask_value=mask)}[m]()
            env = {"f": ld(f), "g": ld(g), "alpha": LD(al), "penalty": LD(pen), "mask": LD(mask)}
            replay = {"measure": m, "mask": mask, "alpha": al, "penalty": pen, "points": n, "special": some, "at": at.tolist()}
            what = f"{m} mask={mask} alpha={al} on {n} points with {some} model values at {at.tolist()}"
            ck.case((m, "long", n, some))
            ok, v = guarded(ck, what, replay, obj.evaluate, f, g, *((True,) if deriv else ()))
            if not ok:
                continue
            want = np.broadcast_to(ev(grid["gv"][m], env), f.shape)
            sc = np.maximum(np.abs(f), np.abs(np.nan_to_num(np.asarray(want, float))))
            if deriv:
                v, d = v
                wd = np.broadcast_to(ev(grid["gd"][m], env), f.shape)
                if not close(d, wd, 1e-9, np.maximum(1., np.abs(np.nan_to_num(np.asarray(wd, float))))):
                    ck.fail(what + ": derivative differs from the exact one", replay)
            if not close(v, want, 1e-9, np.maximum(sc, 1.)):
                ck.fail(what + ": value differs", replay)


def body(ck, deriv):
    rng = np.random.default_rng(ck.seed + 5)
    grid, recs = records(ck, rng)
    ck.rule = ("every combination of point classes (density zero/positive x model negative/zero/below/at/above the mask/undefined) "
               "on grids up to the bound plus longer mixed grids; three measures; random masks, penalties, alphas, dtypes; "
               "distinct = (classes, measure)")
    if not deriv:
        ck.assumptions.append("alpha = 0 exactly and infinite densities are outside the explored inputs")
    for rec in [x for x in recs for _ in range(ck.n(4, 8))]:
        for m in ("square", "kl", "tsallis"):
            if m == "tsallis" and any(p["g"] == "negl" for p in rec["pts"]):
                continue            # pinned by the repository's own tests for Kullback-Leibler only
            mask = 0. if rec["zm"] else MASKS[int(rng.integers(len(MASKS)))]
            al = ALPHAS[int(rng.integers(len(ALPHAS)))]
            pen = PENS[int(rng.integers(len(PENS)))]
            f, g = realise(rng, rec, mask)
            dt = rng.random()
            if dt < 0.15:
                f, g = f.astype(LD), g.astype(LD)
            elif dt < 0.3 and g.dtype != LD:
                f, g = np.repeat(f, 2)[::2], np.repeat(g, 2)[::2]
            elif dt < 0.45:
                f, g = integers(rng, rec, mask) or (f, g)
            replay = {"measure": m, "mask": mask, "alpha": al, "penalty": pen, "f": ld(f).tolist(), "g": ld(g).tolist()}
            obj = {"square": lambda: SquaredDifference(), "kl": lambda: KLDivergence(mask_value=mask, negative_val=pen),
                   "tsallis": lambda: TsallisDivergence(alpha=al, mask_value=mask)}[m]()
            env = [{"f": LD(a), "g": LD(b), "alpha": LD(al), "penalty": LD(pen)} for a, b in zip(f, g)]
            want = np.array([ev(e, v) for e, v in zip(rec["val"][m], env)], dtype=LD)
            sc = np.array([0 if e[0] == "undef" else mag(e, v) for e, v in zip(rec["val"][m], env)], dtype=LD)
            sc = np.maximum(sc, ld(f) * 1e-3 if m == "kl" else 0)
            ge = {"f": ld(f), "g": ld(g), "alpha": LD(al), "penalty": LD(pen), "mask": LD(mask)}
            gv = np.broadcast_to(ev(grid["gv"][m], ge), f.shape)
            if not close(gv, want, 1e-12, sc):
                from vlib import MachineryError
                raise MachineryError(f"the two forms of measure {m} in the specification disagree")
            ck.case((m, tuple((p["f"], p["g"]) for p in rec["pts"]), rec["zm"]), sample=replay if len(f) < 4 else None)
            what = f"{m} mask={mask} alpha={al} on classes {[(p['f'], p['g']) for p in rec['pts']][:6]}"
            ok, v = guarded(ck, what, replay, obj.evaluate, f, g)
            if ok and not deriv:
                if not close(v, want, rtol(m, al), sc):
                    ck.fail(what + ": value differs", replay)
            ok2, vd = guarded(ck, what + " deriv", replay, obj.evaluate, f, g, True)
            if ok and ok2 and deriv:
                wd = np.array([ev(e, x) for e, x in zip(rec["der"][m], env)], dtype=LD)
                sd = np.array([0 if e[0] == "undef" else mag(e, x) for e, x in zip(rec["der"][m], env)], dtype=LD)
                gd = np.broadcast_to(ev(grid["gd"][m], ge), f.shape)
                if not close(gd, wd, 1e-12, sd):
                    from vlib import MachineryError
                    raise MachineryError(f"the two forms of the derivative of {m} in the specification disagree")
                if not isinstance(vd, tuple) or len(vd) != 2:
                    ck.fail(what + ": no derivative returned", replay)
                    continue
                if not close(vd[0], v, 1e-13, sc * 1e-3):
                    ck.fail(what + ": the value changes when the derivative is requested", replay)
                if not close(vd[1], wd, DTOL[m], sd):
                    ck.fail(what + ": derivative differs from the exact one", replay)
            if not deriv and not (getattr(obj, "mask_value", mask) == mask and getattr(obj, "alpha", al) == al
                                  and getattr(obj, "negative_val", pen) == pen):
                ck.fail(what + ": settings not reported", replay)
    long_grids(ck, rng, grid, deriv)
