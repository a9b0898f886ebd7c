import numpy as np
from vlib import run_check, guarded, tlc, MachineryError
from expr import LD, ld
from bfit.grid import CubicGrid


def by_rank(sh):
    """The visiting order in closed form (LatticeWalk!RankIsPosition; compared with the walk on every walked shape)."""
    return np.stack(np.unravel_index(np.arange(int(np.prod(sh))), sh), axis=-1)


def size(o, idx, ax):
    """Size of the terms of a position."""
    return np.abs(np.asarray(o, float)).max() + (np.abs(idx) @ np.abs(np.asarray(ax, float))).max()


def big(ck, rng):
    """Grids of realistic size, through the closed form."""
    shapes = [(40, 40, 40), (1, 1, 20001), (257, 3, 65), (2, 129, 128), (31, 1, 997), (100, 101, 1), (128, 128, 3)]
    for sh in shapes + [tuple(int(x) for x in rng.integers(1, 60, 3)) for _ in range(ck.n(16, 60))]:
        o, ax = rng.normal(size=3) * 10. ** rng.integers(-1, 3), rng.normal(size=(3, 3))
        if abs(np.linalg.det(ax)) < 1e-2:
            ax = ax + 2 * np.eye(3)
        if rng.random() < .5:
            s = 10. ** rng.uniform(-6, 3)
            o, ax = o * s, ax * s
        idx, vol = by_rank(sh), abs(np.linalg.det(ax))
        pts = ld(o) + ld(idx) @ ld(ax)
        replay = {"origin": o.tolist(), "axes": ax.tolist(), "shape": list(sh)}
        what = f"CubicGrid shape={sh} axes={np.round(ax, 3).tolist()}"
        ok, g = guarded(ck, what, replay, CubicGrid, o, ax, sh)
        if not ok:
            continue
        ck.case(("big", sh))
        p = np.asarray(g.points)
        if p.shape != pts.shape or len(g) != len(pts):
            ck.fail(what + f": {p.shape} points", replay)
        elif not np.all(np.abs(ld(p) - pts) <= 1e-13 * size(o, idx, ax)):
            ck.fail(what + ": points or their order differ from the specified enumeration", replay)
        for y in (rng.normal(size=len(pts)), np.exp(-np.sum(np.asarray(pts - pts.mean(0), float) ** 2, axis=1)), np.ones(len(pts), int)):
            ok, v = guarded(ck, what, replay, g.integrate, y)
            want = np.sum(ld(y)) * LD(vol)
            if ok and not abs(v - want) <= 1e-10 * vol * np.abs(ld(y)).sum():
                ck.fail(what + f": integral {v}, specified {want}", replay)


def body(ck):
    rng = np.random.default_rng(ck.seed + 3)
    jobs = []
    top = ck.n(4, 5)
    for s in np.ndindex(top, top, top):
        sh = [int(x) + 1 for x in s]
        while True:
            ax = rng.integers(-3, 4, (3, 3))
            if rng.random() < .3:
                ax = np.diag(rng.integers(1, 5, 3)) * [1, 1, 1]
            if abs(round(np.linalg.det(ax))) >= 1:
                break
        jobs.append({"o": [int(x) for x in rng.integers(-5, 6, 3)], "ax": ax.astype(int).tolist(), "sh": sh})
    for _ in range(ck.n(8, 20)):
        sh = [int(x) for x in rng.integers(1, 9, 3)]
        jobs.append({"o": [0, 0, 0], "ax": [[0, 0, 2], [1, 0, 0], [0, -3, 1]], "sh": sh})
    for sh in ([1, 1, 300], [300, 1, 2], [1, 270, 3]) if not ck.thorough else ([1, 1, 700], [600, 1, 2], [2, 300, 1], [1, 2, 300]):
        jobs.append({"o": [1, 0, -2], "ax": rng.permutation([[2, 0, 1], [0, 1, 0], [1, 0, -1]]).tolist(), "sh": sh})
    r = ck.model(tlc("LatticeWalk", invariants=["InLattice", "Bijection", "RankIsPosition", "Emit"], inputs={"jobs.json": jobs}))
    ck.rule = ("every shape up to the bound and random larger ones with random integer axes (oblique, left-handed, permuted): the lattice "
               "walk visits each point once, last index fastest; positions and cell volume compared exactly, then with random real axes")
    if len(r.records) != len(jobs):
        raise MachineryError("lattice walk incomplete")
    for rec in r.records:
        j = jobs[rec["job"] - 1]
        for real in (False, True):
            if real:
                o, ax = rng.normal(size=3), rng.normal(size=(3, 3))
                if rng.random() < .4:       # nearly, but not, orthogonal or parallel to the coordinate axes
                    ax = np.diag(rng.uniform(.2, 2., 3)) @ (np.eye(3) + 10. ** rng.uniform(-7, -.7) * rng.normal(size=(3, 3)))
                    if rng.random() < .3:
                        ax = ax @ np.linalg.qr(rng.normal(size=(3, 3)))[0]
                if abs(np.linalg.det(ax)) < 1e-3:
                    continue
                if rng.random() < .35:      # another unit of length
                    s = 10. ** rng.uniform(-6, 3)
                    o, ax = o * s, ax * s
                t = rng.random()
                if t < .25:                 # one of the two given as whole numbers
                    ax = np.array(j["ax"])
                elif t < .4:
                    o = np.array(j["o"])
                if rng.random() < .2:
                    o = o.astype([np.longdouble, np.float32][int(rng.integers(2))])
                pts = ld(o) + ld(np.array(rec["idx"])) @ ld(ax)
                vol = abs(np.linalg.det(np.asarray(ax, float)))
            else:
                o, ax = np.array(j["o"], float), np.array(j["ax"], float)
                if rng.random() < .3:
                    o, ax = np.array(j["o"]), np.array(j["ax"])
                pts, vol = ld(np.array(rec["pts"])), abs(rec["det"])
            idx = np.array(rec["idx"])
            shape = [tuple(j["sh"]), list(j["sh"]), np.array(j["sh"])][int(rng.integers(3))]
            replay = {"origin": o.tolist(), "axes": ax.tolist(), "shape": j["sh"]}
            what = f"CubicGrid shape={j['sh']} axes={np.round(ax, 3).tolist()}"
            ok, g = guarded(ck, what, replay, CubicGrid, o, ax, shape)
            if not ok:
                continue
            ck.case((tuple(j["sh"]), real), sample=replay)
            p = np.asarray(g.points)
            if not np.array_equal(by_rank(j["sh"]), rec["idx"]):
                raise MachineryError("the closed form of the enumeration differs from the lattice walk")
            if p.shape != pts.shape or len(g) != len(pts):
                ck.fail(what + f": {p.shape} points", replay)
                continue
            if not np.all(np.abs(ld(p) - pts) <= 1e-13 * size(o, idx, ax)):
                ck.fail(what + ": points or their order differ from the lattice walk", replay)
            if not np.array_equal(np.asarray(g.axes), ax):
                ck.fail(what + ": axes not reported", replay)
            y = rng.normal(size=len(pts))
            for rep in range(2):
                ok, v = guarded(ck, what, replay, g.integrate, y)
                if ok and abs(v - y.sum() * vol) > 1e-11 * vol * np.abs(y).sum():
                    ck.fail(what + f": integral {v}, specified {y.sum() * vol} (call {rep + 1})", replay)
            bad = rng.normal(size=len(pts))      # undefined values are part of the sum
            bad[int(rng.integers(len(bad)))] = special = [np.nan, np.inf, -np.inf][int(rng.integers(3))]
            ok, v = guarded(ck, what, replay, g.integrate, bad)
            if ok and not (np.isnan(v) if np.isnan(special) or vol == 0 else v == special):
                ck.fail(what + f": integral of values with one {special} is {v}", replay)
            y[:] = rng.normal(size=len(pts))     # the same array object with new values
            ok, v = guarded(ck, what, replay, g.integrate, y)
            if ok and abs(v - y.sum() * vol) > 1e-11 * vol * np.abs(y).sum():
                ck.fail(what + ": integral of an array changed in place", replay)
            # a grid that has everything but one thing in common with the previous one
            af = np.asarray(ax, float)
            t = float(rng.uniform(.3, 1.4)) * np.abs(af).max()
            twin = [(o, af + np.diag([t, -t, 0.])), (o, af[[1, 0, 2]] * [1., 1., 1.5]), (np.asarray(o, float) + t, af), (o, af.T * 1.25)][int(rng.integers(4))]
            ok, g2 = guarded(ck, what, replay, CubicGrid, *twin, shape)
            if ok:
                v2 = abs(np.linalg.det(twin[1]))
                p2 = ld(twin[0]) + ld(idx) @ ld(twin[1])
                y2 = rng.uniform(.5, 1., len(pts))
                i2, i1 = g2.integrate(y2), g.integrate(y2)
                bulk = np.prod(np.linalg.norm(twin[1], axis=1)) + np.prod(np.linalg.norm(af, axis=1))
                if np.shape(g2.points) != p2.shape or not np.all(np.abs(ld(g2.points) - p2) <= 1e-12 * size(twin[0], idx, twin[1])) \
                        or abs(i2 - y2.sum() * v2) > 1e-11 * bulk * y2.sum():
                    ck.fail(what + f": a second grid with axes {twin[1].tolist()} and origin {np.asarray(twin[0]).tolist()} has other points or integrates to {i2}, "
                            f"specified {y2.sum() * v2}", replay)
                if abs(i1 - y2.sum() * vol) > 1e-11 * bulk * y2.sum() or not np.all(np.abs(ld(g.points) - pts) <= 1e-13 * size(o, idx, ax)):
                    ck.fail(what + ": changed by the construction of another grid", replay)
            for bad in (np.ones(len(pts) + 1), np.ones((len(pts), 1)), np.ones((1, len(pts)))):
                try:
                    g.integrate(bad)
                    ck.fail(what + f": values of shape {bad.shape} accepted", replay)
                except ValueError:
                    pass
    big(ck, rng)


if __name__ == "__main__":
    run_check("C03", "model_checking", body)
