import numpy as np
from vlib import run_check, guarded, tlc
from bfit.grid import CubicGrid


def shape_of(g, sp):
    """Cell counts along each axis, recovered from the points."""
    p = np.asarray(g.points)
    ax = np.asarray(g.axes)
    idx = np.linalg.solve(ax.T, (p - p[0]).T).T
    return np.rint(idx.max(axis=0)).astype(int) + 1


def random_rotation(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    return q * np.sign(np.diag(r))


def body(ck):
    rng = np.random.default_rng(ck.seed + 4)
    cases = []
    for _ in range(ck.n(300, 1200)):
        n = int(rng.integers(1, 6))
        spread = rng.integers(0, 12, 3)
        atoms = [[int(rng.integers(-s, s + 1)) for s in spread] for _ in range(n)]
        q = [int(x) for x in rng.integers(1, 30, n)]
        if n > 1 and rng.random() < .2:
            q[int(rng.integers(n))] = 0
        cases.append({"kind": "plain", "atoms": atoms, "q": q, "e": int(rng.integers(0, 12)), "s": int(rng.integers(1, 6))})
    while len(cases) < ck.n(600, 2400):
        atoms, q, span = [], [], []
        for d in range(3):
            x1, x2 = int(rng.integers(1, 7)), int(rng.integers(1, 7))
            k = int(rng.integers(1, 4))
            for x, z in ((x1, x2 * k), (-x2, x1 * k)):
                a = [0, 0, 0]
                a[d] = x
                atoms.append(a)
                q.append(z)
            span.append(x1 + x2)
        e, s = int(rng.integers(0, 8)), int(rng.integers(2, 7))
        I = [sum(z * (sum(t * t for t in a) - a[d] ** 2) for a, z in zip(atoms, q)) for d in range(3)]
        if min(abs(I[0] - I[1]), abs(I[1] - I[2]), abs(I[0] - I[2])) < 0.05 * max(I):
            continue
        if any((t + 2 * e) % s == 0 for t in span):
            continue
        cases.append({"kind": "body", "atoms": atoms, "q": q, "e": e, "s": s})
    r = ck.model(tlc("BoxCases", invariants=["Covers", "Smallest", "BodyIsPrincipal", "Emit"], inputs={"cases.json": cases}))
    ck.rule = ("integer molecules along the coordinate axes (exact, whole-cell margins included) and molecules with known principal axes in "
               "random orientation and place: origin, axes and cell counts against the specified box; random molecules: covering relation")
    for rec in r.records:
        c = rec["c"]
        at, q = np.array(c["atoms"], float), np.array(c["q"], float)
        scale = 2. ** -int(rng.integers(0, 4))
        order = rng.permutation(len(q))
        if c["kind"] == "plain":
            shift = rng.integers(-6, 7, 3) * scale
            xyz = at * scale + shift
            sp, ext = c["s"] * scale, c["e"] * scale
            if np.prod(rec["cells"]) > 60000 or min(rec["cells"]) < 1:
                continue
            replay = {"charges": q.tolist(), "coords": xyz.tolist(), "spacing": sp, "extension": ext, "rotate": False}
            ok, g = guarded(ck, "from_molecule", replay, CubicGrid.from_molecule, q[order], xyz[order], spacing=sp, extension=ext, rotate=False)
            if not ok:
                continue
            ck.case(("plain", len(q), c["e"], c["s"]), sample=replay)
            org = np.array(rec["origin2"]) / 2 * scale + shift
            if not np.allclose(g.axes, np.eye(3) * sp, atol=1e-12):
                ck.fail("axes are not the coordinate axes times the spacing", replay)
            elif len(g) != np.prod(rec["cells"]) or not np.array_equal(shape_of(g, sp), rec["cells"]):
                ck.fail(f"cells {shape_of(g, sp).tolist()}, specified {rec['cells']}", replay)
            elif not np.allclose(g.points[0], org, atol=1e-10):
                ck.fail(f"origin {g.points[0]}, specified {org}", replay)
        else:
            R = random_rotation(rng)
            shift = rng.normal(size=3) * 3
            xyz = (at * scale) @ R.T + shift
            sp, ext = c["s"] * scale, c["e"] * scale
            replay = {"charges": q.tolist(), "coords": xyz.tolist(), "spacing": sp, "extension": ext, "rotate": True}
            ok, g = guarded(ck, "from_molecule", replay, CubicGrid.from_molecule, q[order], xyz[order], spacing=sp, extension=ext, rotate=True)
            if not ok:
                continue
            ck.case(("body", c["e"], c["s"], str(rec["cells"])), sample=replay)
            ax = np.asarray(g.axes) / sp
            proj = ax @ R                         # rows: axes in the body frame
            perm = np.argmax(np.abs(proj), axis=1)
            if sorted(perm.tolist()) != [0, 1, 2] or not np.allclose(np.abs(proj), np.eye(3)[perm], atol=1e-7):
                ck.fail("axes are not the principal axes times the spacing", replay)
                continue
            sh = shape_of(g, sp)
            if not np.array_equal(sh, np.array(rec["cells"])[perm]) or len(g) != np.prod(rec["cells"]):
                ck.fail(f"cells {sh.tolist()}, specified {np.array(rec['cells'])[perm].tolist()}", replay)
                continue
            mid = np.array([rec["origin2"][d] + rec["cells"][d] * c["s"] for d in range(3)]) / 2 * scale
            org = mid @ R.T + shift - 0.5 * sh @ np.asarray(g.axes)
            if not np.allclose(g.points[0], org, atol=1e-7):
                ck.fail(f"origin {g.points[0]}, specified {org}", replay)
    for _ in range(ck.n(800, 6000)):               # covering relation on random molecules
        n = int(rng.integers(1, 8)) if rng.random() < .85 else int(rng.integers(8, 60))
        xyz = rng.normal(size=(n, 3)) * rng.uniform(.2, 2.5, 3)
        q = rng.integers(1, 60, n).astype(float)
        shape = ["", "", "", "linear", "planar", "symmetric", "twice", "far", "near axes", "equal", "nearly a top"][int(rng.integers(11))]
        if shape == "linear":
            xyz = rng.normal(size=(n, 1)) * (np.eye(3)[int(rng.integers(3))] if rng.random() < .5 else rng.normal(size=3))
        elif shape == "planar":
            xyz[:, int(rng.integers(3))] = 0.
        elif shape == "symmetric":
            xyz = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.]])[: int(rng.integers(2, 5))] * rng.uniform(.5, 1.5)
            q = np.full(len(xyz), 6.)
        elif shape == "twice":
            xyz[-1] = xyz[0]
        elif shape == "far":
            xyz = xyz + rng.normal(size=3) * 40.
        elif shape == "near axes":
            xyz = xyz * [1., 2., 4.] + 1e-3 * rng.normal(size=xyz.shape)
        elif shape == "nearly a top":       # moments of inertia that agree to a few digits, but differ
            xyz = (np.vstack((np.eye(3), -np.eye(3))) * (1 + 10. ** -rng.uniform(2, 6) * np.arange(3))) @ random_rotation(rng)
            q = np.full(6, 9.)
        elif shape == "equal":
            q[:] = q[0]
        n = len(q)
        if rng.random() < .15 and n > 1 and shape not in ("symmetric", "nearly a top"):        # centres without charge
            q[rng.permutation(n)[:int(rng.integers(1, n))]] = 0.
            shape += " ghosts"
        sp, ext, rot = float(rng.uniform(.35, .9)), float(rng.uniform(0., 2.5)), bool(rng.random() < .7)
        if rng.random() < .1:
            sp, ext = 1, 2
        if rng.random() < .2:
            q = q.astype(int)
        if rng.random() < .1 and shape not in ("symmetric", "nearly a top"):
            xyz = np.round(xyz).astype(int)
        replay = {"charges": q.tolist(), "coords": xyz.tolist(), "spacing": sp, "extension": ext, "rotate": rot}
        ok, g = guarded(ck, "from_molecule", replay, CubicGrid.from_molecule, q, xyz, spacing=sp, extension=ext, rotate=rot)
        if not ok:
            continue
        ck.case(("random", n, rot, shape, round(sp, 2)))
        ax = np.asarray(g.axes) / sp
        if not np.allclose(ax @ ax.T, np.eye(3), atol=1e-9):
            ck.fail("axes are not orthogonal with the requested spacing", replay)
            continue
        com = q @ xyz / q.sum()
        d = xyz - com
        inertia = np.einsum("i,i,jk->jk", q, (d ** 2).sum(1), np.eye(3)) - np.einsum("i,ij,ik->jk", q, d, d)
        t = ax @ inertia @ ax.T
        if rot and np.abs(t - np.diag(np.diag(t))).max() > 1e-10 * (1 + np.abs(t).max()):
            ck.fail("axes are not principal axes of inertia", replay)
            continue
        if not rot and not np.allclose(ax, np.eye(3), atol=1e-12):
            ck.fail("axes are not the coordinate axes", replay)
            continue
        lo = ax @ np.asarray(g.points[0])
        hi = lo + shape_of(g, sp) * sp
        x = xyz @ ax.T
        m1, m2 = x.min(0) - lo, hi - x.max(0)
        if np.any(m1 < ext - 1e-7) or np.any(m2 < ext - 1e-7):
            ck.fail(f"nuclei not enclosed with margin {ext}: margins {m1}, {m2}", replay)
        elif np.any(np.abs(m1 - m2) > 1e-7) or np.any(m1 > ext + sp / 2 + 1e-7):
            ck.fail(f"box not centred or not the smallest: margins {m1}, {m2}", replay)
    # the defaults: spacing 0.2, margin 5, rotated
    q, xyz = np.array([8., 1.]), np.array([[0., 0., 0.], [0., 0.1, 0.2]])
    ok, g = guarded(ck, "from_molecule defaults", {}, CubicGrid.from_molecule, q, xyz)
    ok2, h = guarded(ck, "from_molecule defaults", {}, CubicGrid.from_molecule, q, xyz, spacing=.2, extension=5., rotate=True)
    if ok and ok2 and not (np.array_equal(g.points, h.points)):
        ck.fail("defaults are not spacing 0.2, margin 5, rotated", {})


if __name__ == "__main__":
    run_check("C04", "model_checking", body)
