"""Atomic densities computed by the package (in a worker) against spec/SlaterOrb.tla."""
import numpy as np
from vlib import tlc
from expr import LD, ev, ld, close
import slater as S

RADII = [0., 1.5e-10, 6e-10, 2e-9, 1e-8, 1e-5, 1e-3, .01, .05, .1, .3, .5, .8, 1., 1.5, 2.2, 3., 4.5, 7., 12., 25., 49., 52., 75., 110., 400.]


def spec(ck):
    return ck.model(tlc("SlaterOrb", invariants=["Normalized", "Linear", "Emit"], constants=dict(MaxN=9, MaxM=20, MaxK=24))).records[0]


def wanted(st, got, pts):
    """Specified quantities for the data the package loaded."""
    pts = ld(pts)
    rad, drad = {}, {}
    with np.errstate(all="ignore"):
        for x in got["orbitals_exp"]:
            n, z = got["basis_numbers"][x], got["orbitals_exp"][x]
            env = [{"z": LD(b), "r": pts} for b in z]
            rad[x] = np.stack([np.broadcast_to(ld(ev(st["radial"][a - 1], e)), pts.shape) for a, e in zip(n, env)], axis=1)
            drad[x] = np.stack([np.broadcast_to(ld(ev(st["dradial"][a - 1], e)), pts.shape) for a, e in zip(n, env)], axis=1)
        phi, dphi, sphi, sdphi = [], [], [], []
        for o in got["orbitals"]:
            c, R, dR = ld(got["orbitals_coeff"][o]), rad[o[1]], drad[o[1]]
            env = {}
            for j in range(len(c)):
                env[f"c{j + 1}"], env[f"S{j + 1}"], env[f"dS{j + 1}"] = c[j], R[:, j], dR[:, j]
            phi.append(ev(st["phi"][len(c) - 1], env))
            dphi.append(ev(st["dphi"][len(c) - 1], env))
            sphi.append(np.sum(np.abs(c * R), axis=1))
            sdphi.append(np.sum(np.abs(c) * (np.abs(dR) + ld(got["orbitals_exp"][o[1]]) * np.abs(R)), axis=1))
        env = {"r": pts, "homo": ld(max(got["orbitals_energy"]))}
        for k, o in enumerate(got["orbitals"], 1):
            env[f"p{k}"], env[f"dp{k}"] = phi[k - 1], dphi[k - 1]
            env[f"o{k}"], env[f"e{k}"], env[f"l{k}"] = LD(got["orbitals_occupation"][k - 1]), LD(got["orbitals_energy"][k - 1]), LD("SPDF".index(o[1]))
        nk = len(got["orbitals"])
        out = {"radial": rad, "dradial": drad, "phi": np.stack(phi, 1), "dphi": np.stack(dphi, 1), "sphi": np.stack(sphi, 1), "sdphi": np.stack(sdphi, 1)}
        for m in ("total", "core", "valence"):
            out["dens_" + m] = ev(st["dens"][m][nk - 1], env)
        out["dd"] = ev(st["ddens"][nk - 1], env)
        out["ked"] = ev(st["kinetic"][nk - 1], env)
        occ = ld(got["orbitals_occupation"])
        # sizes rounding errors are relative to
        out["s_dens"] = np.sum(occ * out["sphi"] ** 2, axis=1)
        out["s_dd"] = np.sum(occ * 2 * out["sphi"] * out["sdphi"], axis=1)
        lk = ld(["SPDF".index(o[1]) for o in got["orbitals"]])
        out["s_ked"] = np.sum(occ * (out["sdphi"] ** 2 + lk * (lk + 1) * (out["sphi"] / np.where(pts == 0, 1, pts)[:, None]) ** 2), axis=1)
    return out


FORMS = [None, "strided", "fortran", "readonly", "reversed"]


def shape(rng, pts):
    """The same radii as another kind of array: (points, form)."""
    u = rng.random()
    if u < .12:             # integers
        return np.unique(np.round(np.minimum(pts, 120.))).astype([np.int64, np.int8, np.int32, np.uint8][int(rng.integers(4))])[::-1], None
    if u < .2:
        return pts.astype(LD), None
    return pts, FORMS[int(rng.integers(len(FORMS)))] if rng.random() < .4 else None


def atoms(ck, rng, synthetic):
    """(name, replay, points, results) for every shipped file and for rendered ones."""
    files = S.real_files()
    files.pop("cation/cs.cat", None)
    ops = []
    for n in sorted(files):
        pts = np.concatenate((RADII, np.exp(rng.uniform(-6, 3.4, 12))))
        kind, base = n.split("/")
        if rng.random() < .03:          # a grid of realistic size
            pts = np.concatenate((pts, np.exp(rng.uniform(-6, 3.4, int(rng.integers(1000, 20000))))))
        if n in ("neutral/he.slater", "neutral/li.slater"):     # one more than a multiple of every block size
            pts = np.concatenate((pts, np.exp(rng.uniform(-6, 3.4, {"neutral/he.slater": 65537, "neutral/li.slater": 10001}[n] - len(pts)))))
        pts, form = (pts[rng.permutation(len(pts))], None) if len(pts) in (65537, 10001) else shape(rng, pts[rng.permutation(len(pts))])
        ops.append({"op": "density", "kind": kind, "el": base.split(".")[0], "name": n, "points": pts, "form": form})
    for o, (st, got) in zip(ops, S.run_worker(files, ops)):
        yield "shipped " + o["name"] + ("" if o["points"].dtype == float else f" {o['points'].dtype} radii"), {"file": o["name"], "form": o["form"], "points": o["points"].tolist()}, o["points"], st, got
    recs = S.cases(ck, True)
    idx = rng.permutation(len(recs))[:synthetic]
    for batch in S.place(rng, [recs[i] for i in idx]):
        fs, ops = {}, []
        for n, (rec, kind, el) in batch.items():
            fs[n] = S.text_of(rec, S.numbers(rng, rec, True), rng)
            pts = np.concatenate(([0.], np.exp(rng.uniform(-7, 4.5, int(rng.integers(1, 12))))))[int(rng.integers(2)):]
            pts, form = shape(rng, pts)
            ops.append({"op": "density", "kind": kind, "el": el, "name": n, "points": pts, "form": form})
        for o, (st, got) in zip(ops, S.run_worker(fs, ops)):
            yield "rendered " + o["name"], {"file": fs[o["name"]], "form": o["form"], "points": o["points"].tolist()}, o["points"], st, got


def integrals(ck, rng):
    """Radial integrals of the electron and kinetic energy densities of every shipped atom and ion."""
    files = S.real_files()
    files.pop("cation/cs.cat", None)
    t = np.linspace(-16., 4.6, 1400)
    pts = np.exp(t)
    w = 4 * np.pi * pts ** 3 * (t[1] - t[0])
    ops = [{"op": "density", "kind": n.split("/")[0], "el": n.split("/")[1].split(".")[0], "name": n, "points": pts} for n in sorted(files)]
    for o, (st, got) in zip(ops, S.run_worker(files, ops)):
        yield o, st, got, w


def charge(o):
    return S.SYMBOLS.index(o["el"]) + 1 + {"neutral": 0, "anion": 1, "cation": -1}[o["kind"]]
