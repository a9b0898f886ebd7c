"""Conformance of the density models with spec/Gauss.tla."""
import numpy as np
from bfit.model import AtomicGaussianDensity, MolecularGaussianDensity
from expr import LD, ev, mag, close, env_params, ld
import gen
from vlib import tlc, guarded


def radii(points, center):
    p = ld(points)
    if p.ndim == 1:
        return np.abs(p - (LD(0) if center is None else LD(center[0])))
    c = np.zeros(p.shape[1]) if center is None else center
    return np.sqrt(np.sum((p - ld(c)) ** 2, axis=1))


def bcast(x, n):
    return np.broadcast_to(ld(x), (n,))


def atomic_records(ck, derivs, maxper, extra=()):
    r = tlc("ModelCases", invariants=["NormInv", "StructInv", "DerivInv", "Emit"],
            constants=dict(MaxPer=maxper, MaxCenters=1, MaxTotal=99, Derivs="TRUE" if derivs else "FALSE",
                           Extra="TRUE" if extra else "FALSE"),
            inputs={"extra.json": list(extra)} if extra else None)
    return ck.model(r).records


def mol_records(ck, derivs, maxper, maxc, total, extra=()):
    r = tlc("ModelCases", invariants=["NormInv", "StructInv", "DerivInv", "Emit"],
            constants=dict(MaxPer=maxper, MaxCenters=maxc, MaxTotal=total, Derivs="TRUE" if derivs else "FALSE",
                           Extra="TRUE" if extra else "FALSE"),
            inputs={"extra.json": list(extra)} if extra else None)
    return ck.model(r).records


def env_of(rec, pts, centers, c, a):
    env = env_params(c, a)
    for k, ctr in enumerate(centers, 1):
        env[f"r{k}"] = radii(pts, ctr)
    return env


def compare(ck, what, model, rec, pts, centers, c, a, derivs, replay):
    n = len(pts)
    env = env_of(rec, pts, centers, c, a)
    want = bcast(ev(rec["val"], env), n)
    # exponentials below the smallest normal number have few digits
    tiny = LD(1e-290) * (1 + np.max(np.abs(ld(a)))) ** 4 * (1 + np.max(np.abs(ld(c))))
    scale = bcast(mag(rec["val"], env), n) + tiny
    ok, got = guarded(ck, what + " value", replay, model.evaluate, c, a)
    if not ok:
        return
    if not close(got, want, 1e-9, scale):
        ck.fail(f"{what}: value differs from the specification", replay)
    if derivs:
        ok, gd = guarded(ck, what + " derivative", replay, model.evaluate, c, a, True)
        if not ok:
            return
        if not isinstance(gd, tuple) or len(gd) != 2 or np.shape(gd[1]) != (n, 2 * rec["n"]):
            ck.fail(f"{what}: derivative result has wrong shape", replay)
            return
        if not close(gd[0], want, 1e-9, scale):
            ck.fail(f"{what}: value differs when derivatives are requested", replay)
        for j, col in enumerate(rec["cols"]):
            w = bcast(ev(col, env), n)
            if not close(gd[1][:, j], w, 1e-8, bcast(mag(col, env), n) + tiny):
                ck.fail(f"{what}: derivative column {j} differs from the exact derivative", replay)
                break


def describe(rec, pts, centers, c, a):
    return {"basis": rec["b"], "normalize": rec["norm"], "points": np.asarray(pts, float).tolist()[:60],
            "centers": [None if x is None else np.asarray(x, float).tolist() for x in centers],
            "coeffs": np.asarray(c, float).tolist(), "exps": np.asarray(a, float).tolist()}
