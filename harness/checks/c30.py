import numpy as np
from vlib import run_check
from expr import close
import atoms as A


def body(ck):
    rng = np.random.default_rng(ck.seed + 30)
    st = A.spec(ck)
    ck.rule = ("derivatives are derived symbolically in TLA+ from the specified orbitals; orbital and density derivatives and kinetic energy densities "
               "of every shipped atom and ion and of rendered files are compared away from the origin, orbital derivatives at the origin must be "
               "zero; the kinetic energy density integrates to the tabulated kinetic energy")
    for what, replay, pts, ok, got in A.atoms(ck, rng, ck.n(150, 1500)):
        ck.case(what, sample=what)
        if ok != "ok":
            ck.fail(f"{what}: {got}", replay)
            continue
        ck.traces += 1
        w = A.wanted(st, got, pts)
        far, at0 = pts > 1e-9, pts == 0
        for x in got["orbitals_exp"]:
            # (n-1)/r - z may cancel
            z = np.array(got["orbitals_exp"][x])
            n = np.array(got["basis_numbers"][x])
            with np.errstate(all="ignore"):
                s = (np.abs(w["radial"][x]) * (z + (n - 1) / pts[:, None]))[far]
            if not close(got["dradial"][x][far], w["dradial"][x][far], 1e-11, s):
                ck.fail(f"{what}: derivatives of the radial functions of shell {x} differ from the specified ones", replay)
            if np.any(got["dradial"][x][at0] != 0):
                ck.fail(f"{what}: derivative of a radial function of shell {x} at the origin is {got['dradial'][x][at0]}", replay)
        if not close(got["dphi"][far], w["dphi"][far], 1e-11, w["sdphi"][far]):
            ck.fail(f"{what}: orbital derivatives differ from the specified ones", replay)
        if np.any(got["dphi"][at0] != 0):
            ck.fail(f"{what}: orbital derivatives at the origin are {got['dphi'][at0]}", replay)
        for k, s, t in (("dd", "s_dd", "density derivative"), ("ked", "s_ked", "kinetic energy density")):
            if not close(got[k][far], w[k][far], 1e-11, w[s][far]):
                j = int(np.argmax((np.abs(got[k] - w[k]) / w[s])[far]))
                ck.fail(f"{what}: {t} {got[k][far][j]} at r={pts[far][j]}, specified {w[k][far][j]}", replay)
        if np.any(got["dd"][at0] != 0):
            ck.fail(f"{what}: density derivative at the origin is {got['dd'][at0]}", replay)
        if not np.all(np.isfinite(got["ked"])) or np.any(got["ked"] < 0):
            ck.fail(f"{what}: kinetic energy density is not finite and non-negative", replay)
    worst = 0.
    for o, ok, got, q in A.integrals(ck, rng):
        if ok != "ok":
            ck.fail(f"{o['name']}: {got}", {"file": o["name"]})
            continue
        t = float(np.sum(q * got["ked"]))
        worst = max(worst, abs(t / got["kinetic_energy"] - 1))
        ck.case(("integral", o["name"]))
        if abs(t / got["kinetic_energy"] - 1) > 2e-5:
            ck.fail(f"{o['name']}: kinetic energy density integrates to {t}, tabulated {got['kinetic_energy']}", {"file": o["name"]})
    ck.extra["worst_relative_error_of_kinetic_energy"] = worst


if __name__ == "__main__":
    run_check("C30", "model_checking", body)
