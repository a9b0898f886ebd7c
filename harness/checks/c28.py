import numpy as np
from vlib import run_check
from expr import close
import atoms as A


def body(ck):
    rng = np.random.default_rng(ck.seed + 28)
    st = A.spec(ck)
    ck.rule = ("normalization of the radial functions is exact in TLC; radial functions, orbitals and densities of every shipped atom and ion and of "
               "rendered files are compared point by point with the emitted expressions; densities are non-negative and integrate to the electrons")
    for what, replay, pts, ok, got in A.atoms(ck, rng, ck.n(150, 1500)):
        ck.case(what, sample=what)
        if ok != "ok":
            ck.fail(f"{what}: {got}", replay)
            continue
        ck.traces += 1
        w = A.wanted(st, got, pts)
        for x in got["orbitals_exp"]:
            if not close(got["radial"][x], w["radial"][x], 1e-11):
                ck.fail(f"{what}: radial Slater functions of shell {x} differ from the specified ones", replay)
        if not close(got["phi"], w["phi"], 1e-11, w["sphi"]):
            ck.fail(f"{what}: orbitals differ from the specified ones by {np.max(np.abs(got['phi'] - w['phi']))}", replay)
        for k in ("dens_total", "default"):
            if not close(got[k], w["dens_total"], 1e-11, w["s_dens"]):
                ck.fail(f"{what}: density differs from the specified one: {got[k][:6]} / {w['dens_total'][:6].astype(float)}", replay)
        if np.any(got["dens_total"] < 0):
            ck.fail(f"{what}: negative density", replay)
    worst = 0.
    for o, ok, got, q in A.integrals(ck, rng):
        if ok != "ok":
            ck.fail(f"{o['name']}: {got}", {"file": o["name"]})
            continue
        n = float(np.sum(q * got["dens_total"]))
        worst = max(worst, abs(n / A.charge(o) - 1))
        ck.case(("integral", o["name"]))
        if abs(n / A.charge(o) - 1) > 2e-5:
            ck.fail(f"{o['name']}: density integrates to {n}, the atom or ion has {A.charge(o)} electrons", {"file": o["name"]})
    ck.extra["worst_relative_error_of_electron_count"] = worst


if __name__ == "__main__":
    run_check("C28", "model_checking", body)
